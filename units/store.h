/* Ghost environment of the storage engine.  Storage is modelled by its interface contract, not by a file of some size:
 * of every file one page, chosen arbitrarily (the watched page), is followed exactly; a read of any other page returns
 * arbitrary bytes that satisfy the representation invariant of that page (PAGEINV, given by the unit), or entirely
 * arbitrary bytes if that page is not live.  As the watched page is arbitrary, what is proved about it holds for every
 * page.  The engine state is any state that satisfies the invariant, so a contract covers every history of operations. */
#include "embedDB.h"
#include "vf.h"
#include "vlg_def.h"
#include "vst.h"
#ifndef PAR
#define PAR EMBEDDB_USE_BINARY_SEARCH
#endif
#ifndef NP
#define NP 8   /* data pages */
#endif
#ifndef ER
#define ER 2   /* erase block, in pages */
#endif
#ifndef KS
#define KS 4
#endif
#ifndef DS
#define DS 2
#endif
#ifndef BMS
#define BMS 1
#endif
#define HASX ((PAR) & EMBEDDB_USE_INDEX)
#define HASV ((PAR) & EMBEDDB_USE_VDATA)
#define HASM ((PAR) & EMBEDDB_USE_MAX_MIN)
#define HASB ((PAR) & EMBEDDB_USE_BMAP)
#define HASR ((PAR) & EMBEDDB_RECORD_LEVEL_CONSISTENCY)
#define BSRCH ((PAR) & EMBEDDB_USE_BINARY_SEARCH)
#define HS0 (6 + ((HASX || HASB) ? BMS : 0))
#ifndef HS
#define HS ((HASM) ? (HS0 < 14 ? 14 : HS0) + 2 * (KS + DS) : HS0)
#endif
#define RS (KS + DS + ((HASV) ? 4 : 0))
#ifndef MR
#define MR 3   /* records per page */
#endif
#ifndef SLACK
#define SLACK 0
#endif
#ifndef PS
#define PS (HS + MR * RS + SLACK)
#endif
enum { PSC = PS };
#ifndef NX
#define NX 4   /* index pages */
#endif
#ifndef NV
#define NV 4   /* variable-data pages */
#endif
#define NB (2 + ((HASX) ? 2 : 0) + ((HASV) ? 2 : 0))
#define BXW (2 * PS)
#define BXR (3 * PS)
#define BVW (((HASX) ? 4 : 2) * PS)
#define BVR (((HASX) ? 5 : 3) * PS)
#ifndef MIR
#define MIR ((PS - 16) / BMS)
#endif
#define VHS (KS + 4)
#ifndef NRD
#define NRD 5   /* unwatched pages read by one call */
#endif
#ifndef READFAILS
#define READFAILS(f, pg) 0   /* pages beyond the end of the file */
#endif
#ifndef IDMAX
#define IDMAX 0x7FFFFF00u   /* page ids stay below 2^31 */
#endif
#ifndef RLCPAGES
#define RLCPAGES ((HASR) ? 2 * ER : 0)
#endif
#define NONE 0xFFFFFFFFu
u8 BUF[NB * PS];
static embedDBState DB; static embedDBFileInterface FI; static spline SPL;
static u8 fD, fX, fV;           /* file handles */
struct envin {
  u8 buf[NB * PS], rd[NRD][PS], wp[PS];
  uint32_t min, next, cache, w;              /* window of logical pages [min, next), cached page, watched page */
#if HASX
  u8 wx[PS]; uint32_t xmin, xnext, xcache, xw;
#endif
#if HASV
  u8 wv[PS]; uint32_t vmin, vnext, vcache, vw, vloc; uint64_t vminrec; u8 hasvar;
#endif
#if HASR
  uint32_t rlcstart, rlcnext;
#endif
  int32_t maxerr;
  u8 failat;                                 /* index of the storage operation that fails; 255: none */
};
#ifdef XTYPES
XTYPES
#endif
#ifndef XIN
#define XIN
#endif
static struct inputs { struct envin e; XIN } IN;
#define EIN IN.e
struct ghost G;
u8 WD[PS]; static u8 WX[PS], WV[PS];   /* current content of the watched page of each file */
static u8 WROTE[NLOG][PS];          /* content of each write */
#ifdef FAULTS
#define FAULT() (G.nops++ == EIN.failat ? (G.failed = 1 + f) : 0)
#else
#define FAULT() (G.nops++, 0)
#endif
SPEC uint64_t rdn(const u8 *p, int n) { uint64_t v = 0; for (int i = 0; i < 8; i++) if (i < n) v |= (uint64_t)p[i] << (8 * i); return v; }
static uint32_t rd32(const u8 *p) { return p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
static int16_t rd16(const u8 *p) { return (int16_t)(p[0] | p[1] << 8); }
static int8_t cmpKey(void *a, void *b) {
#if KS == 4
  uint32_t x = *(uint32_t *)a, y = *(uint32_t *)b;
#elif KS == 8
  uint64_t x = *(uint64_t *)a, y = *(uint64_t *)b;
#elif KS == 2
  uint16_t x = *(uint16_t *)a, y = *(uint16_t *)b;
#else
  uint8_t x = *(uint8_t *)a, y = *(uint8_t *)b;
#endif
  return x < y ? -1 : x > y ? 1 : 0;
}
#if DS == 2
typedef uint16_t dval;
#elif DS == 1
typedef uint8_t dval;
#else
typedef uint32_t dval;
#endif
static int8_t cmpData(void *a, void *b) { dval x = *(dval *)a, y = *(dval *)b; return x < y ? -1 : x > y ? 1 : 0; }
/* summary bitmap: 8 buckets of the data value */
#if BMS == 2
typedef uint16_t bmt;
#else
typedef u8 bmt;
#endif
static bmt bucket(const void *d) { return (bmt)(1u << (*(const u8 *)d & (8 * BMS - 1))); }
static bmt bmAt(const void *p) { return *(const bmt *)p; }
static void updBm(void *d, void *bm) { *(bmt *)bm |= bucket(d); }
static int8_t inBm(void *d, void *bm) { return (*(bmt *)bm & bucket(d)) != 0; }
static void bldBm(void *mi, void *ma, void *bm);
/* PAGEINV(file, physical page, content): what a read of an unwatched page may return (defined by the unit) */
static vbool pageInv(int file, uint32_t pg, const u8 *c);
static int erasedNow(int f, uint32_t pg) {   /* erased by this call and not written since */
  int e = 0; for (int i = 0; i < NLOG; i++) if (i < G.ne && G.ef[i] == f && pg >= G.es[i] && pg < G.ee[i]) { e = 1; for (int j = 0; j < NLOG; j++) if (j < G.nw && G.wf[j] == f && G.wpg[j] == pg && G.wseq[j] > G.eseq[i]) e = 0; }
  return e;
}
static int fileOf(void *file) { return file == &fD ? 0 : (HASX) && file == &fX ? 1 : (HASV) && file == &fV ? 2 : 3; }
static const uint32_t NPG[4] = {NP, NX, NV, 0};
static int8_t ioRead(void *buffer, uint32_t pg, uint32_t ps, void *file) {
  int f = fileOf(file);
  if (ps != PS || f == 3) { G.badio = 1; return 0; }
  if (FAULT()) { ((u8 *)buffer)[0] = 0xEE; return 0; }
  if (pg >= NPG[f] || READFAILS(f, pg)) return 0;
  if (f == 0 && pg == EIN.w) { memcpy(buffer, WD, PS); return 1; }
#if HASX
  if (f == 1 && pg == EIN.xw) { memcpy(buffer, WX, PS); return 1; }
#endif
#if HASV
  if (f == 2 && pg == EIN.vw) { memcpy(buffer, WV, PS); return 1; }
#endif
#if defined(EMBEDDB_VERIFY) && !defined(NATIVE)
  /* inside a loop under contract: fresh arbitrary content at every read */
  struct { u8 c[PS]; } fresh; if (!erasedNow(f, pg)) VF_ASSUME(pageInv(f, pg, fresh.c)); memcpy(buffer, fresh.c, PS); return 1;
#endif
  for (int k = 0; k < NRD; k++) if (k == G.nrd) { memcpy(buffer, EIN.rd[k], PS); if (!erasedNow(f, pg)) VF_ASSUME(pageInv(f, pg, EIN.rd[k])); }
  VF_CAPACITY(G.nrd < NRD);
  G.nrd++;
  return 1;
}
static int8_t ioWrite(void *buffer, uint32_t pg, uint32_t ps, void *file) {
  int f = fileOf(file);
  if (ps != PS || f == 3 || pg >= NPG[f]) { G.badio = 1; return 0; }
  if (FAULT()) return 0;
  for (int k = 0; k < NLOG; k++) if (k == G.nw) { G.wf[k] = f; G.wpg[k] = pg; G.wseq[k] = G.nops; memcpy(WROTE[k], buffer, PS); }
  VF_CAPACITY(G.nw < NLOG);
  G.nw++;
  if (f == 0 && pg == EIN.w) { memcpy(WD, buffer, PS); G.wd_n++; }
#if HASX
  if (f == 1 && pg == EIN.xw) { memcpy(WX, buffer, PS); G.wx_n++; }
#endif
#if HASV
  if (f == 2 && pg == EIN.vw) { memcpy(WV, buffer, PS); G.wv_n++; }
#endif
  return 1;
}
/* an erased block holds junk: every byte is overwritten with 1s, as the test suite's erase does */
static int8_t ioErase(uint32_t s, uint32_t e, uint32_t ps, void *file) {
  int f = fileOf(file);
  if (ps != PS || f == 3 || s % ER != 0 || e - s != ER || e > NPG[f]) { G.badio = 1; return 0; }
  if (FAULT()) return 0;
  for (int k = 0; k < NLOG; k++) if (k == G.ne) { G.ef[k] = f; G.es[k] = s; G.ee[k] = e; G.eseq[k] = G.nops; }
  VF_CAPACITY(G.ne < NLOG);
  G.ne++;
  if (f == 0 && EIN.w >= s && EIN.w < e) memset(WD, 1, PS);
#if HASX
  if (f == 1 && EIN.xw >= s && EIN.xw < e) memset(WX, 1, PS);
#endif
#if HASV
  if (f == 2 && EIN.vw >= s && EIN.vw < e) memset(WV, 1, PS);
#endif
  return 1;
}
static int8_t ioFlush(void *file) { int f = fileOf(file); if (f == 3) G.badio = 1; if (FAULT()) return 0; if (f == 0) G.nflush++; if (f == 1) G.nflushx++; if (f == 2) G.nflushv++; return 1; }
static int8_t ioOpen(void *file, uint8_t mode) { int f = 0; return FAULT() ? 0 : 1; }
static int8_t ioClose(void *file) { return 1; }
static void setup_env(void) {
  memcpy(BUF, EIN.buf, NB * PS); memcpy(WD, EIN.wp, PS);
  struct ghost z = {0}; G = z;
  fD = fX = fV = 0;
  FI.read = ioRead; FI.write = ioWrite; FI.erase = ioErase; FI.flush = ioFlush; FI.open = ioOpen; FI.close = ioClose;
  DB.fileInterface = &FI; DB.dataFile = &fD; DB.indexFile = NULL; DB.varFile = NULL; DB.buffer = BUF; DB.spl = BSRCH ? NULL : &SPL;
  DB.parameters = (int16_t)(PAR); DB.numDataPages = NP; DB.eraseSizeInPages = ER; DB.pageSize = PS; DB.keySize = KS; DB.dataSize = DS;
  DB.recordSize = RS; DB.headerSize = HS; DB.bitmapSize = BMS; DB.maxRecordsPerPage = (PS - HS) / RS; DB.maxError = EIN.maxerr; DB.bufferSizeInBlocks = NB;
  DB.compareKey = cmpKey; DB.compareData = cmpData; DB.updateBitmap = updBm; DB.inBitmap = inBm; DB.buildBitmapFromRange = NULL; DB.extractData = NULL;
  DB.minDataPageId = EIN.min; DB.nextDataPageId = EIN.next; DB.bufferedPageId = EIN.cache; DB.numAvailDataPages = NP - RLCPAGES - (EIN.next - EIN.min);
  DB.bufferedIndexPageId = DB.bufferedVarPage = -1; DB.numIndexPages = DB.numVarPages = 0; DB.numReads = DB.numWrites = DB.bufferHits = DB.numIdxReads = DB.numIdxWrites = 0;
  DB.recordHasVarData = 0; DB.variableDataHeaderSize = VHS; DB.nextRLCPhysicalPageLocation = DB.rlcPhysicalStartingPage = 0;
#if HASR
  DB.rlcPhysicalStartingPage = EIN.rlcstart; DB.nextRLCPhysicalPageLocation = EIN.rlcnext;
#endif
#if HASX
  memcpy(WX, EIN.wx, PS);
  DB.indexFile = &fX; DB.numIndexPages = NX; DB.maxIdxRecordsPerPage = MIR; DB.minIndexPageId = EIN.xmin; DB.nextIdxPageId = EIN.xnext; DB.numAvailIndexPages = NX - (EIN.xnext - EIN.xmin); DB.bufferedIndexPageId = EIN.xcache;
#endif
#if HASV
  memcpy(WV, EIN.wv, PS);
  DB.varFile = &fV; DB.numVarPages = NV; DB.nextVarPageId = EIN.vnext; DB.numAvailVarPages = NV - (EIN.vnext - EIN.vmin); DB.bufferedVarPage = EIN.vcache; DB.currentVarLoc = EIN.vloc; DB.minVarRecordId = EIN.vminrec; DB.recordHasVarData = EIN.hasvar;
#endif
}
/* ---- representation of the data region: logical page held by physical page p of a window [min, next) over n pages */
#define LID(p, mn, n) ((mn) - (mn) % (n) + (p) + ((mn) - (mn) % (n) + (p) < (mn) ? (n) : 0))
static uint32_t lidOf(uint32_t p, uint32_t mn) { return LID(p, mn, NP); }
static vbool live(uint32_t p, uint32_t mn, uint32_t nx) { return p < NP && lidOf(p, mn) < nx; }
#define REC(pg, r) ((pg) + HS + (r) * RS)
#define KEYV(pg, r) rdn(REC(pg, r), KS)
static vbool countOk(const u8 *pg, int lo) { int c = rd16(pg + 4); return c >= lo && c <= (PS - HS) / RS; }
SPEC vbool recordsOk(const u8 *pg, int lo) { int c = rd16(pg + 4); vbool ok = c >= lo && c <= MR; for (int r = 0; r + 1 < MR; r++) if (r + 1 < c && !(KEYV(pg, r) < KEYV(pg, r + 1))) ok = 0; return ok; }
SPEC uint64_t lastKey(const u8 *pg) { int c = rd16(pg + 4); uint64_t k = 0; for (int r = 0; r < MR; r++) if (r == c - 1) k = KEYV(pg, r); return k; }
static vbool winOk(uint32_t mn, uint32_t nx) { return mn <= nx && nx - mn <= NP - RLCPAGES && nx < IDMAX && mn % ER == 0 && IMP(nx > 0, mn < nx); }
static vbool sameBytes(const u8 *a, const u8 *b, int n) { vbool ok = 1; for (int i = 0; i < n / 8; i++) if (*(const uint64_t *)(a + 8 * i) != *(const uint64_t *)(b + 8 * i)) ok = 0; for (int i = n / 8 * 8; i < n; i++) if (a[i] != b[i]) ok = 0; return ok; }
static vbool samePage(const u8 *a, const u8 *b) { return sameBytes(a, b, PS); }
/* the data read buffer holds exactly the live page that the cache id names */
static vbool cacheOk(const u8 *rb, const u8 *watched, uint32_t cache, uint32_t mn, uint32_t nx) {
  return cache == NONE || (live(cache, mn, nx) && (cache == EIN.w ? samePage(rb, watched) : pageInv(0, cache, rb)));
}
#define ALLG G, __CPROVER_object_whole(BUF), __CPROVER_object_whole(WD), __CPROVER_object_whole(WX), __CPROVER_object_whole(WV), __CPROVER_object_whole(WROTE)
