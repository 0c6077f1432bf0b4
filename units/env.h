/* Ghost environment of the storage engine: the three files are explicit byte arrays of a concrete small geometry with
 * fully symbolic contents, the engine state is any state that satisfies the representation invariant below (so a
 * contract proved from it covers every history of operations).  Every operation re-establishes the invariant. */
#include "embedDB.h"
#include "vf.h"
#include "vlg_def.h"
#ifndef PAR
#define PAR EMBEDDB_USE_BINARY_SEARCH
#endif
#ifndef NP
#define NP 8   /* data pages */
#endif
#ifndef ER
#define ER 2   /* erase block, in pages */
#endif
#ifndef KS
#define KS 4
#endif
#ifndef DS
#define DS 2
#endif
#ifndef BMS
#define BMS 1
#endif
#define HASX ((PAR) & EMBEDDB_USE_INDEX)
#define HASV ((PAR) & EMBEDDB_USE_VDATA)
#define HASM ((PAR) & EMBEDDB_USE_MAX_MIN)
#define HASB ((PAR) & EMBEDDB_USE_BMAP)
#define HASR ((PAR) & EMBEDDB_RECORD_LEVEL_CONSISTENCY)
#define BSRCH ((PAR) & EMBEDDB_USE_BINARY_SEARCH)
#ifndef HS
#define HS (6 + ((HASX) ? BMS : 0) + ((HASM) ? 2 * (KS + DS) : 0))
#endif
#define RS (KS + DS + ((HASV) ? 4 : 0))
#ifndef MR
#define MR 3   /* records per page */
#endif
#ifndef PS
#define PS (HS + MR * RS)
#endif
#ifndef NX
#define NX 4   /* index pages */
#endif
#ifndef NV
#define NV 4   /* variable-data pages */
#endif
#define NB (2 + ((HASX) ? 2 : 0) + ((HASV) ? 2 : 0))
#define XW (2 * PS)
#define XR (3 * PS)
#define VW (((HASX) ? 4 : 2) * PS)
#define VR (((HASX) ? 5 : 3) * PS)
#ifndef MIR
#define MIR ((PS - 16) / BMS)
#endif
#define VHS (KS + 4)
#ifndef IDMAX
#define IDMAX 0x7FFFFF00u   /* page ids stay below 2^31 */
#endif
static u8 BUF[NB * PS];
static u8 DF[NP * PS];
#if HASX
static u8 XF[NX * PS];
#endif
#if HASV
static u8 VFL[NV * PS];
#endif
static embedDBState DB; static embedDBFileInterface FI; static spline SPL;
static u8 fD, fX, fV;           /* file handles */
struct envin {
  u8 buf[NB * PS], df[NP * PS];
#if HASX
  u8 xf[NX * PS]; uint32_t xmin, xnext, xcache;
#endif
#if HASV
  u8 vf[NV * PS]; uint32_t vmin, vnext, vcache, vloc; uint64_t vminrec; u8 hasvar;
#endif
  uint32_t min, next, cache; u8 flen;        /* flen: pages the data file holds */
  int32_t maxerr;
  u8 rlcstart, rlcnext;
  u8 failat;                                 /* index of the storage operation that fails; 255: none */
};
static int nops, badio, failed, nflush, nerase, nwrite; static uint32_t wpage, epage, eend; /* last written / erased data pages */
#ifdef FAULTS
#define FAULT() (nops++ == EIN.failat ? (failed = 1) : 0)
#else
#define FAULT() (nops++, 0)
#endif
SPEC uint64_t rdn(const u8 *p, int n) { uint64_t v = 0; for (int i = 0; i < 8; i++) if (i < n) v |= (uint64_t)p[i] << (8 * i); return v; }
static uint32_t rd32(const u8 *p) { return p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
static int16_t rd16(const u8 *p) { return (int16_t)(p[0] | p[1] << 8); }
static int8_t cmpKey(void *a, void *b) {
#if KS == 4
  uint32_t x = *(uint32_t *)a, y = *(uint32_t *)b;
#elif KS == 8
  uint64_t x = *(uint64_t *)a, y = *(uint64_t *)b;
#elif KS == 2
  uint16_t x = *(uint16_t *)a, y = *(uint16_t *)b;
#else
  uint8_t x = *(uint8_t *)a, y = *(uint8_t *)b;
#endif
  return x < y ? -1 : x > y ? 1 : 0;
}
#if DS == 2
typedef uint16_t dval;
#elif DS == 1
typedef uint8_t dval;
#else
typedef uint32_t dval;
#endif
static int8_t cmpData(void *a, void *b) { dval x = *(dval *)a, y = *(dval *)b; return x < y ? -1 : x > y ? 1 : 0; }
#ifndef XIN
#define XIN
#endif
static struct inputs { struct envin e; XIN } IN;
#define EIN IN.e
/* ---- file interface over the ghost files */
static void getPage(void *d, const u8 *f, uint32_t n, uint32_t pg) { for (uint32_t p = 0; p < n; p++) if (p == pg) memcpy(d, f + p * PS, PS); }
static void putPage(const void *d, u8 *f, uint32_t n, uint32_t pg) { for (uint32_t p = 0; p < n; p++) if (p == pg) memcpy(f + p * PS, d, PS); }
static void erasePages(u8 *f, uint32_t n, uint32_t s) { for (uint32_t p = 0; p < n; p += ER) if (p == s) memset(f + p * PS, 1, ER * PS); }
static int8_t ioRead(void *buffer, uint32_t pg, uint32_t ps, void *file) {
  if (ps != PS) badio = 1;
  if (FAULT()) { ((u8 *)buffer)[0] = 0xEE; return 0; }
  if (file == &fD) { if (pg >= EIN.flen) return 0; getPage(buffer, DF, NP, pg); return 1; }
#if HASX
  if (file == &fX) { if (pg >= NX) return 0; getPage(buffer, XF, NX, pg); return 1; }
#endif
#if HASV
  if (file == &fV) { if (pg >= NV) return 0; getPage(buffer, VFL, NV, pg); return 1; }
#endif
  badio = 1; return 0;
}
static int8_t ioWrite(void *buffer, uint32_t pg, uint32_t ps, void *file) {
  if (ps != PS) badio = 1;
  if (FAULT()) return 0;
  nwrite++;
  if (file == &fD) { if (pg >= NP) { badio = 1; return 0; } wpage = pg; putPage(buffer, DF, NP, pg); return 1; }
#if HASX
  if (file == &fX) { if (pg >= NX) { badio = 1; return 0; } putPage(buffer, XF, NX, pg); return 1; }
#endif
#if HASV
  if (file == &fV) { if (pg >= NV) { badio = 1; return 0; } putPage(buffer, VFL, NV, pg); return 1; }
#endif
  badio = 1; return 0;
}
/* an erased block holds junk: every byte is overwritten with 1s, as the test suite's erase does */
static int8_t ioErase(uint32_t s, uint32_t e, uint32_t ps, void *file) {
  if (ps != PS || s % ER != 0 || e - s != ER) badio = 1;
  if (FAULT()) return 0;
  nerase++;
  if (file == &fD) { if (s >= NP || e > NP) { badio = 1; return 0; } epage = s; eend = e; erasePages(DF, NP, s); return 1; }
#if HASX
  if (file == &fX) { if (s >= NX || e > NX) { badio = 1; return 0; } erasePages(XF, NX, s); return 1; }
#endif
#if HASV
  if (file == &fV) { if (s >= NV || e > NV) { badio = 1; return 0; } erasePages(VFL, NV, s); return 1; }
#endif
  badio = 1; return 0;
}
static int8_t ioFlush(void *file) { if (FAULT()) return 0; nflush++; return 1; }
static int8_t ioOpen(void *file, uint8_t mode) { return FAULT() ? 0 : 1; }
static int8_t ioClose(void *file) { return 1; }
/* summary bitmap: 8 buckets of the data value (any function of the value works for the store) */
static u8 bucket(const void *d) { return (u8)(1u << (*(const u8 *)d & 7)); }
static void updBm(void *d, void *bm) { *(u8 *)bm |= bucket(d); }
static int8_t inBm(void *d, void *bm) { return (*(u8 *)bm & bucket(d)) != 0; }
static void bldBm(void *mi, void *ma, void *bm);
static void setup_env(void) {
  memcpy(BUF, EIN.buf, NB * PS); memcpy(DF, EIN.df, NP * PS);
  fD = fX = fV = 0; nops = badio = failed = nflush = nerase = nwrite = 0; wpage = epage = eend = 0xFFFFFFFF;
  FI.read = ioRead; FI.write = ioWrite; FI.erase = ioErase; FI.flush = ioFlush; FI.open = ioOpen; FI.close = ioClose;
  DB.fileInterface = &FI; DB.dataFile = &fD; DB.indexFile = NULL; DB.varFile = NULL; DB.buffer = BUF; DB.spl = NULL;
  DB.parameters = (int16_t)(PAR); DB.numDataPages = NP; DB.eraseSizeInPages = ER; DB.pageSize = PS; DB.keySize = KS; DB.dataSize = DS;
  DB.recordSize = RS; DB.headerSize = HS; DB.bitmapSize = BMS; DB.maxRecordsPerPage = MR; DB.maxError = EIN.maxerr; DB.bufferSizeInBlocks = NB;
  DB.compareKey = cmpKey; DB.compareData = cmpData; DB.updateBitmap = updBm; DB.inBitmap = inBm; DB.buildBitmapFromRange = NULL; DB.extractData = NULL;
  DB.minDataPageId = EIN.min; DB.nextDataPageId = EIN.next; DB.bufferedPageId = EIN.cache; DB.numAvailDataPages = NP - (EIN.next - EIN.min);
  DB.bufferedIndexPageId = DB.bufferedVarPage = -1; DB.numIndexPages = DB.numVarPages = 0; DB.numReads = DB.numWrites = DB.bufferHits = DB.numIdxReads = DB.numIdxWrites = 0;
  DB.recordHasVarData = 0; DB.variableDataHeaderSize = VHS; DB.nextRLCPhysicalPageLocation = DB.rlcPhysicalStartingPage = 0;
#if HASR
  DB.numAvailDataPages = NP - 2 * ER - (EIN.next - EIN.min); DB.rlcPhysicalStartingPage = EIN.rlcstart; DB.nextRLCPhysicalPageLocation = EIN.rlcnext;
#endif
#if HASX
  memcpy(XF, EIN.xf, NX * PS);
  DB.indexFile = &fX; DB.numIndexPages = NX; DB.maxIdxRecordsPerPage = MIR; DB.minIndexPageId = EIN.xmin; DB.nextIdxPageId = EIN.xnext; DB.numAvailIndexPages = NX - (EIN.xnext - EIN.xmin); DB.bufferedIndexPageId = EIN.xcache;
#endif
#if HASV
  memcpy(VFL, EIN.vf, NV * PS);
  DB.varFile = &fV; DB.numVarPages = NV; DB.nextVarPageId = EIN.vnext; DB.numAvailVarPages = NV - (EIN.vnext - EIN.vmin); DB.bufferedVarPage = EIN.vcache; DB.currentVarLoc = EIN.vloc; DB.minVarRecordId = EIN.vminrec; DB.recordHasVarData = EIN.hasvar;
#endif
}
/* ---- representation of the data region: logical page held by physical page p of a window [min, next) */
SPEC uint32_t lidOf(uint32_t p, uint32_t min, uint32_t next) { uint32_t id = min - min % NP + p; return id < min ? id + NP : id; }
#define REC(pg, r) ((pg) + HS + (r) * RS)
#define KEYV(pg, r) rdn(REC(pg, r), KS)
SPEC vbool recordsOk0(const u8 *pg, int lo) { int c = rd16(pg + 4); return c >= lo && c <= MR; }
SPEC vbool recordsOk(const u8 *pg, int lo) { int c = rd16(pg + 4); vbool ok = c >= lo && c <= MR; for (int r = 0; r + 1 < MR; r++) if (r + 1 < c && !(KEYV(pg, r) < KEYV(pg, r + 1))) ok = 0; return ok; }
SPEC uint64_t lastKey(const u8 *pg) { int c = rd16(pg + 4); uint64_t k = 0; for (int r = 0; r < MR; r++) if (r == c - 1) k = KEYV(pg, r); return k; }
SPEC vbool winOk(uint32_t min, uint32_t next) { return min <= next && next - min <= NP && next < IDMAX && min % ER == 0; }
/* every page of the window is well formed, keys ascend within and across pages */
SPEC vbool pagesOk(const u8 *f, uint32_t min, uint32_t next) {
  vbool ok = 1;
  for (uint32_t p = 0; p < NP; p++) {
    uint32_t id = lidOf(p, min, next);
    if (id < next) {
      if (rd32(f + p * PS) != id || !recordsOk(f + p * PS, 1)) ok = 0;
      if (id + 1 < next && !(lastKey(f + p * PS) < KEYV(f + ((p + 1) % NP) * PS, 0))) ok = 0;
    }
  }
  return ok;
}
SPEC vbool wbufOk(const u8 *b, const u8 *f, uint32_t min, uint32_t next) {
  vbool ok = recordsOk(b, 0);
  if (min < next && rd16(b + 4) > 0) { uint64_t k0 = KEYV(b, 0); for (uint32_t p = 0; p < NP; p++) if (lidOf(p, min, next) == next - 1 && !(lastKey(f + p * PS) < k0)) ok = 0; }
  return ok;
}
SPEC vbool sameBytes(const u8 *a, const u8 *b, int n) { vbool ok = 1; for (int i = 0; i < n / 8; i++) if (*(const uint64_t *)(a + 8 * i) != *(const uint64_t *)(b + 8 * i)) ok = 0; for (int i = n / 8 * 8; i < n; i++) if (a[i] != b[i]) ok = 0; return ok; }
SPEC vbool samePage(const u8 *a, const u8 *b) { return sameBytes(a, b, PS); }
SPEC vbool sameFile(const u8 *a, const u8 *b, int pages) { vbool ok = 1; for (int p = 0; p < pages; p++) if (!sameBytes(a + p * PS, b + p * PS, PS)) ok = 0; return ok; }
/* the read buffer holds exactly the live page that the cache id names */
SPEC vbool cacheOk(const u8 *rb, const u8 *f, uint32_t cache, uint32_t min, uint32_t next) {
  if (cache == 0xFFFFFFFF) return 1;
  vbool ok = cache < NP;
  for (uint32_t p = 0; p < NP; p++) if (p == cache && !(lidOf(p, min, next) < next && samePage(rb, f + p * PS))) ok = 0;
  return ok;
}
SPEC vbool invData(const u8 *buf, const u8 *f, uint32_t min, uint32_t next, uint32_t cache) {
  return winOk(min, next) && pagesOk(f, min, next) && wbufOk(buf, f, min, next) && cacheOk(buf + PS, f, cache, min, next);
}
