/* embedDBPut, embedDBFlush (O_flush) from every state satisfying the representation invariant */
#define XIN u8 key[KS], data[DS], varfail; uint32_t probe;
#include "store.h"
static u8 KEY[KS], DATA[DS];
#define RB (BUF + PS)
static vbool pageInv(int file, uint32_t pg, const u8 *c) { uint32_t id = lidOf(pg, EIN.min); return file == 0 && (id >= EIN.next || (rd32(c) == id && recordsOk(c, 1))); }
void updateMaxiumError(embedDBState *state, void *buffer);
STUB_CONTRACT(void updateMaxiumError(embedDBState *state, void *buffer), __CPROVER_requires(state == &DB && buffer == BUF && recordsOk(BUF, 1)) __CPROVER_assigns(DB.maxError))
#define SMH 14
/* page summary: min/max key, min/max data, bitmap, over the records of a page */
SPEC vbool summary(const u8 *pg) {
  int c = rd16(pg + 4); vbool ok = 1, mi = 0, ma = 0; 
#if HASB
  bmt bm = 0;
  for (int r = 0; r < MR; r++) if (r < c) bm |= bucket(REC(pg, r) + KS);
  if (c > 0 && bmAt(pg + 6) != bm) ok = 0;
#endif
#if HASM
  if (c > 0) {
    if (rdn(pg + SMH, KS) != KEYV(pg, 0) || rdn(pg + SMH + KS, KS) != lastKey(pg)) ok = 0;
    uint64_t lo = rdn(pg + SMH + 2 * KS, DS), hi = rdn(pg + SMH + 2 * KS + DS, DS);
    for (int r = 0; r < MR; r++) if (r < c) { uint64_t d = rdn(REC(pg, r) + KS, DS); if (d < lo || d > hi) ok = 0; if (d == lo) mi = 1; if (d == hi) ma = 1; }
    if (!mi || !ma) ok = 0;
  }
#endif
  return ok;
}
#if HASB
#define BMFRESH IMP(rd16(EIN.buf + 4) == 0, bmAt(EIN.buf + 6) == 0)
#else
#define BMFRESH 1
#endif
static int CNT(void) { return rd16(EIN.buf + 4); }
#ifdef O_flush
#define FLUSH 1
static vbool FULL(void) { return CNT() >= 1; }   /* a page is written */
#else
#define FLUSH 0
static vbool FULL(void) { return CNT() == MR; }
#endif
static uint64_t K(void) { return rdn(IN.key, KS); }
SPEC uint64_t prevKey(void) { return CNT() > 0 ? lastKey(EIN.buf) : lastKey(EIN.wp); }
static vbool hasPrev(void) { return CNT() > 0 || EIN.next > 0; }
static uint32_t lastPg(void) { return (EIN.next - 1) % NP; }
SPEC vbool REJ(void) { return hasPrev() && K() <= prevKey(); }
static vbool wKnown(void) { return CNT() > 0 || EIN.next == 0 || EIN.w == lastPg(); }   /* the previous key is watched */
SPEC vbool invWin(void) { return winOk(DB.minDataPageId, DB.nextDataPageId) && DB.numAvailDataPages == NP - RLCPAGES - (DB.nextDataPageId - DB.minDataPageId); }
SPEC vbool invCache(void) { return cacheOk(RB, WD, DB.bufferedPageId, DB.minDataPageId, DB.nextDataPageId); }
#if HASX
#define XB (BUF + 2 * PS)
static const u8 *xb0(void) { return EIN.buf + 2 * PS; }
/* index write buffer: entry i summarises data page first+i; the next entry is for the next data page */
SPEC vbool invIdxBuf(const u8 *xb, uint32_t next) { int c = rd16(xb + 4); return c >= 0 && c <= MIR && (rd32(xb + 8) + c == next || (c == MIR && rd32(xb + 8) + c <= next)); }
SPEC vbool preIdx(void) { return EIN.xmin <= EIN.xnext && EIN.xnext - EIN.xmin <= NX && EIN.xnext < IDMAX && EIN.xmin % ER == 0 && invIdxBuf(xb0(), EIN.next) && (EIN.xcache == NONE || EIN.xcache < NX); }
#else
#define preIdx() 1
#endif
#if HASR
/* record-level consistency: two blocks after the one being filled hold temporary images of the write buffer */
static uint32_t rlcPos(uint32_t loc, uint32_t start) { return (loc % NP + NP - start) % NP; }
static vbool rlcInv(uint32_t start, uint32_t loc, uint32_t mn, uint32_t nx) { return start == (nx - nx % ER + ER) % NP && loc <= NP && rlcPos(loc, start) <= 2 * ER && nx - mn < NP - 2 * ER; }
SPEC vbool rlcPre(void) { return rlcInv(EIN.rlcstart, EIN.rlcnext, EIN.min, EIN.next) && IMP(CNT() > 0, rlcPos(EIN.rlcnext, EIN.rlcstart) >= 1); }
static uint32_t imagePg(void) { return (EIN.rlcnext + NP - 1) % NP; }   /* where the last image of the buffer is */
static vbool imageOk(void) { return IMP(CNT() > 0 && EIN.w == imagePg(), samePage(EIN.wp, EIN.buf)); }
SPEC vbool rlcImage(int8_t ret) {   /* the last operation wrote the buffer, byte for byte, into the consistency blocks */
  int n = G.nw - 1; vbool ok = G.nw >= 1 && rlcPos(DB.nextRLCPhysicalPageLocation, DB.rlcPhysicalStartingPage) >= 1 && rd32(BUF) == DB.nextDataPageId;
  for (int i = 0; i < NLOG; i++) {
    if (i == n && !(G.wf[i] == 0 && G.wpg[i] == (DB.nextRLCPhysicalPageLocation + NP - 1) % NP && rlcPos(G.wpg[i], DB.rlcPhysicalStartingPage) < 2 * ER && WROTE[i][IN.probe] == BUF[IN.probe] && G.wseq[i] == G.nops)) ok = 0;
  }
  return IMP(ret == 0, ok);
}
SPEC vbool rlcKeep(int8_t ret) { return IMP(CNT() > 0 && EIN.w == imagePg() && DB.nextDataPageId == EIN.next, samePage(WD, EIN.wp)); }   /* until the records are elsewhere, their last image stays */
SPEC vbool rlcState(int8_t ret) { return IMP(ret == 0, rlcInv(DB.rlcPhysicalStartingPage, DB.nextRLCPhysicalPageLocation, DB.minDataPageId, DB.nextDataPageId)); }
#ifdef O_flush
#define RIMG(X)
#else
#define RIMG(X) X(C10, "an acknowledged record is on storage: the last write is an exact image of the buffer in the consistency blocks", rlcImage(RET))
#endif
#define RENS(X) RIMG(X) X(C10_C17, "the previous image survives until the records are stored elsewhere", rlcKeep(RET)) X(C10, "consistency blocks stay right after the block being filled and hold no retained page", rlcState(RET))
#else
#define rlcPre() 1
#define imageOk() 1
#define RENS(X)
#endif
SPEC vbool pre(void) {
  return winOk(EIN.min, EIN.next) && EIN.next < IDMAX - 2 && EIN.w < NP && recordsOk(EIN.buf, 0) && summary(EIN.buf) && BMFRESH && pageInv(0, EIN.w, EIN.wp) && cacheOk(EIN.buf + PS, EIN.wp, EIN.cache, EIN.min, EIN.next)
    && IMP(CNT() > 0 && EIN.next > 0 && EIN.w == lastPg(), lastKey(EIN.wp) < KEYV(EIN.buf, 0)) && IN.probe < PS && preIdx() && rlcPre() && imageOk();
}
#ifdef FAULTS
#define NF (!G.failed)
#else
#define NF 1
#endif
SPEC vbool verdict(int8_t ret) { return IMP(wKnown() && NF, REJ() ? ret != 0 : ret == 0); }
SPEC vbool rejected(int8_t ret) { return IMP(wKnown() && NF && REJ(), BUF[IN.probe] == EIN.buf[IN.probe] && rd16(BUF + 4) == CNT() && G.nw == 0 && G.ne == 0 && DB.nextDataPageId == EIN.next && DB.minDataPageId == EIN.min); }
SPEC vbool stored(int8_t ret) {
  int i = FULL() ? 0 : CNT(); vbool ok = rd16(BUF + 4) == i + 1;
  for (int r = 0; r < MR; r++) {
    if (r == i && !(rdn(REC(BUF, r), KS) == K() && rdn(REC(BUF, r) + KS, DS) == rdn(IN.data, DS))) ok = 0;
    if (r < i && !(rdn(REC(BUF, r), KS) == rdn(REC(EIN.buf, r), KS) && rdn(REC(BUF, r) + KS, DS) == rdn(REC(EIN.buf, r) + KS, DS))) ok = 0;
  }
  return IMP(ret == 0, ok);
}
#if HASV
/* the record's pointer: where its variable data will be written, or the mark for none; pointers of earlier records stay */
SPEC vbool pointer(int8_t ret) {
  int i = FULL() ? 0 : CNT(); vbool ok = 1; uint32_t want = EIN.hasvar ? EIN.vloc % (NV * PS) : EMBEDDB_NO_VAR_DATA;
  for (int r = 0; r < MR; r++) {
    if (r == i && rd32(REC(BUF, r) + KS + DS) != want) ok = 0;
    if (r < i && rd32(REC(BUF, r) + KS + DS) != rd32(REC(EIN.buf, r) + KS + DS)) ok = 0;
  }
  return IMP(ret == 0, ok) && DB.currentVarLoc == EIN.vloc && DB.nextVarPageId == EIN.vnext;
}
#define VENS(X) X(C07, "a record points at the place of its variable data, or is marked as having none", pointer(RET))
#else
#define VENS(X)
#endif
SPEC vbool inOrder(int8_t ret) { return recordsOk(BUF, 0) && IMP(ret == 0 && wKnown(), IMP(hasPrev() && (CNT() == 0 || FULL()), KEYV(BUF, 0) > prevKey())); }
static int dw(void) { int n = 0; for (int i = 0; i < NLOG; i++) if (i < G.nw && G.wf[i] == 0) n++; return n; }
SPEC vbool pageWritten(int8_t ret) {
  vbool ok = 1; int n = 0;
  for (int i = 0; i < NLOG; i++) if (i < G.nw && G.wf[i] == 0) {
    n++;
    if (n == 1 && IMP(HASR, FULL())) { if (!(FULL() && G.wpg[i] == EIN.next % NP && rd32(WROTE[i]) == EIN.next && IMP(IN.probe >= 4, WROTE[i][IN.probe] == EIN.buf[IN.probe]))) ok = 0; }
    else if (!(HASR)) ok = 0;
  }
  return ok && IMP(ret == 0 && FULL(), n >= 1 + ((HASR) && !FLUSH) && DB.nextDataPageId == EIN.next + 1) && IMP(!FULL(), DB.nextDataPageId == EIN.next && ((HASR) || n == 0));
}
SPEC vbool window(int8_t ret) {
  vbool ok = invWin() && !G.badio && DB.minDataPageId >= EIN.min;
  /* space is reclaimed only when the file is full, one erase block, oldest pages first */
  if (DB.minDataPageId != EIN.min && !(EIN.next + ((HASR) ? 1 : 0) - EIN.min == NP - RLCPAGES && DB.minDataPageId == EIN.min + ER && FULL())) ok = 0;
  for (int i = 0; i < NLOG; i++) if (i < G.ne && G.ef[i] == 0 && !(HASR) && !(DB.minDataPageId == EIN.min + ER && G.es[i] == EIN.min % NP)) ok = 0;
  return ok;
}
/* the watched page, if it is still retained, still holds what it held (or, if just written, what was written) */
SPEC vbool retained(void) { return IMP(live(EIN.w, DB.minDataPageId, EIN.next), samePage(WD, EIN.wp)); }
#if HASX
SPEC vbool idxWritten(int8_t ret) {
  int n = 0, c0 = rd16(xb0() + 4); vbool ok = 1;
  for (int i = 0; i < NLOG; i++) if (i < G.nw && G.wf[i] == 1) { n++; if (!(n == 1 && c0 == MIR && G.wpg[i] == EIN.xnext % NX && rd32(WROTE[i]) == EIN.xnext && IMP(IN.probe >= 4, WROTE[i][IN.probe] == xb0()[IN.probe]))) ok = 0; }
  return ok && IMP(ret == 0, n == (FULL() && c0 == MIR) && DB.nextIdxPageId == EIN.xnext + n);
}
SPEC vbool idxEntry(int8_t ret) {
  if (ret != 0 || !FULL()) return IMP(ret == 0, XB[IN.probe] == xb0()[IN.probe]);
  int c0 = rd16(xb0() + 4), i = c0 == MIR ? 0 : c0; vbool ok = rd16(XB + 4) == i + 1;
  for (int j = 0; j < MIR; j++) { if (j == i && bmAt(XB + 16 + j * BMS) != bmAt(EIN.buf + 6)) ok = 0; if (j < i && bmAt(XB + 16 + j * BMS) != bmAt(xb0() + 16 + j * BMS)) ok = 0; }
  return ok;
}
SPEC vbool idxInv(int8_t ret) { return IMP(ret == 0, invIdxBuf(XB, DB.nextDataPageId)) && DB.nextIdxPageId >= DB.minIndexPageId && DB.nextIdxPageId - DB.minIndexPageId <= NX && DB.minIndexPageId % ER == 0 && DB.numAvailIndexPages == NX - (DB.nextIdxPageId - DB.minIndexPageId); }
static vbool xlive(uint32_t p, uint32_t mn, uint32_t nx) { return p < NX && LID(p, mn, NX) < nx; }
SPEC vbool idxRetained(void) { return IMP(xlive(EIN.xw, DB.minIndexPageId, EIN.xnext), samePage(WX, EIN.wx)) && (DB.minIndexPageId == EIN.xmin || (DB.minIndexPageId == EIN.xmin + ER && EIN.xnext - EIN.xmin == NX)); }
SPEC vbool idxCache(void) { return DB.bufferedIndexPageId == NONE || (DB.bufferedIndexPageId == EIN.xcache && !(DB.nextIdxPageId != EIN.xnext && EIN.xcache == EIN.xnext % NX) && IMP(DB.minIndexPageId != EIN.xmin, !(EIN.xcache >= EIN.xmin % NX && EIN.xcache < EIN.xmin % NX + ER)) && BUF[3 * PS + IN.probe] == EIN.buf[3 * PS + IN.probe]); }
#define XENS(X) X(C04, "a full index page is written, with its entries, at its place and id", idxWritten(RET)) X(C04, "the summary of a written data page becomes its index entry", idxEntry(RET)) \
  X(C04, "index entries stay aligned with data page ids", idxInv(RET)) X(C04_C05, "retained index pages are untouched; the oldest block is reclaimed only when full", idxRetained()) X(C22, "the index cache never holds a replaced page", idxCache())
#else
#define XENS(X)
#endif
#if HASM || HASB
#define SENS(X) X(C11, "the page summary (min/max key and data, bitmap) is exactly that of the page's records", summary(BUF))
#else
#define SENS(X)
#endif
static void setup(void) { setup_env(); memcpy(KEY, IN.key, KS); memcpy(DATA, IN.data, DS); DB.parameters = PAR; }
#ifdef O_flush
SPEC vbool flushed(int8_t ret) {   /* success: everything buffered is on storage and synced, and the buffer is empty */
  vbool ok = rd16(BUF + 4) == 0;
  if (CNT() >= 1 && !(G.nflush >= 1 && dw() == 1)) ok = 0;
  if ((HASX) && CNT() >= 1 && G.nflushx < 1) ok = 0;
#if HASV
  if (IN.varfail ? ret == 0 : ret != 0) return 0;
  return IMP(ret == 0, ok && DB.currentVarLoc % PS == VHS);
#endif
  return IMP(ret == 0, ok) && IMP(NF, ret == 0);
}
SPEC vbool fresh(void) { vbool ok = 1;
#if HASB
  if (bmAt(BUF + 6) != 0 && rd16(BUF + 4) == 0) ok = 0;
#endif
  return ok; }
#if HASX
SPEC vbool idxFlushed(int8_t ret) {
  int c0 = rd16(xb0() + 4), n = 0; vbool ok = 1;
  for (int i = 0; i < NLOG; i++) if (i < G.nw && G.wf[i] == 1) {
    const u8 *w = WROTE[i];
    if (n == 0 && c0 == MIR) { if (!(G.wpg[i] == EIN.xnext % NX && rd32(w) == EIN.xnext && IMP(IN.probe >= 4, WROTE[i][IN.probe] == xb0()[IN.probe]))) ok = 0; }
    else {   /* the page with the entry of the data page just written */
      int k = c0 == MIR ? 0 : c0;
      if (!(G.wpg[i] == (EIN.xnext + n) % NX && rd32(w) == EIN.xnext + n && rd16(w + 4) == k + 1 && rd32(w + 8) + k == EIN.next)) ok = 0;
      for (int j = 0; j < MIR; j++) { if (j == k && bmAt(w + 16 + j * BMS) != bmAt(EIN.buf + 6)) ok = 0; if (j < k && bmAt(w + 16 + j * BMS) != bmAt(xb0() + 16 + j * BMS)) ok = 0; }
    }
    n++;
  }
  return IMP(ret == 0 && FULL(), ok && n == 1 + (c0 == MIR) && DB.nextIdxPageId == EIN.xnext + n);
}
SPEC vbool idxInvF(int8_t ret) { return IMP(ret == 0, invIdxBuf(XB, DB.nextDataPageId)) && DB.nextIdxPageId >= DB.minIndexPageId && DB.nextIdxPageId - DB.minIndexPageId <= NX && DB.minIndexPageId % ER == 0 && DB.numAvailIndexPages == NX - (DB.nextIdxPageId - DB.minIndexPageId); }
SPEC vbool idxRetF(void) { return IMP(xlive(EIN.xw, DB.minIndexPageId, EIN.xnext), samePage(WX, EIN.wx)) && (DB.minIndexPageId == EIN.xmin || (DB.minIndexPageId == EIN.xmin + ER && DB.nextIdxPageId - EIN.xmin >= NX)); }
#define FXENS(X) X(C04_C12, "a flush writes the pending index entries and the one of the flushed page", idxFlushed(RET)) X(C04, "index entries stay aligned with data page ids", idxInvF(RET)) X(C04_C05, "retained index pages are untouched; the oldest block is reclaimed only when full", idxRetF())
#else
#define FXENS(X)
#endif
SPEC vbool faultKept(int8_t ret) { return IMP(ret != 0 && DB.nextDataPageId == EIN.next, rd16(BUF + 4) == CNT() && IMP(IN.probe >= 4, BUF[IN.probe] == EIN.buf[IN.probe])) && IMP(G.failed, ret != 0) && IMP(DB.nextDataPageId != EIN.next, rd16(BUF + 4) == 0); }
#define REQS(X) X(pre())
#define ENSS(X) X(C12_C17, "a successful flush leaves every buffered record synced on storage and an empty buffer", flushed(RET)) X(C12_C05_C17, "the buffered page is written once, whole, at its place and under its id", pageWritten(RET)) \
  X(C05_C17, "the page window stays consistent; only the oldest block is reclaimed and only when full", window(RET)) X(C05_C12_C17, "retained pages are untouched", retained()) \
  X(C17_C12, "a failed flush is reported, and loses nothing that was buffered or stored", faultKept(RET)) X(C22_C17, "the page cache still mirrors storage", invCache()) X(C11, "the next page starts with an empty summary", fresh()) FXENS(X) RENS(X)
#define COVS(X) X("page written", FULL() && (CRET == 0 || NF == 0)) X("nothing to flush", CNT() == 0 && CRET == 0) X("block reclaimed", G.ne >= 1)
#define ASSIGNS DB, ALLG
#if HASV   /* embedDBFlushVar: proved in c_var.c */
enum { VWO = BVW };
STUB_CONTRACT(int8_t embedDBFlushVar(embedDBState *state), __CPROVER_requires(state == &DB) __CPROVER_assigns(DB.currentVarLoc, __CPROVER_object_upto(BUF + VWO, PSC))
  __CPROVER_ensures(__CPROVER_return_value == (IN.varfail ? -1 : 0) && IMP(__CPROVER_return_value == 0, DB.currentVarLoc % PS == VHS)))
#endif
CONTRACT(int8_t, embedDBFlush, (embedDBState *s))
UNIT(int8_t, embedDBFlush, (&DB))
#else
#define REQS(X) X(pre())
#ifndef FAULTS
#define ENSS(X) X(C02, "a record is accepted exactly when its key is larger than every stored key", verdict(RET)) X(C02, "a rejected record changes nothing", rejected(RET)) \
  X(C02, "an accepted record is stored with exactly its key and data after the records already buffered", stored(RET)) X(C02, "stored keys stay strictly ascending", inOrder(RET)) \
  X(C02_C05, "a full page is written once, whole, at its place and under its id", pageWritten(RET)) \
  X(C05, "the page window stays consistent; only the oldest block is reclaimed and only when full", window(RET)) X(C05, "retained pages are untouched", retained()) \
  X(C22, "the page cache still mirrors storage", invCache()) SENS(X) XENS(X) RENS(X) VENS(X)
#define COVS(X) X("rejected", CRET != 0) X("accepted on an empty buffer", CRET == 0 && CNT() == 0 && EIN.next > 0) X("page written", FULL() && CRET == 0) X("block reclaimed", G.ne >= 1 && CRET == 0)
#else
/* a lost index page (file 1) only costs the iterator the chance to skip its data pages: readers check which pages an index page describes */
#if HASX
SPEC vbool idxAligned(void) { int c = rd16(XB + 4); return c >= 0 && c <= MIR && (rd32(XB + 8) + c == DB.nextDataPageId || (c == MIR && rd32(XB + 8) + c <= DB.nextDataPageId)); }
#define FIENS(X) X(C17_C04, "index entries stay aligned with data page ids", idxAligned())
#else
#define FIENS(X)
#endif
SPEC vbool faultReported(int8_t ret) { return IMP(G.failed && G.failed != 2, ret != 0); }
SPEC vbool faultKeeps(int8_t ret) {   /* whatever was buffered or retained before is still there after a failed insert */
  int c = rd16(BUF + 4);
  if (!(HASR)) return IMP(ret != 0 && DB.nextDataPageId == EIN.next, c == CNT() && IMP(IN.probe >= 4, BUF[IN.probe] == EIN.buf[IN.probe]));
  /* with record-level consistency the record is buffered before its image is written */
  return IMP(ret != 0 && DB.nextDataPageId == EIN.next, (c == CNT() || c == CNT() + 1) && IMP(IN.probe >= HS && (int)IN.probe < HS + CNT() * RS, BUF[IN.probe] == EIN.buf[IN.probe]));
}
#define ENSS(X) X(C17, "a storage failure is reported", faultReported(RET)) X(C17, "after a failed insert the buffered records are intact", faultKeeps(RET)) X(C17, "an accepted record is stored", stored(RET)) \
  X(C17_C05, "the page window stays consistent", window(RET)) X(C17_C05, "retained pages are untouched", retained()) X(C17_C22, "the page cache still mirrors storage", invCache()) X(C17, "full pages are written whole", pageWritten(RET)) FIENS(X) RENS(X)
#define COVS(X) X("read failed", G.failed && G.nw == 0 && CNT() == 0) X("write failed", G.failed && FULL()) X("no fault", !G.failed && CRET == 0)
#endif
#define ASSIGNS DB, ALLG
CONTRACT(int8_t, embedDBPut, (embedDBState *s, void *k, void *d))
UNIT(int8_t, embedDBPut, (&DB, KEY, DATA))
#endif
#include "vf_end.h"
