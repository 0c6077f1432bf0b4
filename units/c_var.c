/* Variable-length data: writeVariablePage (O_wvp), embedDBPutVar (O_put), embedDBFlushVar (O_flush),
 * embedDBSetupVarDataStream (O_setup), embedDBVarDataStreamRead (O_read), embedDBGetVar (O_get), embedDBNextVar (O_next).
 * Layout: a record's data starts at location A = page * PS + offset with 4 length bytes on that page, followed by the
 * data bytes on the rest of the page and the payload [VHS, PS) of the following pages; pages are numbered modulo NV in
 * the file.  Each page header holds its logical id and the key of the last record with data on it. */
#ifndef LMAX
#define LMAX 40   /* bytes of variable data in one call (BOUNDED units only) */
#endif
#ifndef MR
#define MR 2
#endif
#ifndef PAR
#define PAR (EMBEDDB_USE_BINARY_SEARCH | EMBEDDB_USE_VDATA)
#endif
#define XIN u8 key[KS], data[DS], vd[LMAX], out[LMAX], hasv; uint32_t len, probe, ptr, total, pos, foff, start, rec, itpg; uint16_t itrec; int8_t r1, r2, r3;
#include "store.h"
static u8 KEY[KS], DATA[DS], VD[LMAX], OUT[LMAX];
#define RB (BUF + PS)
#define VB (BUF + BVW)
#define VRB (BUF + BVR)
#define VB0 (EIN.buf + BVW)
enum { PAY = PS - VHS, VWO = BVW, VRO = BVR };
id_t writeVariablePage(embedDBState *state, void *buffer);
int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataStream **varData, id_t recordNumber);
int32_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data);
static vbool pageInv(int file, uint32_t pg, const u8 *c) { return 1; }
static uint64_t K(void) { return rdn(IN.key, KS); }
static uint32_t OFF0(void) { return EIN.vloc % PS; }
static int CNT(void) { return rd16(EIN.buf + 4); }
/* the write position lies on the page that will be written next */
static vbool varInv(uint32_t mn, uint32_t nx, uint32_t loc, uint32_t avail) { return mn <= nx && nx - mn <= NV && nx < IDMAX && mn % ER == 0 && avail == NV - (nx - mn) && loc % PS >= VHS && (loc / PS) % NV == nx % NV && loc < 0x7FFFFF00u; }
static vbool vcacheOk(void) { return DB.bufferedVarPage == NONE || (DB.bufferedVarPage < NV && IMP(DB.bufferedVarPage == EIN.vw, samePage(VRB, WV))); }
SPEC vbool pre(void) {
  vbool ok = winOk(EIN.min, EIN.next) && recordsOk(BUF, 0) && varInv(EIN.vmin, EIN.vnext, EIN.vloc, DB.numAvailVarPages) && vcacheOk() && IMP(DB.bufferedPageId != NONE, DB.bufferedPageId < NP);
  return ok && IN.hasv <= 1 && IN.len <= LMAX && IN.probe < PS;
}
/* blocks erased by this call: the oldest ones, only when the file is full */
static int verased(void) { int n = 0; for (int i = 0; i < NLOG; i++) if (i < G.ne && G.ef[i] == 2) n++; return n; }
static int vwrites(void) { int n = 0; for (int i = 0; i < NLOG; i++) if (i < G.nw && G.wf[i] == 2) n++; return n; }
SPEC vbool window(void) {
  uint32_t mn = EIN.vmin; vbool ok = !G.badio; int e = 0;
  for (int i = 0; i < NLOG; i++) if (i < G.ne && G.ef[i] == 2) { if (G.es[i] != mn % NV) ok = 0; mn += ER; e++; }
  if (!(mn <= DB.nextVarPageId && DB.nextVarPageId - mn <= NV && DB.numAvailVarPages == NV - (DB.nextVarPageId - mn))) ok = 0;
  if (e > 0 && !(DB.nextVarPageId + 1 - mn > NV - ER && EIN.vnext <= mn + NV)) ok = 0;
  return ok;
}
static uint32_t VMIN1(void) { return EIN.vmin + ER * verased(); }
static vbool vlive(uint32_t mn, uint32_t nx) { return EIN.vw < NV && LID(EIN.vw, mn, NV) < nx; }
SPEC vbool retained(void) { return IMP(vlive(VMIN1(), EIN.vnext), samePage(WV, EIN.wv)); }
static void setup(void) {
  setup_env(); memcpy(KEY, IN.key, KS); memcpy(DATA, IN.data, DS); memcpy(VD, IN.vd, LMAX); memcpy(OUT, IN.out, LMAX);
}
#if defined(O_wvp)
/* one page is written; the oldest block is erased first if no page is free */
static vbool FULLF(void) { return EIN.vnext - EIN.vmin == NV; }
static uint32_t lastEr(void) { return EIN.vnext % NV + ER - 1; }   /* last page of the block that is reclaimed */
SPEC vbool written(uint32_t ret) {
  vbool ok = vwrites() == 1 && ret == EIN.vnext && DB.nextVarPageId == EIN.vnext + 1;
  for (int i = 0; i < NLOG; i++) if (i < G.nw && G.wf[i] == 2) if (!(G.wpg[i] == EIN.vnext % NV && rd32(WROTE[i]) == EIN.vnext && IMP(IN.probe >= 4, WROTE[i][IN.probe] == VB0[IN.probe]))) ok = 0;
  return IMP(ret != NONE, ok) && IMP(ret == NONE, DB.nextVarPageId == EIN.vnext && vwrites() == 0) && (ret == NONE) == (G.failed != 0);
}
SPEC vbool lost(void) {   /* records up to the last key of the reclaimed block are lost, no others */
  if (verased() == 0) return DB.minVarRecordId == EIN.vminrec;
  return verased() == 1 && FULLF() && IMP(EIN.vw == lastEr(), (uint32_t)DB.minVarRecordId == (uint32_t)(rdn(EIN.wv + 4, KS) + 1)) && (uint32_t)((DB.minVarRecordId >> 32) - (EIN.vminrec >> 32)) <= 1;
}
SPEC vbool preW(void) { return pre() && IMP(EIN.vmin % NV != EIN.vnext % NV, !FULLF()); }
#define REQS(X) X(preW())
#define ENSS(X) X(C07_C08, "the page is written whole, once, at its place and under its id; a failure is reported and consumes no id", written(RET)) X(C08, "when a block is reclaimed, exactly the records up to its last key are marked as lost", lost()) \
  X(C08, "space is reclaimed only when the file is full, oldest block first", window()) X(C08_C07, "retained pages are untouched", retained()) X(C22, "the page cache still mirrors storage", vcacheOk())
#define COVS(X) X("written", CRET != NONE) X("block reclaimed", CRET != NONE && verased() == 1) X("failed", CRET == NONE)
#define ASSIGNS DB.numAvailVarPages, DB.minVarRecordId, DB.bufferedVarPage, DB.nextVarPageId, DB.numWrites, DB.numReads, DB.bufferHits, ALLG
CONTRACT(id_t, writeVariablePage, (embedDBState *s, void *b))
UNIT(id_t, writeVariablePage, (&DB, VB))
#elif defined(O_put)
static vbool moved(void) { return OFF0() > PS - 4 || (!(HASR) && CNT() >= MR && OFF0() != VHS); }
static uint32_t A0(void) { return moved() ? EIN.vloc - OFF0() + PS + VHS : EIN.vloc; }
STUB_CONTRACT(int8_t embedDBPut(embedDBState *state, void *key, void *data),
  __CPROVER_requires(state == &DB && key == KEY && data == DATA && DB.recordHasVarData == IN.hasv && IMP(IN.hasv, DB.currentVarLoc == A0()))
  __CPROVER_assigns(__CPROVER_object_upto(BUF, PSC)) __CPROVER_ensures(__CPROVER_return_value == 0 || __CPROVER_return_value == -1))
/* expected byte at offset x of the m-th page from A on; -1: unspecified */
static int expByte(uint32_t m, uint32_t x) {
  uint32_t o = A0() % PS, lin;
  if (m == 0) { if (x < o) return (!moved() && x >= VHS) ? VB0[x] : -1; lin = x - o; }
  else { if (x < VHS) return -1; lin = (PS - o) + (m - 1) * PAY + (x - VHS); }
  if (lin < 4) return (u8)(IN.len >> (8 * lin));
  return lin - 4 < IN.len ? IN.vd[lin - 4] : -1;
}
static uint32_t tot(void) { return 4 + IN.len; }
static uint32_t pages(void) { uint32_t r = PS - A0() % PS; return tot() < r ? 0 : 1 + (tot() - r) / PAY; }
static uint32_t finOff(void) { uint32_t r = PS - A0() % PS; return tot() < r ? A0() % PS + tot() : VHS + (tot() - r) % PAY; }
static vbool stored(int8_t ret) { return ret == 0 && IN.hasv; }
SPEC vbool place(int8_t ret) {   /* where the record's data ends, and how many pages were written */
  uint32_t n = moved() + (stored(ret) ? pages() : 0);
  uint32_t end = stored(ret) ? A0() - A0() % PS + pages() * PS + finOff() : A0();
  return IMP(HASR, 1) && DB.nextVarPageId == EIN.vnext + n && vwrites() == (int)n && DB.currentVarLoc == end && (DB.currentVarLoc / PS) % NV == DB.nextVarPageId % NV && DB.recordHasVarData == 0;
}
SPEC vbool bytes(int8_t ret) {
  vbool ok = 1; uint32_t k = 0, mv = moved();
  for (int i = 0; i < NLOG; i++) if (i < G.nw && G.wf[i] == 2) {
    u8 c = WROTE[i][IN.probe];
    if (!(G.wpg[i] == (EIN.vnext + k) % NV && rd32(WROTE[i]) == EIN.vnext + k)) ok = 0;
    if (k < mv) { if (IN.probe >= 4 && c != VB0[IN.probe]) ok = 0; }
    else { int e = expByte(k - mv, IN.probe); if (e >= 0 && c != e) ok = 0; }
    k++;
  }
  if (stored(ret)) { int e = expByte(k - mv, IN.probe); if (e >= 0 && VB[IN.probe] != e) ok = 0; }
  else if (!mv && IN.probe >= 4 && VB[IN.probe] != VB0[IN.probe]) ok = 0;
  return ok;
}
SPEC vbool headers(int8_t ret) {   /* every page with data of the record carries its key; no page without data is written */
  vbool ok = 1; uint32_t k = 0, mv = moved();
  for (int i = 0; i < NLOG; i++) if (i < G.nw && G.wf[i] == 2) { if (k >= mv && rdn(WROTE[i] + 4, KS) != K()) ok = 0; if (k < mv && OFF0() == VHS) ok = 0; k++; }
  if (stored(ret) && rdn(VB + 4, KS) != K()) ok = 0;
  return ok;
}
SPEC vbool firstRec(int8_t ret) { return IMP(verased() == 0, IMP(stored(ret) && EIN.vminrec == UINT64_MAX, (uint32_t)DB.minVarRecordId == (uint32_t)K()) && IMP(!stored(ret) || EIN.vminrec != UINT64_MAX, DB.minVarRecordId == EIN.vminrec)); }
#define REQS(X) X(pre())
#define ENSS(X) X(C07, "the insert is reported as the record insert was", RET == 0 || RET == -1) X(C07, "length and data bytes are laid out from the record's pointer on, without loss", bytes(RET)) X(C07, "the write position and page ids stay in step", place(RET)) \
  X(C08, "every page holding data of the record is labelled with its key, and only pages with data are written", headers(RET)) X(C08, "the first record with data is the oldest one with data", firstRec(RET)) \
  X(C08, "space is reclaimed only when the file is full, oldest block first", window()) X(C08_C07, "retained pages are untouched", retained()) X(C22, "the page cache still mirrors storage", vcacheOk())
#define COVS(X) X("rejected", CRET != 0) X("data over three pages", CRET == 0 && IN.hasv && pages() >= 2) X("no data", CRET == 0 && !IN.hasv) X("page moved", moved() && CRET == 0) X("reclaimed", verased() >= 1)
#define ASSIGNS DB.numAvailVarPages, DB.minVarRecordId, DB.bufferedVarPage, DB.nextVarPageId, DB.numWrites, DB.numReads, DB.bufferHits, DB.currentVarLoc, DB.recordHasVarData, ALLG
CONTRACT(int8_t, embedDBPutVar, (embedDBState *s, void *k, void *d, void *v, uint32_t len))
UNIT(int8_t, embedDBPutVar, (&DB, KEY, DATA, IN.hasv ? VD : NULL, IN.len))
#elif defined(O_flush)
static vbool empty(void) { return OFF0() == VHS; }
SPEC vbool flushed(int8_t ret) {
  vbool ok = IMP(ret == 0, DB.currentVarLoc % PS == VHS && (DB.currentVarLoc / PS) % NV == DB.nextVarPageId % NV && (empty() ? vwrites() == 0 && DB.currentVarLoc == EIN.vloc : vwrites() == 1 && G.nflushv >= 1)) && IMP(G.failed, ret != 0) && IMP(!G.failed, ret == 0);
  for (int i = 0; i < NLOG; i++) if (i < G.nw && G.wf[i] == 2) if (!(G.wpg[i] == EIN.vnext % NV && rd32(WROTE[i]) == EIN.vnext && IMP(IN.probe >= 4, WROTE[i][IN.probe] == VB0[IN.probe]))) ok = 0;
  return ok && DB.nextVarPageId == EIN.vnext + vwrites() && IMP(vwrites() == 0, DB.currentVarLoc == EIN.vloc && IMP(IN.probe >= 4, VB[IN.probe] == VB0[IN.probe]));
}
#define REQS(X) X(pre())
#define ENSS(X) X(C07_C12_C17, "buffered variable data is written once, whole and synced, or the failure is reported and nothing is lost", flushed(RET)) X(C08, "space is reclaimed only when the file is full, oldest block first", window()) X(C08_C07, "retained pages are untouched", retained()) X(C22, "the page cache still mirrors storage", vcacheOk())
#define COVS(X) X("flushed", CRET == 0 && vwrites() == 1) X("nothing to flush", CRET == 0 && vwrites() == 0) X("failed", CRET != 0)
#define ASSIGNS DB.numAvailVarPages, DB.minVarRecordId, DB.bufferedVarPage, DB.nextVarPageId, DB.numWrites, DB.numReads, DB.bufferHits, DB.currentVarLoc, ALLG
CONTRACT(int8_t, embedDBFlushVar, (embedDBState *s))
UNIT(int8_t, embedDBFlushVar, (&DB))
#elif defined(O_setup)
static embedDBVarDataStream *ST;
static const u8 *rec0(void) { return RB + HS + (IN.rec < MR ? IN.rec : 0) * RS; }
SPEC uint32_t ptr(void) { return rd32(rec0() + KS + DS); }
static vbool deleted(void) { return (uint32_t)K() < (uint32_t)EIN.vminrec; }
SPEC vbool preS(void) { return pre() && IN.rec < MR && (ptr() == EMBEDDB_NO_VAR_DATA || (ptr() < NV * PS && ptr() % PS >= VHS && ptr() % PS <= PS - 4 && EIN.vw == ptr() / PS)); }
static uint32_t dstart(void) { uint32_t a = (ptr() + 4) % (NV * PS); return a % PS == 0 ? a + VHS : a; }
SPEC vbool opened(int8_t ret) {
  if (ptr() == EMBEDDB_NO_VAR_DATA) return ret == 0 && ST == NULL;
  if (deleted()) return ret == 1 && ST == NULL;
  if (G.failed) return ret == 2;
  uint32_t len = rd32(EIN.wv + ptr() % PS);
  return ret == 0 && ST != NULL && ST->totalBytes == len && ST->bytesRead == 0 && ST->dataStart == dstart() && ST->fileOffset == dstart();
}
SPEC vbool noWrites(void) { return G.nw == 0 && G.ne == 0 && !G.badio; }
#define REQS(X) X(preS())
#define ENSS(X) X(C07_C08, "the stream starts at the record's data with its length, is absent for records without data, and lost data is reported as lost", opened(RET)) X(C07, "opening a stream writes nothing", noWrites()) X(C22, "the page cache still mirrors storage", vcacheOk())
#define COVS(X) X("opened", CRET == 0 && ST) X("no data", CRET == 0 && !ST) X("lost", CRET == 1) X("failed", CRET == 2)
enum { ONEP = 1 };
#define ASSIGNS ST, DB.bufferedVarPage, DB.numReads, DB.bufferHits, ALLG
CONTRACT(int8_t, embedDBSetupVarDataStream, (embedDBState *s, void *k, embedDBVarDataStream **v, id_t r))
UNIT(int8_t, embedDBSetupVarDataStream, (&DB, KEY, &ST, IN.rec))
#elif defined(O_read)
static embedDBVarDataStream ST;
static void setup2(void) { setup(); ST.dataStart = IN.start; ST.totalBytes = IN.total; ST.bytesRead = IN.pos; ST.fileOffset = IN.foff; }
#define setup setup2
static uint32_t F0(void) { return IN.foff % PS == 0 ? IN.foff + VHS : IN.foff; }
static uint32_t want(void) { uint32_t r = IN.total - IN.pos; return IN.len < r ? IN.len : r; }
/* byte b of this read: page and offset */
static uint32_t bpg(uint32_t b) { uint32_t r = PS - F0() % PS; return F0() / PS + (b < r ? 0 : 1 + (b - r) / PAY); }
static uint32_t boff(uint32_t b) { uint32_t r = PS - F0() % PS; return b < r ? F0() % PS + b : VHS + (b - r) % PAY; }
SPEC vbool preR(void) { return pre() && IN.pos <= IN.total && (IN.foff % PS == 0 || IN.foff % PS >= VHS) && IN.foff < 0x7FFFFF00u && IN.ptr < LMAX && EIN.vw == bpg(IN.ptr) % NV; }
SPEC vbool got(uint32_t ret) {
  if (G.failed) return ret == 0;
  vbool ok = ret == want();
  if (IN.ptr < ret ? OUT[IN.ptr] != EIN.wv[boff(IN.ptr)] : OUT[IN.ptr] != IN.out[IN.ptr]) ok = 0;
  return ok;
}
SPEC vbool advanced(uint32_t ret) {   /* the next read continues with the next byte */
  uint32_t n = want(); vbool at = n == 0 ? (ST.fileOffset == IN.foff || ST.fileOffset == F0()) : 0;
  if (n > 0) at = ST.fileOffset / PS * PS + (ST.fileOffset % PS == 0 ? VHS : ST.fileOffset % PS) == bpg(n) * PS + boff(n);
  return IMP(!G.failed, ST.bytesRead == IN.pos + n && ST.totalBytes == IN.total && ST.dataStart == IN.start && at);
}
SPEC vbool noWrites(void) { return G.nw == 0 && G.ne == 0 && !G.badio; }
#define REQS(X) X(preR())
#define ENSS(X) X(C07, "a read returns exactly the next bytes of the record's data, as many as are wanted and left", got(RET)) X(C07, "the next read continues with the next byte", advanced(RET)) X(C07, "reading writes nothing", noWrites()) X(C22, "the page cache still mirrors storage", vcacheOk())
#define COVS(X) X("over pages", !G.failed && bpg(IN.ptr) >= F0() / PS + 2 && IN.ptr < CRET) X("end of data", CRET < IN.len && CRET > 0) X("starts at a page end", IN.foff % PS == 0 && CRET > 0) X("failed", G.failed)
#define ASSIGNS ST.bytesRead, ST.fileOffset, DB.bufferedVarPage, DB.numReads, DB.bufferHits, ALLG, __CPROVER_object_whole(OUT)
CONTRACT(uint32_t, embedDBVarDataStreamRead, (embedDBState *s, embedDBVarDataStream *st, void *b, uint32_t len))
UNIT(uint32_t, embedDBVarDataStreamRead, (&DB, &ST, OUT, IN.len))
#elif defined(O_get) || defined(O_next)
/* the callees are replaced by contracts proved in their own units (c_get.c, c_iter.c, and the units above) */
static embedDBVarDataStream *ST; static embedDBIterator IT;
#ifdef O_get
static vbool inBuf(void) { return IN.r1 >= 0; }
#else
static vbool inBuf(void) { return IN.itpg == EIN.next; }
#endif
static const u8 *rp(const u8 *pg, uint32_t r) { return pg + HS + (r < MR ? r : 0) * RS; }
static vbool holds(const u8 *pg, uint32_t r) { return r < MR && (int)r < rd16(pg + 4) && rd16(pg + 4) <= MR && rdn(rp(pg, r), KS) == rdn(KEY, KS); }
STUB_CONTRACT(int8_t embedDBFlushVar(embedDBState *state), __CPROVER_requires(state == &DB) __CPROVER_assigns(DB.currentVarLoc, DB.nextVarPageId, DB.bufferedVarPage, DB.minVarRecordId, __CPROVER_object_upto(BUF + VWO, PSC), __CPROVER_object_upto(BUF + VRO, PSC))
  __CPROVER_ensures(__CPROVER_return_value == (IN.r2 ? -1 : 0) && IMP(__CPROVER_return_value == 0, DB.currentVarLoc % PS == VHS)))
STUB_CONTRACT(int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataStream **varData, id_t recordNumber),
  __CPROVER_requires(state == &DB && key == KEY && varData == &ST && holds(RB, recordNumber) && recordNumber == IN.rec && IMP(inBuf(), DB.currentVarLoc % PS == VHS))
  __CPROVER_assigns(ST, DB.bufferedVarPage, __CPROVER_object_upto(BUF + VRO, PSC)) __CPROVER_ensures(__CPROVER_return_value == IN.r3))
static void setup2(void) { setup(); ST = NULL; IT.nextDataPage = 0; IT.nextDataRec = 0; }
#define setup setup2
static vbool same0(void) { return DB.nextDataPageId == EIN.next && DB.minDataPageId == EIN.min && G.nw == 0 && G.ne == 0; }
#ifdef O_get
STUB_CONTRACT(int32_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data), __CPROVER_requires(state == &DB && buffer == BUF && key == KEY && data == DATA) __CPROVER_assigns(__CPROVER_object_whole(DATA))
  __CPROVER_ensures(inBuf() ? __CPROVER_return_value == (int32_t)IN.rec && rdn(DATA, DS) == rdn(rp(BUF, IN.rec) + KS, DS) : __CPROVER_return_value == -1))
STUB_CONTRACT(int8_t embedDBGet(embedDBState *state, void *key, void *data), __CPROVER_requires(state == &DB && key == KEY && data == DATA && !inBuf()) __CPROVER_assigns(__CPROVER_object_whole(DATA), DB.bufferedPageId, __CPROVER_object_upto(BUF + PSC, PSC))
  __CPROVER_ensures((__CPROVER_return_value == 0) == (IN.itrec == 1) && IMP(IN.itrec == 1, DB.bufferedPageId < NP && holds(RB, IN.rec) && rdn(DATA, DS) == rdn(rp(RB, IN.rec) + KS, DS))))
STUB_CONTRACT(id_t embedDBSearchNode(embedDBState *state, void *buffer, void *key, int8_t range), __CPROVER_requires(state == &DB && buffer == RB && key == KEY && range == 0 && holds(RB, IN.rec)) __CPROVER_assigns() __CPROVER_ensures(__CPROVER_return_value == IN.rec))
SPEC vbool preG(void) { return pre() && IN.rec < MR && IN.r3 >= 0 && IN.r3 <= 3 && IN.itrec <= 1 && IN.r1 >= -1 && IMP(inBuf(), holds(BUF, IN.rec)); }
SPEC vbool result(int8_t ret) {
  if (inBuf() ? IN.r2 != 0 : IN.itrec != 1) return ret == -1;
  return ret == (IN.r3 == 0 ? 0 : IN.r3 == 1 ? 1 : -1) && rdn(DATA, DS) == rdn(rp(RB, IN.rec) + KS, DS) && holds(RB, IN.rec);
}
#define REQS(X) X(preG())
#define ENSS(X) X(C07_C08, "a lookup opens the data of exactly the record found, and reports lost data and failures as such", result(RET)) X(C07_C22, "a buffered record is not left in the page cache", IMP(inBuf() && CNT() > 0 && IN.r2 == 0, DB.bufferedPageId == NONE) && same0())
#define COVS(X) X("buffered", inBuf() && CRET == 0) X("stored", !inBuf() && CRET == 0) X("absent", CRET == -1 && !inBuf()) X("lost", CRET == 1)
#define ASSIGNS ST, DB.currentVarLoc, DB.nextVarPageId, DB.bufferedVarPage, DB.minVarRecordId, DB.bufferedPageId, ALLG, __CPROVER_object_whole(DATA)
CONTRACT(int8_t, embedDBGetVar, (embedDBState *s, void *k, void *d, embedDBVarDataStream **v))
UNIT(int8_t, embedDBGetVar, (&DB, KEY, DATA, &ST))
#else
STUB_CONTRACT(int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *data), __CPROVER_requires(state == &DB && it == &IT && key == KEY && data == DATA) __CPROVER_assigns(IT.nextDataPage, IT.nextDataRec, DB.bufferedPageId, __CPROVER_object_whole(KEY), __CPROVER_object_whole(DATA), __CPROVER_object_upto(BUF + PSC, PSC))
  __CPROVER_ensures(__CPROVER_return_value == (IN.r1 ? 1 : 0) && IMP(IN.r1, IT.nextDataPage == IN.itpg && IT.nextDataRec == IN.rec + 1 && (inBuf() ? holds(BUF, IN.rec) : holds(RB, IN.rec) && DB.bufferedPageId == IN.itpg % NP))))
SPEC vbool preN(void) { return pre() && IN.rec < MR && IN.r3 >= 0 && IN.r3 <= 3 && IN.itpg >= EIN.min && IN.itpg <= EIN.next; }
SPEC vbool result(int8_t ret) {
  if (!IN.r1 || (inBuf() && IN.r2)) return ret == 0;
  return ret == (IN.r3 <= 1) && holds(RB, IN.rec);
}
#define REQS(X) X(preN())
#define ENSS(X) X(C07_C08, "iteration opens the data of exactly the record returned", result(RET) && same0())
#define COVS(X) X("buffered", inBuf() && CRET == 1) X("stored", !inBuf() && CRET == 1) X("end", CRET == 0 && !IN.r1)
#define ASSIGNS ST, DB.currentVarLoc, DB.nextVarPageId, DB.bufferedVarPage, DB.minVarRecordId, DB.bufferedPageId, ALLG, __CPROVER_object_whole(DATA), __CPROVER_object_whole(KEY), IT.nextDataPage, IT.nextDataRec
CONTRACT(int8_t, embedDBNextVar, (embedDBState *s, embedDBIterator *it, void *k, void *d, embedDBVarDataStream **v))
UNIT(int8_t, embedDBNextVar, (&DB, &IT, KEY, DATA, &ST))
#endif
#endif
#include "vf_end.h"
