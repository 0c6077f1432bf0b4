/* Recovery: the engine is opened on files left by a previous session: embedDBInitDataFromFile (O_data),
 * embedDBInitIndexFromFile (O_idx), embedDBInitVarDataFromFile (O_var), embedDBInitSplineFromFile (O_spl).
 * The recovered file holds the retained pages [MN, NEXT) at physical page id mod NPF.  Its other physical pages lie
 * beyond the end of the file (file not yet full), or belong to the block that was reclaimed and hold either erased bytes
 * (0xFF or 0x01) or - where erasing is a no-op - what was there before: the page with id - NPF, intact.  As the session
 * may have stopped between erasing a block and writing its first page, the whole block may be reclaimed. */
#define XTYPES struct dpage { u8 c[PS]; };
#define XIN struct dpage d[NPF]; struct dpage dp; u8 erased; uint32_t end; u8 st, b;
#define NRD 1
#define IDMAX 0x01000000u   /* no id looks like erased bytes */
#define FCNT 1              /* pages carry a record or entry count */
#ifdef O_idx
#define MN EIN.xmin
#define NEXT EIN.xnext
#define NPF NX
#define FID 1
#define CMAX MIR
#elif defined(O_var)
#define MN EIN.vmin
#define NEXT EIN.vnext
#define NPF NV
#define FID 2
#undef FCNT
#define FCNT 0
#define CMAX 0
#else
#define MN EIN.min
#define NEXT EIN.next
#define NPF NP
#define FID 0
#define CMAX MR
#endif
#include "store.h"
#define RB (BUF + PS)
static struct dpage FD[NPF];                                 /* the file that is recovered */
static int eof(uint32_t pg) { return NEXT <= NPF && pg >= NEXT; }
static vbool pageInv(int file, uint32_t pg, const u8 *c) { return 1; }
static uint32_t fid(uint32_t p, uint32_t mn) { return LID(p, mn, NPF); }
static vbool junk(const u8 *c) { return (rd32(c) == NONE && rd16(c + 4) == -1) || (rd32(c) == 0x01010101u && rd16(c + 4) == 0x0101); }
static vbool dpageOk(uint32_t pg, const u8 *c) {
  uint32_t id = fid(pg, MN);
  if (eof(pg)) return 1;
  if (id >= NEXT) { if (IN.erased) return junk(c); id -= NPF; }
  return rd32(c) == id && IMP(FCNT, rd16(c + 4) >= 1 && rd16(c + 4) <= CMAX);
}
static int8_t recRead(void *buffer, uint32_t pg, uint32_t ps, void *file) {
  int f = fileOf(file);
  if (ps != PS || f == 3) { G.badio = 1; return 0; }
  if (f == FID) { if (pg >= NPF || eof(pg)) return 0; struct dpage p = FD[0]; for (int k = 1; k < NPF; k++) if (k == pg) p = FD[k]; memcpy(buffer, p.c, PS); return 1; }
#ifdef O_var
  if (f == 0 && pg == EIN.min % NP && EIN.next > EIN.min) { memcpy(buffer, IN.dp.c, PS); return 1; }
#endif
  G.badio = 1;
  return 0;
}
static vbool files(void) { vbool ok = 1; for (int k = 0; k < NPF; k++) if (!dpageOk(k, IN.d[k].c)) ok = 0; return ok; }
/* the file of a session that ended (possibly between erasing a block and writing its first page) */
SPEC vbool fileOk(void) {
  return MN <= NEXT && NEXT - MN <= NPF && NEXT < IDMAX && MN % ER == 0 && IMP(NEXT > 0, MN < NEXT) && IMP(MN > 0, NEXT - MN >= NPF - ER) && files();
}
static void setup0(void) {
  setup_env();
  for (int k = 0; k < NPF; k++) FD[k] = IN.d[k];
  FI.read = recRead;
}
/* the oldest page that must be recovered: all, but of a full file that ends at a block boundary the oldest block may go */
static uint32_t keepMin(void) { uint32_t b = NEXT % ER ? NEXT - NEXT % ER + ER : NEXT + ER; return b > NPF && b - NPF > MN ? b - NPF : MN; }
static vbool winRec(uint32_t mn, uint32_t nx, uint32_t avail) {
  return nx == NEXT && mn <= keepMin() && IMP(FID != 1, mn % ER == 0) && nx - mn <= NPF && mn <= nx && IMP(NEXT > 0, mn < nx) && avail == NPF - (nx - mn);
}
static vbool presentRec(uint32_t mn, uint32_t nx) { vbool ok = 1; for (int k = 0; k < NPF; k++) { uint32_t id = fid(k, mn); if (id < nx && rd32(IN.d[k].c) != id) ok = 0; } return ok; }
static vbool cacheRec(uint32_t cache, const u8 *rb, uint32_t mn, uint32_t nx) {
  vbool ok = 1; if (cache == NONE) return 1;
  if (cache >= NPF || fid(cache, mn) >= nx) return 0;
  for (int k = 0; k < NPF; k++) if (k == cache && !samePage(rb, IN.d[k].c)) ok = 0;
  return ok;
}
SPEC vbool readOnly(void) { return G.nw == 0 && G.ne == 0 && !G.badio && sameBytes(BUF, EIN.buf, PS); }
#define RECENS(X) X(C09, "every stored page of the previous session is recovered, except at most the oldest block of a full file", window(RET)) X(C09, "every recovered page is really on storage", present()) \
  X(C09, "recovery writes and erases nothing and leaves the write buffer alone", readOnly()) X(C09_C22, "the page cache mirrors storage", cached())
#define RECCOVS(X) X("empty file", NEXT == 0) X("one page", NEXT == 1) X("full once", NEXT == NPF && MN == 0) X("wrapped", MN > 0 && NEXT % ER) X("crash after erase", MN > 0 && NEXT - MN == NPF - ER) X("first block erased", IN.erased && NEXT % NPF == 0 && NEXT - MN == NPF - ER)
#ifdef O_data
void updateMaxiumError(embedDBState *state, void *buffer);
STUB_CONTRACT(void updateMaxiumError(embedDBState *state, void *buffer), __CPROVER_requires(state == &DB && buffer == RB && rd16(RB + 4) >= 1 && rd16(RB + 4) <= MR) __CPROVER_assigns(DB.maxError))
static void setup(void) { setup0(); DB.minDataPageId = DB.nextDataPageId = 0; DB.bufferedPageId = NONE; DB.numAvailDataPages = NP; }
SPEC vbool window(int8_t ret) { return ret == 0 && winRec(DB.minDataPageId, DB.nextDataPageId, DB.numAvailDataPages); }
SPEC vbool present(void) { return presentRec(DB.minDataPageId, DB.nextDataPageId); }
SPEC vbool cached(void) { return cacheRec(DB.bufferedPageId, RB, DB.minDataPageId, DB.nextDataPageId); }
#define REQS(X) X(fileOk())
#define ENSS(X) RECENS(X)
#define COVS(X) RECCOVS(X)
#define ASSIGNS DB.maxError, DB.minDataPageId, DB.nextDataPageId, DB.numAvailDataPages, DB.bufferedPageId, DB.numReads, DB.bufferHits, ALLG
int8_t embedDBInitDataFromFile(embedDBState *state);
CONTRACT(int8_t, embedDBInitDataFromFile, (embedDBState *state))
UNIT(int8_t, embedDBInitDataFromFile, (&DB))
#elif defined(O_idx)
static void setup(void) { setup0(); DB.minIndexPageId = DB.nextIdxPageId = 0; DB.bufferedIndexPageId = NONE; DB.numAvailIndexPages = NX; }
SPEC vbool aligned(void) { return DB.minIndexPageId % ER == 0; }
SPEC vbool window(int8_t ret) { return ret == 0 && winRec(DB.minIndexPageId, DB.nextIdxPageId, DB.numAvailIndexPages); }
SPEC vbool present(void) { return presentRec(DB.minIndexPageId, DB.nextIdxPageId); }
SPEC vbool cached(void) { return cacheRec(DB.bufferedIndexPageId, BUF + 3 * PS, DB.minIndexPageId, DB.nextIdxPageId); }
#define REQS(X) X(fileOk())
#ifdef ALIGNED
#define ENSS(X) X(C09, "the recovered index window starts at an erase block", aligned())
#else
#define ENSS(X) RECENS(X)
#endif
#define COVS(X) RECCOVS(X)
#define ASSIGNS DB.minIndexPageId, DB.nextIdxPageId, DB.numAvailIndexPages, DB.bufferedIndexPageId, DB.numIdxReads, DB.bufferHits, ALLG
int8_t embedDBInitIndexFromFile(embedDBState *state);
CONTRACT(int8_t, embedDBInitIndexFromFile, (embedDBState *state))
UNIT(int8_t, embedDBInitIndexFromFile, (&DB))
#elif defined(O_var)
static void setup(void) { setup0(); DB.nextVarPageId = 0; DB.bufferedVarPage = NONE; DB.numAvailVarPages = NV; DB.currentVarLoc = VHS; DB.minVarRecordId = UINT64_MAX; DB.bufferedPageId = NONE; }
static uint32_t vmn(void) { return DB.nextVarPageId - (NV - DB.numAvailVarPages); }
SPEC vbool window(int8_t ret) { return ret == 0 && winRec(vmn(), DB.nextVarPageId, DB.numAvailVarPages) && DB.currentVarLoc == NEXT % NV * PS + VHS; }
SPEC vbool present(void) { return presentRec(vmn(), DB.nextVarPageId); }
SPEC vbool cached(void) { return cacheRec(DB.bufferedVarPage, BUF + 3 * PS, vmn(), DB.nextVarPageId); }
/* records up to the last one with data on the oldest page may have begun in a reclaimed page: they count as lost */
SPEC vbool lost(void) {
  uint32_t lbl = 0; for (int k = 0; k < NV; k++) if (k == vmn() % NV) lbl = rd32(IN.d[k].c + 4);
  if (NEXT == 0) return DB.minVarRecordId == UINT64_MAX;
  if (vmn() == 0) return (uint32_t)DB.minVarRecordId == rd32(((HASR) && EIN.next == 0 ? EIN.buf : IN.dp.c) + HS);
  return (uint32_t)DB.minVarRecordId == lbl + 1;
}
#define REQS(X) X(fileOk()) X(EIN.min <= EIN.next && IMP(EIN.next > 0, EIN.min < EIN.next) && IMP(!(HASR), EIN.next > 0))
#define ENSS(X) RECENS(X) X(C09_C08, "exactly the records whose variable data may have been reclaimed are marked as lost", lost())
#define COVS(X) RECCOVS(X)
#define ASSIGNS DB.nextVarPageId, DB.numAvailVarPages, DB.currentVarLoc, DB.minVarRecordId, DB.bufferedVarPage, DB.bufferedPageId, DB.numReads, DB.bufferHits, ALLG
int8_t embedDBInitVarDataFromFile(embedDBState *state);
CONTRACT(int8_t, embedDBInitVarDataFromFile, (embedDBState *state))
UNIT(int8_t, embedDBInitVarDataFromFile, (&DB))
#elif defined(O_rlc)
/* Record-level consistency.  B: block being filled (its first id), S: the two blocks behind it, which hold the images of
 * the write buffer.  All other pages are retained ones.  Slots that hold no current page: */
void updateMaxiumError(embedDBState *state, void *buffer);
STUB_CONTRACT(void updateMaxiumError(embedDBState *state, void *buffer), __CPROVER_requires(state == &DB && buffer == RB && rd16(RB + 4) >= 1 && rd16(RB + 4) <= MR) __CPROVER_assigns(DB.maxError))
static uint32_t BLK(void) { return EIN.next - EIN.next % ER; }
static uint32_t START(void) { return (BLK() + ER) % NP; }
static uint32_t rpos(uint32_t k) { return (k + NP - START()) % NP; }             /* position in the consistency blocks, < 2*ER */
static vbool imgOf(const u8 *c, uint32_t lo, uint32_t hi) { return rd32(c) >= lo && rd32(c) <= hi && rd16(c + 4) >= 1 && rd16(c + 4) <= MR; }
static vbool oldImg(const u8 *c) { return BLK() >= ER && imgOf(c, BLK() - ER, BLK() - 1); }
static vbool hole(const u8 *c) { return EIN.next <= NP && rd32(c) == 0 && rd16(c + 4) == 0; }
static vbool staleData(uint32_t k, const u8 *c) { uint32_t id = fid(k, EIN.min); return id >= NP && rd32(c) == id - NP && rd16(c + 4) >= 1 && rd16(c + 4) <= MR; }
/* bit k of st: slot k still holds the data page that was reclaimed (erasing is a no-op).  The images are written to the
 * blocks in order, so what follows such a slot is of the same kind */
static vbool ST(uint32_t k) { return (IN.st >> k) & 1; }
static vbool slotOk(uint32_t k, const u8 *c) {
  uint32_t id = fid(k, EIN.min), p = rpos(k);
  if (id < EIN.next) return k < IN.end && rd32(c) == id && rd16(c + 4) >= 1 && rd16(c + 4) <= MR && !ST(k);
  if (k >= IN.end) return !ST(k);
  if (ST(k)) return !IN.erased && staleData(k, c) && (p < 2 * ER ? IMP(p % ER == 0, ST((k + 1) % NP) && IMP(p == 0, ST((k + ER) % NP))) : k % ER != 0);
  if (junk(c)) return IN.erased;
  if (p < 2 * ER) return hole(c) || oldImg(c) || imgOf(c, BLK(), EIN.next);
  return hole(c) || oldImg(c);
}
static vbool cand(uint32_t k) { return rpos(k) < 2 * ER && k < IN.end && rd32(IN.d[k].c) == EIN.next && !ST(k) && rd16(IN.d[k].c + 4) >= 1; }
/* the slot with the newest image of the buffer (the one with the most records), if there is one */
static int best(void) { return IN.b < NP ? IN.b : -1; }
static vbool oneBest(void) {
  int n = 0; vbool ok = 1;
  for (int k = 0; k < NP; k++) if (k == IN.b) { n = rd16(IN.d[k].c + 4); if (!cand(k)) ok = 0; }
  for (int k = 0; k < NP; k++) if (k != IN.b && cand(k) && !(IN.b < NP && rd16(IN.d[k].c + 4) < n)) ok = 0;
  return ok;
}
/* images are written in order, so they are not behind the end of the file */
static vbool eofOk(void) { vbool ok = IN.end <= NP; for (int k = 0; k < NP; k++) if (k >= IN.end && IN.b < NP && rpos(k) < rpos(IN.b)) ok = 0; return ok && IMP(EIN.next > NP, IN.end == NP) && IMP(EIN.next == 0 && IN.end > 0, IN.b < NP); }
SPEC vbool rlcFile(void) {
  vbool ok = EIN.next < IDMAX && EIN.min == (BLK() + 3 * ER > NP ? BLK() + 3 * ER - NP : 0) && oneBest() && eofOk();
  for (int k = 0; k < NP; k++) if (!slotOk(k, IN.d[k].c)) ok = 0;
  return ok;
}
static int8_t rlcRead(void *buffer, uint32_t pg, uint32_t ps, void *file) {
  if (ps != PS || file != &fD) { G.badio = 1; return 0; }
  if (pg >= NP || pg >= IN.end) return 0;
  struct dpage p = FD[0]; for (int k = 1; k < NP; k++) if (k == pg) p = FD[k];
  memcpy(buffer, p.c, PS); return 1;
}
static int8_t rlcErase(uint32_t s, uint32_t e, uint32_t ps, void *file) {
  int r = ioErase(s, e, ps, file); struct dpage j; memset(j.c, 1, PS);
  if (r) for (int k = 0; k < NP; k++) if (k >= s && k < e) FD[k] = j;
  return r;
}
static void setup(void) {
  setup0(); FI.read = rlcRead; FI.erase = rlcErase;
  DB.minDataPageId = DB.nextDataPageId = 0; DB.bufferedPageId = NONE; DB.numAvailDataPages = NP - 2 * ER; DB.nextRLCPhysicalPageLocation = DB.rlcPhysicalStartingPage = ER;
}
SPEC vbool window(int8_t ret) { return ret == 0 && DB.nextDataPageId == EIN.next && DB.minDataPageId == EIN.min && DB.numAvailDataPages == NP - 2 * ER - (EIN.next - EIN.min); }
SPEC vbool image(void) {   /* the write buffer holds the newest image */
  int b = best();
  if (b < 0) return sameBytes(BUF, EIN.buf, PS) && DB.nextRLCPhysicalPageLocation == START();
  for (int k = 0; k < NP; k++) if (k == b && !samePage(BUF, IN.d[k].c)) return 0;
  return DB.nextRLCPhysicalPageLocation == (b + 1) % NP;
}
/* erased: the block to be filled if nothing is stored in it yet, and of the consistency blocks at most those without the newest image */
SPEC vbool erases(void) {
  vbool ok = G.nw == 0 && !G.badio; int b = best();
  for (int i = 0; i < NLOG; i++) if (i < G.ne) { uint32_t s = G.es[i]; if (!((s == BLK() % NP && EIN.next % ER == 0) || (rpos(s) < 2 * ER && !(b >= 0 && b - b % ER == s)))) ok = 0; }
  return ok && DB.rlcPhysicalStartingPage == START();
}
SPEC vbool cached(void) {
  vbool ok = 1; uint32_t c = DB.bufferedPageId; if (c == NONE) return 1;
  if (c >= NP || fid(c, EIN.min) >= EIN.next) return 0;
  for (int k = 0; k < NP; k++) if (k == c && !samePage(RB, IN.d[k].c)) ok = 0;
  return ok;
}
#define REQS(X) X(rlcFile())
#define ENSS(X) X(C09, "every stored page of the previous session is recovered", window(RET)) X(C09_C10, "the buffered records are recovered from their newest image", image()) X(C09_C10, "recovery erases no retained page and not the newest image", erases()) X(C09_C22, "the page cache mirrors storage", cached())
#define COVS(X) X("no data page, records in an image", EIN.next == 0 && best() >= 0) X("image found", EIN.next % ER && EIN.min > 0 && best() >= 0) X("no image", EIN.min > 0 && best() < 0) X("block boundary", EIN.min > 0 && EIN.next % ER == 0) X("last physical page", EIN.next > 0 && EIN.next % NP == 0)
#define ASSIGNS DB.maxError, DB.minDataPageId, DB.nextDataPageId, DB.numAvailDataPages, DB.bufferedPageId, DB.numReads, DB.bufferHits, DB.nextRLCPhysicalPageLocation, DB.rlcPhysicalStartingPage, ALLG, __CPROVER_object_whole(FD)
int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state);
CONTRACT(int8_t, embedDBInitDataFromFileWithRecordLevelConsistency, (embedDBState *state))
UNIT(int8_t, embedDBInitDataFromFileWithRecordLevelConsistency, (&DB))
#elif defined(O_spl)
/* every retained page is added to the spline once, in order, with its smallest key */
void splineAdd(spline *spl, void *key, uint32_t page);
static uint32_t nextAdd; static u8 addBad;
static vbool rightKey(const u8 *key, uint32_t page) { vbool ok = 0; for (int k = 0; k < NP; k++) if (k == page % NP && rdn(key, KS) == rdn(IN.d[k].c + HS, KS)) ok = 1; return ok; }
#ifdef NATIVE
void __wrap_splineAdd(spline *spl, void *key, uint32_t page) { if (spl != &SPL || page != nextAdd || !rightKey(key, page)) addBad = 1; nextAdd++; }
#else
SPEC vbool rightAdd(const u8 *key, uint32_t page) { return page == nextAdd && rightKey(key, page); }
void splineAdd(spline *spl, void *key, uint32_t page) __CPROVER_requires(spl == &SPL && key == RB + HS && rightAdd(RB + HS, page)) __CPROVER_assigns(nextAdd) __CPROVER_ensures(nextAdd == __CPROVER_old(nextAdd) + 1);
#endif
static void setup(void) { setup0(); nextAdd = EIN.min; addBad = 0; }
SPEC vbool all(void) { return nextAdd == EIN.next && !addBad; }
#define REQS(X) X(fileOk() && EIN.cache == NONE)
#define ENSS(X) X(C09_C06, "every retained page is added to the spline once, in order, with its smallest key", all()) X(C09, "recovery writes and erases nothing and leaves the write buffer alone", readOnly())
#define COVS(X) X("wrapped", EIN.min > 0 && EIN.next % NP) X("empty", EIN.next == 0)
#define ASSIGNS nextAdd, DB.bufferedPageId, DB.numReads, DB.bufferHits, ALLG
void embedDBInitSplineFromFile(embedDBState *state);
CONTRACT_VOID(embedDBInitSplineFromFile, (embedDBState *state))
UNIT_VOID(embedDBInitSplineFromFile, (&DB))
#endif
#include "vf_end.h"
