/* Iterator: embedDBNext (O_next), embedDBInitIterator (O_init).
 * (t, j) is an arbitrary record position (page t of the window, or the write buffer when t == next); K is its key.
 * The order part of the representation invariant is stated relative to it, as in c_get.c. */
#define XIN u8 key[KS], data[DS], mink[KS], maxk[KS], mind[DS], maxd[DS], qb; u8 hmk, hxk, hmd, hxd, hqb; uint32_t t, itpg, low, high, loc, splcount; u8 j; uint16_t itrec; uint32_t probe;
#include "store.h"
static u8 KEY[KS], DATA[DS], MINK[KS], MAXK[KS], MIND[DS], MAXD[DS], QB[BMS];
static embedDBIterator IT;
#define RB (BUF + PS)
#define XRB (BUF + 3 * PS)
struct vst VST;
static const u8 *TPE(void) { return IN.t < EIN.next ? EIN.wp : EIN.buf; }
SPEC uint64_t Kk(void) { return KEYV(TPE(), IN.j); }
static u8 dbit(void) { return bucket(REC(TPE(), IN.j) + KS); }
static vbool relPage(const u8 *pg, uint32_t id, int lo) {
  int c = rd16(pg + 4); vbool ok = countOk(pg, lo); uint64_t k = VST.k;
  for (int r = 0; r < MR; r++) if (r < c) {
    uint64_t x = KEYV(pg, r);
    if (id < IN.t ? !(x < k) : id > IN.t ? !(x > k) : (r < IN.j ? !(x < k) : r > IN.j ? !(x > k) : 0)) ok = 0;
  }
  return ok;
}
/* an index page describes data pages first .. first+count-1; the entry of page t, if it is there, has the bit of record j */
static vbool idxPage(const u8 *c) {
  int n = rd16(c + 4); uint32_t f = rd32(c + 8); vbool ok = n >= 0 && n <= MIR && f + (uint32_t)n <= EIN.next && f <= EIN.next;
  for (int i = 0; i < MIR; i++) if (i < n && f + (uint32_t)i == IN.t && !(c[16 + i] & VST.bit)) ok = 0;
  return ok;
}
static vbool pageInv(int file, uint32_t pg, const u8 *c) {
  if (file == 1) return idxPage(c);
  uint32_t id = lidOf(pg, EIN.min); return file == 0 && (id >= EIN.next || (rd32(c) == id && relPage(c, id, 1)));
}
static vbool unchanged(void) { return DB.minDataPageId == EIN.min && DB.nextDataPageId == EIN.next && DB.numDataPages == NP && DB.pageSize == PS && DB.headerSize == HS && DB.recordSize == RS && DB.keySize == KS && DB.dataSize == DS && DB.buffer == BUF; }
SPEC vbool caches(void) {
  if (!cacheOk(RB, WD, DB.bufferedPageId, EIN.min, EIN.next)) return 0;
#if HASX
  if (DB.bufferedIndexPageId != NONE && !(DB.bufferedIndexPageId < NX && idxPage(XRB))) return 0;
#endif
  return 1;
}
static uint64_t K4(const u8 *p) { return rdn(p, KS); }
static vbool match(const u8 *k, const u8 *d) { return IMP(IN.hmk, rdn(k, KS) >= rdn(IN.mink, KS)) && IMP(IN.hxk, rdn(k, KS) <= rdn(IN.maxk, KS)) && IMP(IN.hmd, rdn(d, DS) >= rdn(IN.mind, DS)) && IMP(IN.hxd, rdn(d, DS) <= rdn(IN.maxd, DS)); }
SPEC vbool wanted(void) { vbool m = 0; for (int r = 0; r < MR; r++) if (r == IN.j && r < rd16(TPE() + 4) && match(REC(TPE(), r), REC(TPE(), r) + KS)) m = 1; return m; }
/* the query bitmap covers the values the query asks for */
static vbool qbOk(u8 qb) { return IMP(IN.hqb && wanted(), (qb & VST.bit) != 0); }
SPEC vbool pre(void) {
  vbool ok = winOk(EIN.min, EIN.next) && IN.t >= EIN.min && IN.t <= EIN.next && IN.j < MR && EIN.w == (IN.t < EIN.next ? IN.t % NP : NP) && unchanged() && relPage(BUF, EIN.next, 0)
    && IMP(IN.t < EIN.next, pageInv(0, EIN.w, EIN.wp)) && caches() && IN.hmk <= 1 && IN.hxk <= 1 && IN.hmd <= 1 && IN.hxd <= 1 && IN.hqb <= 1 && qbOk(IN.qb);
#if HASX
  if (!(EIN.xw >= NX && EIN.xmin <= EIN.xnext && EIN.xnext - EIN.xmin <= NX && EIN.xnext < IDMAX)) ok = 0;
#else
  if (!(HASB) && IN.hqb) ok = 0;
#endif
  return ok;
}
SPEC vbool noWrites(void) { return G.nw == 0 && G.ne == 0 && !G.badio && unchanged() && samePage(BUF, EIN.buf); }
static void setup(void) {
  setup_env(); DB.spl = &SPL; SPL.count = IN.splcount;
  memcpy(KEY, IN.key, KS); memcpy(DATA, IN.data, DS); memcpy(MINK, IN.mink, KS); memcpy(MAXK, IN.maxk, KS); memcpy(MIND, IN.mind, DS); memcpy(MAXD, IN.maxd, DS); QB[0] = IN.qb;
  IT.minKey = IN.hmk ? MINK : NULL; IT.maxKey = IN.hxk ? MAXK : NULL; IT.minData = IN.hmd ? MIND : NULL; IT.maxData = IN.hxd ? MAXD : NULL;
  IT.queryBitmap = IN.hqb ? QB : NULL; IT.nextDataPage = IN.itpg; IT.nextDataRec = IN.itrec;
  uint64_t k = 0; u8 b = 0; for (int r = 0; r < MR; r++) if (r == IN.j) { k = KEYV(TPE(), r); b = bucket(REC(TPE(), r) + KS); }
  VST.min = EIN.min; VST.next = EIN.next; VST.w = EIN.w; VST.t = IN.t; VST.j = IN.j; VST.k = (uint32_t)k; VST.bit = b; VST.in = wanted() && (IN.itpg < IN.t || (IN.itpg == IN.t && IN.itrec <= IN.j));
}
#define PAGEASG DB.bufferedPageId, DB.numReads, DB.bufferHits, G, __CPROVER_object_upto(BUF + PSC, PSC)
#if HASX
enum { XOFF = 3 * PS };
#define IDXASG , DB.bufferedIndexPageId, DB.numIdxReads, __CPROVER_object_upto(BUF + XOFF, PSC)
#else
#define IDXASG
#endif
#ifdef O_next
/* a position inside the window; a record position other than 0 was reached by reading that page */
SPEC vbool itPre(void) { return IN.itpg <= EIN.next + 1; }
static uint32_t fpos(void) { return IN.itpg < EIN.min ? EIN.min : IN.itpg; }
static uint32_t frec(void) { return IN.itpg < EIN.min ? 0 : IN.itrec; }
static vbool ahead(void) { return fpos() < IN.t || (fpos() == IN.t && frec() <= IN.j); }
SPEC vbool complete(int8_t ret) { return IMP(wanted() && ahead(), ret == 1 && (IT.nextDataPage < IN.t || (IT.nextDataPage == IN.t && IT.nextDataRec <= (uint32_t)IN.j + 1))); }
SPEC vbool exact(int8_t ret) {
  if (ret != 1) return ret == 0;
  vbool ok = IT.nextDataPage >= EIN.min && IT.nextDataPage <= EIN.next && IT.nextDataRec >= 1 && (IT.nextDataPage > fpos() || (IT.nextDataPage == fpos() && IT.nextDataRec > frec()));
  if (IT.nextDataPage == IN.t) {
    vbool f = 0; const u8 *p = IN.t < EIN.next ? WD : BUF;
    for (int r = 0; r < MR; r++) if (r + 1 == IT.nextDataRec && r < rd16(p + 4) && rdn(KEY, KS) == KEYV(p, r) && rdn(DATA, DS) == rdn(REC(p, r) + KS, DS)) f = 1;
    ok = ok && f;
  }
  return ok;
}
SPEC vbool matches(int8_t ret) { return IMP(ret == 1, match(KEY, DATA)); }
SPEC vbool itKept(void) { return IT.minKey == (IN.hmk ? (void *)MINK : NULL) && IT.maxKey == (IN.hxk ? (void *)MAXK : NULL) && IT.minData == (IN.hmd ? (void *)MIND : NULL) && IT.maxData == (IN.hxd ? (void *)MAXD : NULL) && rdn(MINK, KS) == rdn(IN.mink, KS) && rdn(MAXK, KS) == rdn(IN.maxk, KS) && rdn(MIND, DS) == rdn(IN.mind, DS) && rdn(MAXD, DS) == rdn(IN.maxd, DS) && QB[0] == IN.qb; }
#define REQS(X) X(pre() && itPre())
#define ENSS(X) X(C03, "no record that matches the query is skipped, and the end is reported only when none is left", complete(RET)) X(C03, "the record returned is exactly the stored one at the reported position, and positions only advance", exact(RET)) \
  X(C03, "only records that match the query are returned", matches(RET)) X(C03, "iteration changes neither storage, nor the write buffer, nor the query", noWrites() && itKept()) X(C03_C22, "the page caches still mirror storage", caches())
#define COVS(X) X("returned", CRET == 1) X("end", CRET == 0) X("from the write buffer", CRET == 1 && IT.nextDataPage == EIN.next && EIN.next > IN.itpg) X("watched record", CRET == 1 && wanted() && ahead() && IT.nextDataPage == IN.t && IT.nextDataRec == IN.j + 1)
#define ASSIGNS PAGEASG IDXASG, IT.nextDataPage, IT.nextDataRec, __CPROVER_object_whole(KEY), __CPROVER_object_whole(DATA)
CONTRACT(int8_t, embedDBNext, (embedDBState *s, embedDBIterator *it, void *k, void *d))
UNIT(int8_t, embedDBNext, (&DB, &IT, KEY, DATA))
#endif
#ifdef O_init
/* the caller's bitmap function covers every value of the range it is given; ARGS records whether it got the query's bounds and a zeroed bitmap */
static u8 ARGS;
static void bldBm(void *mi, void *ma, void *bm) { ARGS = (mi == IT.minData && ma == IT.maxData && *(u8 *)bm == 0) ? 1 : 2; *(u8 *)bm = IN.qb; }
/* splineFind (its contract is assumed, DESIGN section 3): the low bound is not above any page holding a key that is not below the one sought */
STUB_CONTRACT(void splineFind(spline *spl, void *key, int8_t compareKey(void *, void *), id_t *loc, id_t *low, id_t *high),
  __CPROVER_requires(spl == &SPL && key == MINK) __CPROVER_assigns(*loc, *low, *high)
  __CPROVER_ensures(*low == IN.low && *high == IN.high && *loc == IN.loc))
#ifdef NATIVE
void __wrap_splineFind(spline *spl, void *key, int8_t compareKey(void *, void *), id_t *loc, id_t *low, id_t *high) { *loc = IN.loc; *low = IN.low; *high = IN.high; }
#endif
static void setup2(void) { setup(); ARGS = 0; IT.queryBitmap = (void *)(size_t)(IN.probe); DB.buildBitmapFromRange = bldBm; }
#define setup setup2
SPEC vbool splOk(void) { return IMP(wanted() && IN.hmk && IN.t < EIN.next, IN.low <= IN.t) && IMP(IN.low > EIN.min, IN.low <= EIN.next); }
SPEC vbool started(void) { return IT.nextDataRec == 0 && IT.nextDataPage >= EIN.min && IMP(wanted(), IT.nextDataPage <= IN.t) && IT.nextDataPage <= EIN.next; }
static vbool useBm(void) { return (HASB) && (IN.hmd || IN.hxd); }
SPEC vbool bitmapOk(void) {
  if (!useBm()) return IT.queryBitmap == NULL && ARGS == 0;
  return ARGS == 1 && IT.queryBitmap != NULL && *(u8 *)IT.queryBitmap == IN.qb;
}
SPEC vbool kept(void) { return IT.minKey == (IN.hmk ? (void *)MINK : NULL) && IT.maxKey == (IN.hxk ? (void *)MAXK : NULL) && IT.minData == (IN.hmd ? (void *)MIND : NULL) && IT.maxData == (IN.hxd ? (void *)MAXD : NULL); }
#define REQS(X) X(pre() && splOk())
#define ENSS(X) X(C03, "iteration starts at or before the first record that can match", started()) X(C03_C04, "the query bitmap is built from the data bounds exactly when there are some", bitmapOk()) X(C03, "opening an iterator changes neither the database nor the query", noWrites() && caches() && kept())
#define COVS(X) X("started at the oldest page", IT.nextDataPage == EIN.min) X("with minimum key", IN.hmk) X("with data bound", IN.hmd && !IN.hxd)
#define ASSIGNS IT.queryBitmap, IT.nextDataPage, IT.nextDataRec, ARGS
CONTRACT_VOID(embedDBInitIterator, (embedDBState *s, embedDBIterator *it))
UNIT_VOID(embedDBInitIterator, (&DB, &IT))
#endif
#include "vf_end.h"
