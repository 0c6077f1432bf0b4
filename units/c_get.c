/* Point lookup: embedDBSearchNode, searchBuffer, binarySearch, linearSearch, splineSearch, embedDBGet (O_x selects the
 * function whose body is proved; its callees among these are replaced by the contracts proved in their own units).
 * The order facts about the looked-up key K are the part of the representation invariant (keys ascend within a page and
 * from page to page) that concerns K: page T is the only one that can hold K, records before position J of it are
 * smaller than K, later ones larger; T and J are arbitrary. */
#define XIN u8 key[KS]; u8 out[DS]; uint32_t t, low, high, loc; u8 j; u8 node[PS], rng;
#include "store.h"
#include "vst.h"
int16_t embedDBEstimateKeyLocation(embedDBState *state, void *buffer, void *key);
int32_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data);
int8_t binarySearch(embedDBState *state, void *buffer, void *key);
int8_t linearSearch(embedDBState *state, void *buf, void *key, int32_t pageId, int32_t low, int32_t high);
int8_t splineSearch(embedDBState *state, void *buffer, void *key);
static u8 KEY[KS], OUT[DS], NODE[PS];
#define RB (BUF + PS)
/* ---- one page */
SPEC vbool nodePre(const u8 *pg) {
  int c = rd16(pg + 4); vbool ok = countOk(pg, 0); uint64_t k = rdn(IN.key, KS);
  for (int r = 0; r + 1 < MR; r++) if (r + 1 < c && KEYV(pg, r) >= k && KEYV(pg, r + 1) <= k) ok = 0;
  return ok;
}
SPEC vbool nodePost(const u8 *pg, int64_t ret) {
  int c = rd16(pg + 4); vbool ok = ret == -1 || (ret >= 0 && ret < c); uint64_t k = rdn(IN.key, KS);
  for (int r = 0; r < MR; r++) if (r < c && (ret == r ? KEYV(pg, r) != k : KEYV(pg, r) == k)) ok = 0;
  return ok;
}
/* ---- all pages */
static vbool relPage(const u8 *pg, uint32_t id) {
  int c = rd16(pg + 4); vbool ok = countOk(pg, 0); uint64_t k = rdn(IN.key, KS);
  for (int r = 0; r < MR; r++) if (r < c) {
    uint64_t x = KEYV(pg, r);
    if (id < IN.t ? !(x < k) : id > IN.t ? !(x > k) : (r < IN.j ? !(x < k) : r > IN.j ? !(x > k) : 0)) ok = 0;
  }
  return ok;
}
static vbool pageInv(int file, uint32_t pg, const u8 *c) { uint32_t id = lidOf(pg, EIN.min); return file == 0 && (id >= EIN.next || (rd32(c) == id && rd16(c + 4) >= 1 && relPage(c, id))); }
static vbool preWin(void) { return winOk(EIN.min, EIN.next) && IN.t >= EIN.min && IN.t <= EIN.next && IN.j < MR && EIN.w == (IN.t < EIN.next ? IN.t % NP : NP); }
static vbool preT(void) { return IN.t == EIN.next || (pageInv(0, EIN.w, EIN.wp) && samePage(WD, EIN.wp)); }
static vbool unchanged(void) { return DB.minDataPageId == EIN.min && DB.nextDataPageId == EIN.next && DB.numDataPages == NP && DB.pageSize == PS && DB.headerSize == HS && DB.recordSize == RS && DB.keySize == KS && DB.dataSize == DS && DB.buffer == BUF; }
SPEC vbool prePages(void) { return preWin() && preT() && unchanged() && cacheOk(RB, EIN.wp, DB.bufferedPageId, EIN.min, EIN.next); }
SPEC vbool pre(void) { return prePages() && relPage(BUF, EIN.next); }
static vbool spans(const u8 *pg) { return KEYV(pg, 0) <= rdn(IN.key, KS) && rdn(IN.key, KS) <= lastKey(pg); }
static vbool inT(void) { return IN.t < EIN.next && spans(WD); }   /* K lies within the key range of live page T */
SPEC vbool foundPage(int8_t ret) {   /* the read buffer holds the page that may contain K */
  return IMP(inT(), ret == 0 && DB.bufferedPageId == EIN.w) && IMP(ret == 0, DB.bufferedPageId != NONE);
}
SPEC vbool postCache(void) { return cacheOk(RB, WD, DB.bufferedPageId, EIN.min, EIN.next); }
SPEC vbool noWrites(void) { return G.nw == 0 && G.ne == 0 && !G.badio; }
static const u8 *TP(void) { return IN.t < EIN.next ? WD : BUF; }
SPEC vbool answer(int8_t ret) {
  uint64_t k = rdn(IN.key, KS); vbool found = 0, ok = 1;
  for (int r = 0; r < MR; r++) if (r == IN.j && r < rd16(TP() + 4) && KEYV(TP(), r) == k) { found = 1; if (!(ret == 0 && rdn(OUT, DS) == rdn(REC(TP(), r) + KS, DS))) ok = 0; }
  return ok && (found || ret != 0);
}
SPEC vbool bufPost(const u8 *pg, int32_t ret) {   /* searchBuffer */
  vbool ok = nodePost(pg, ret);
  for (int r = 0; r < MR; r++) if (ret == r && rdn(OUT, DS) != rdn(REC(pg, r) + KS, DS)) ok = 0;
  return ok && IMP(ret == -1, rdn(OUT, DS) == rdn(IN.out, DS));
}
#define PAGEASG DB.bufferedPageId, DB.numReads, DB.bufferHits, G, __CPROVER_object_upto(BUF + PSC, PSC)
#ifdef O_lin
#define VSTLIN && IN.t >= IN.low && IN.t <= IN.high
#else
#define VSTLIN
#endif
struct vst VST;
static void setup(void) { setup_env(); memcpy(KEY, IN.key, KS); memcpy(OUT, IN.out, DS); memcpy(NODE, IN.node, PS); DB.spl = &SPL;
  VST.min = EIN.min; VST.next = EIN.next; VST.w = EIN.w; VST.t = IN.t; VST.j = IN.j; VST.k = (uint32_t)rdn(IN.key, KS); VST.in = inT() VSTLIN; }
STUB_CONTRACT(int16_t embedDBEstimateKeyLocation(embedDBState *state, void *buffer, void *key), __CPROVER_requires(countOk(buffer, 1)) __CPROVER_assigns())
#define STUBN STUB_CONTRACT(id_t embedDBSearchNode(embedDBState *state, void *buffer, void *key, int8_t range), \
  __CPROVER_requires(state == &DB && key == KEY && range == 0 && nodePre(buffer)) __CPROVER_ensures(nodePost(buffer, (int32_t)__CPROVER_return_value)) __CPROVER_assigns())
#define STUBB STUB_CONTRACT(int32_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data), \
  __CPROVER_requires(state == &DB && key == KEY && data == OUT && nodePre(buffer)) __CPROVER_ensures(bufPost(buffer, __CPROVER_return_value)) __CPROVER_assigns(__CPROVER_object_whole(OUT)))
#define STUBS(F) STUB_CONTRACT(int8_t F(embedDBState *state, void *buffer, void *key), \
  __CPROVER_requires(state == &DB && key == KEY && buffer == RB && EIN.next > 0 && prePages()) __CPROVER_ensures(foundPage(__CPROVER_return_value) && postCache() && noWrites()) __CPROVER_assigns(PAGEASG))
#ifdef O_node
#define REQS(X) X(nodePre(NODE) && rd16(NODE + 4) >= 1)
#define ENSS(X) X(C01, "search within a page finds the key exactly when the page holds it", nodePost(NODE, (int32_t)RET))
#define COVS(X) X("found", CRET != -1) X("absent", CRET == -1)
#define ASSIGNS
CONTRACT(id_t, embedDBSearchNode, (embedDBState *s, void *b, void *k, int8_t range))
UNIT(id_t, embedDBSearchNode, (&DB, NODE, KEY, 0))
#elif defined(O_buf)
STUBN
#define REQS(X) X(nodePre(NODE))
#define ENSS(X) X(C01, "search of the write buffer finds the key exactly when it is buffered, with its data", bufPost(NODE, RET))
#define COVS(X) X("found", CRET != -1) X("absent", CRET == -1)
#define ASSIGNS __CPROVER_object_whole(OUT)
CONTRACT(int32_t, searchBuffer, (embedDBState *s, void *b, void *k, void *d))
UNIT(int32_t, searchBuffer, (&DB, NODE, KEY, OUT))
#elif defined(O_lin)
/* linearSearch(page, low, high): finds the page of the key if it lies in [low, high] */
static vbool preLin(uint32_t page, uint32_t low, uint32_t high) { return prePages() && EIN.next > 0 && low >= EIN.min && low <= page && page <= high && high < EIN.next && low < IDMAX; }
SPEC vbool linPre(void) { return preLin(IN.loc, IN.low, IN.high); }
SPEC vbool linFound(int8_t ret) { return (ret == 0 || ret == -1) && IMP(inT() && IN.t >= IN.low && IN.t <= IN.high, ret == 0 && DB.bufferedPageId == EIN.w) && IMP(ret == 0, DB.bufferedPageId != NONE); }
#define REQS(X) X(linPre())
#define ENSS(X) X(C01, "the page whose key range contains the key is found within the bounds", linFound(RET)) X(C01_C22, "the page cache still mirrors storage", postCache()) X(C01, "the search writes nothing", noWrites())
#define COVS(X) X("found", CRET == 0 && inT()) X("not found", CRET != 0)
#define ASSIGNS PAGEASG
CONTRACT(int8_t, linearSearch, (embedDBState *s, void *b, void *k, int32_t page, int32_t low, int32_t high))
UNIT(int8_t, linearSearch, (&DB, RB, KEY, IN.loc, IN.low, IN.high))
#elif defined(O_bin) || defined(O_spl)
#ifdef O_bin
#define FN binarySearch
#else
#define FN splineSearch
/* splineFind (its contract is assumed, DESIGN section 3): the page that may hold the key lies within the returned bounds, and so does the estimate */
STUB_CONTRACT(void splineFind(spline *spl, void *key, int8_t compareKey(void *, void *), id_t *loc, id_t *low, id_t *high),
  __CPROVER_requires(spl == &SPL && key == KEY) __CPROVER_assigns(*loc, *low, *high)
  __CPROVER_ensures(*low == IN.low && *high == IN.high && *loc == IN.loc))
#define SPLBOUNDS(X) X(IN.low <= IN.loc && IN.loc <= IN.high && IN.high < EIN.next && IMP(IN.t < EIN.next, IN.low <= IN.t && IN.t <= IN.high))
#ifdef NATIVE
void __wrap_splineFind(spline *spl, void *key, int8_t compareKey(void *, void *), id_t *loc, id_t *low, id_t *high) { *loc = IN.loc; *low = IN.low; *high = IN.high; }
#endif
STUB_CONTRACT(int8_t linearSearch(embedDBState *state, void *buf, void *key, int32_t pageId, int32_t low, int32_t high),
  __CPROVER_requires(state == &DB && buf == RB && key == KEY && prePages() && EIN.next > 0 && (uint32_t)low >= EIN.min && (uint32_t)low <= (uint32_t)pageId && (uint32_t)pageId <= (uint32_t)high && (uint32_t)high < EIN.next)
  __CPROVER_ensures((__CPROVER_return_value == 0 || __CPROVER_return_value == -1) && IMP(inT() && IN.t >= (uint32_t)low && IN.t <= (uint32_t)high, __CPROVER_return_value == 0 && DB.bufferedPageId == EIN.w) && IMP(__CPROVER_return_value == 0, DB.bufferedPageId != NONE) && postCache() && noWrites()) __CPROVER_assigns(PAGEASG))
#endif
#ifndef SPLBOUNDS
#define SPLBOUNDS(X)
#endif
#define REQS(X) X(prePages() && EIN.next > 0) SPLBOUNDS(X)
#define ENSS(X) X(C01, "the page whose key range contains the key is found", foundPage(RET)) X(C01_C22, "the page cache still mirrors storage", postCache()) X(C01, "the search writes nothing", noWrites())
#define COVS(X) X("in range", CRET == 0 && inT()) X("not in range", !inT()) X("pages read", DB.numReads > 1 && CRET == 0)
#define ASSIGNS PAGEASG
CONTRACT(int8_t, FN, (embedDBState *s, void *b, void *k))
UNIT(int8_t, FN, (&DB, RB, KEY))
#elif defined(O_get)
STUBN STUBB
#if BSRCH
STUBS(binarySearch)
#else
STUBS(splineSearch)
#endif
SPEC vbool post(void) { return noWrites() && samePage(BUF, EIN.buf) && unchanged(); }
#define REQS(X) X(pre())
#define ENSS(X) X(C01, "a lookup succeeds exactly when the key is stored, and returns exactly its data", answer(RET)) \
  X(C01, "a lookup changes neither storage nor the write buffer", post()) \
  X(C01_C22, "the page cache still mirrors storage", postCache()) X(C01_C07, "a record found in storage is left in the read buffer", IMP(RET == 0 && IN.t < EIN.next && inT(), DB.bufferedPageId == EIN.w))
#define COVS(X) X("found", CRET == 0) X("absent", CRET != 0) X("found in buffer", CRET == 0 && EIN.next > 0 && IN.t == EIN.next) X("found in storage", CRET == 0 && IN.t < EIN.next)
#define ASSIGNS PAGEASG, __CPROVER_object_whole(OUT)
CONTRACT(int8_t, embedDBGet, (embedDBState *s, void *k, void *d))
UNIT(int8_t, embedDBGet, (&DB, KEY, OUT))
#endif
#include "vf_end.h"
