/* Pages of many records (300): embedDBPut (O_put) on a page that is not full, embedDBNext (O_next) at any position.
 * An arbitrary record r and an arbitrary byte of the page are watched. */
#include "embedDB.h"
#include "vf.h"
#include "vlg_def.h"
#include "vst.h"
#define MR 300
#define KS 2
#define DS 1
#define HS 6
#define RS 3
#define PS (HS + MR * RS)
#define NP 8
struct vst VST;
struct ghost G;
static struct inputs { u8 buf[2 * PS]; uint16_t key; uint8_t data; uint32_t next, itpg; uint16_t itrec, r, probe; u8 cached; } IN;
u8 BUF[2 * PS];
static embedDBState DB; static embedDBIterator IT; static spline SPL;
static uint16_t KEY; static uint8_t DATA;
static int8_t cmpKey(void *a, void *b) { uint16_t x = *(uint16_t *)a, y = *(uint16_t *)b; return x < y ? -1 : x > y ? 1 : 0; }
static int8_t cmpData(void *a, void *b) { uint8_t x = *(uint8_t *)a, y = *(uint8_t *)b; return x < y ? -1 : x > y ? 1 : 0; }
static uint16_t cnt(const u8 *pg) { return *(const uint16_t *)(pg + 4); }
static uint16_t keyAt(const u8 *pg, uint32_t r) { return *(const uint16_t *)(pg + HS + r * RS); }
static uint8_t dataAt(const u8 *pg, uint32_t r) { return *(const uint8_t *)(pg + HS + r * RS + KS); }
static void setup(void) {
  memcpy(BUF, IN.buf, 2 * PS); KEY = IN.key; DATA = IN.data;
  DB.buffer = BUF; DB.pageSize = PS; DB.keySize = KS; DB.dataSize = DS; DB.recordSize = RS; DB.headerSize = HS; DB.maxRecordsPerPage = MR; DB.numDataPages = NP; DB.eraseSizeInPages = 2;
  DB.parameters = EMBEDDB_USE_BINARY_SEARCH; DB.compareKey = cmpKey; DB.compareData = cmpData; DB.nextDataPageId = IN.next; DB.minDataPageId = 0; DB.indexFile = NULL; DB.varFile = NULL; DB.spl = &SPL;
  DB.bufferedPageId = IN.cached ? (IN.next - 1) % NP : -1; DB.fileInterface = NULL; DB.dataFile = NULL; DB.bitmapSize = 0; DB.recordHasVarData = 0; DB.numAvailDataPages = NP - IN.next;
  IT.minKey = IT.maxKey = IT.minData = IT.maxData = IT.queryBitmap = NULL; IT.nextDataPage = IN.itpg; IT.nextDataRec = IN.itrec;
}
#ifdef O_put
void updateMaxiumError(embedDBState *state, void *buffer);
int8_t embedDBPut(embedDBState *state, void *key, void *data);
STUB_CONTRACT(id_t writePage(embedDBState *state, void *buffer), __CPROVER_requires(cnt(BUF) >= MR) __CPROVER_assigns())
STUB_CONTRACT(void initBufferPage(embedDBState *state, int pageNum), __CPROVER_requires(cnt(BUF) >= MR) __CPROVER_assigns())
STUB_CONTRACT(void updateMaxiumError(embedDBState *state, void *buffer), __CPROVER_requires(cnt(BUF) >= MR) __CPROVER_assigns())
SPEC vbool pre(void) { return cnt(IN.buf) < MR && IN.next < NP && IMP(cnt(IN.buf) == 0, IN.next == 0) && IN.r < cnt(IN.buf) + (cnt(IN.buf) == 0) && IN.probe < PS && IN.cached == 0; }
SPEC vbool verdict(int8_t ret) { return cnt(IN.buf) == 0 ? ret == 0 : (ret == 0) == (IN.key > keyAt(IN.buf, cnt(IN.buf) - 1)); }
SPEC vbool rejected(int8_t ret) { return IMP(ret != 0, BUF[IN.probe] == IN.buf[IN.probe]); }
SPEC vbool stored(int8_t ret) {
  uint32_t c = cnt(IN.buf);
  return IMP(ret == 0, cnt(BUF) == c + 1 && keyAt(BUF, c) == IN.key && dataAt(BUF, c) == IN.data && IMP(IN.probe >= HS && (IN.probe < HS + c * RS || IN.probe >= HS + (c + 1) * RS), BUF[IN.probe] == IN.buf[IN.probe])) && DB.nextDataPageId == IN.next;
}
#define REQS(X) X(pre())
#define ENSS(X) X(C02, "a record is accepted exactly when its key is larger than the last one on a page of many records", verdict(RET)) X(C02, "a rejected record changes nothing on a page of many records", rejected(RET)) X(C02, "an accepted record is stored after the records already on a page of many records", stored(RET))
#define COVS(X) X("rejected", CRET != 0) X("stored beyond 256", CRET == 0 && cnt(IN.buf) > 256)
#define ASSIGNS DB, __CPROVER_object_whole(BUF)
CONTRACT(int8_t, embedDBPut, (embedDBState *s, void *k, void *d))
UNIT(int8_t, embedDBPut, (&DB, &KEY, &DATA))
#endif
#ifdef O_next
SPEC vbool pre(void) { return cnt(IN.buf) <= MR && cnt(IN.buf + PS) >= 1 && cnt(IN.buf + PS) <= MR && IN.next >= 1 && IN.next <= NP && (IN.itpg == IN.next || (IN.cached == 1 && IN.itpg == IN.next - 1)) && IN.itrec <= MR && IN.probe < 2 * PS; }
static const u8 *pg(void) { return IN.itpg == IN.next ? IN.buf : IN.buf + PS; }
static vbool here(void) { return IN.itrec < cnt(pg()); }
static const u8 *src(void) { return here() ? pg() : IN.buf; }
static uint32_t rec(void) { return here() ? IN.itrec : 0; }
static vbool some(void) { return here() || (IN.itpg != IN.next && cnt(IN.buf) > 0); }
SPEC vbool answer(int8_t ret) { return ret == (some() ? 1 : 0) && IMP(ret == 1, KEY == keyAt(src(), rec()) && DATA == dataAt(src(), rec()) && IT.nextDataRec == rec() + 1 && IT.nextDataPage == (here() ? IN.itpg : IN.next)); }
SPEC vbool same(void) { return BUF[IN.probe] == IN.buf[IN.probe]; }
#define REQS(X) X(pre())
#define ENSS(X) X(C03, "iteration returns the next record of a page of many records, and ends only after the last one", answer(RET)) X(C03, "iteration leaves pages of many records unchanged", same())
#define COVS(X) X("beyond record 256", CRET == 1 && IT.nextDataRec > 256) X("end", CRET == 0)
#define ASSIGNS IT.nextDataPage, IT.nextDataRec, DB.bufferHits, KEY, DATA
CONTRACT(int8_t, embedDBNext, (embedDBState *s, embedDBIterator *it, void *k, void *d))
UNIT(int8_t, embedDBNext, (&DB, &IT, &KEY, &DATA))
#endif
#ifdef O_max
SPEC vbool pre(void) { return cnt(IN.buf) >= 1 && cnt(IN.buf) <= MR; }
#define REQS(X) X(pre())
#define ENSS(X) X(C01_C03_C02, "the largest key of a page is that of its last record", RET == (void *)(BUF + HS + (cnt(IN.buf) - 1) * RS))
#define COVS(X) X("beyond record 256", cnt(IN.buf) > 256)
#define ASSIGNS
CONTRACT(void *, embedDBGetMaxKey, (embedDBState *s, void *b))
UNIT(void *, embedDBGetMaxKey, (&DB, BUF))
#endif
#include "vf_end.h"
