/* nextAggregate: one output per maximal run of adjacent records that the group function relates; every record of the
 * run is added exactly once, in order, to every aggregate function; compute sees the last record of the run. */
#include "q_common.h"
#define K 3
#define NF 2
#define RS 8
int8_t nextAggregate(embedDBOperator *op);
struct aggregateInfo {
  int8_t (*groupfunc)(const void *lastRecord, const void *record);
  embedDBAggregateFunc *functions;
  uint32_t functionsLength;
  void *lastRecordBuffer;
  uint16_t bufferSize;
  int8_t isLastRecordUsable;
};
static struct inputs { uint8_t pending; u8 last[RS]; u8 rec[K][RS]; u8 n; u8 junk[RS]; u8 out0[RS]; u8 keyw; } IN;
static embedDBOperator OP, INP; static embedDBSchema SI, SO; static struct aggregateInfo AG; static embedDBAggregateFunc FN[NF]; static int8_t szi[1] = {8}, szo[2] = {4, 4};
/* VLG: n1 records delivered, n2 records added in this group, w1/w2 adds of the current record per function,
   have: a current record exists, flag: some rule was broken, done: input ended, emitted: computes seen, skipped: boundary seen */
#define CUR ((uint64_t *)VOUT)[8]     /* current record (delivered or pending) */
#define LASTADD ((uint64_t *)VOUT)[9] /* last record added */
static int same(const u8 *a, const u8 *b) { return (a[0] & IN.keyw) == (b[0] & IN.keyw); }
int8_t groupf(const void *last, const void *rec) { return same(last, rec); }
static void cur_check(void) { if (VLG.have && !(VLG.w1 == 1 && VLG.w2 == 1)) VLG.flag = 1; }
int8_t stub_next(embedDBOperator *op) {
  cur_check();                       /* every earlier record of this run has been added once to each function */
  if (VLG.done) return 0;
#ifdef EMBEDDB_VERIFY
  u8 r[RS]; vbool more;
  if (!more) { VLG.done = 1; VLG.have = 0; return 0; }
#else
  if (VLG.n1 >= IN.n || VLG.n1 >= K) { VLG.done = 1; VLG.have = 0; return 0; }
  u8 *r = IN.rec[VLG.n1]; VLG.n1++;
#endif
  for (int i = 0; i < RS; i++) VIN1[i] = r[i];
  memcpy(&CUR, VIN1, 8);
  VLG.have = 1; VLG.w1 = VLG.w2 = 0;
  return 1;
}
static void resetf(embedDBAggregateFunc *f, embedDBSchema *s) { if (VLG.n2) VLG.flag = 1; if (f == &FN[0]) VLG.k1++; else VLG.k2++; }
static void addf(embedDBAggregateFunc *f, embedDBSchema *s, const void *rec) {
  if (!VLG.have || VLG.k1 != 1 || VLG.k2 != 1 || memcmp(rec, &CUR, RS)) VLG.flag = 1;
  int which = f == &FN[0] ? 0 : 1;
  if (which == 0) {
    if (VLG.n2 > 0 && !same((u8 *)&LASTADD, (u8 *)&CUR)) VLG.flag = 1;  /* other group */
    VLG.w1 = VLG.w1 > 1 ? 2 : VLG.w1 + 1;
  } else { VLG.w2 = VLG.w2 > 1 ? 2 : VLG.w2 + 1; }
  if (VLG.w1 == 1 && VLG.w2 == 1) { VLG.n2 = 1; LASTADD = CUR; }
}
static void computef(embedDBAggregateFunc *f, embedDBSchema *s, void *out, const void *last) {
  if (out != (void *)VOUT || s != &SO || !VLG.n2 || memcmp(last, &LASTADD, RS)) VLG.flag = 1;
  VLG.emitted += f == &FN[0] ? 1 : 16;
}
static void setup(void) {
  szi[0] = 8; szo[0] = szo[1] = 4; SI.numCols = 1; SI.columnSizes = szi; SO.numCols = 2; SO.columnSizes = szo;
  AG.groupfunc = groupf; AG.functions = FN; AG.functionsLength = NF; AG.lastRecordBuffer = VLAST; AG.bufferSize = RS; AG.isLastRecordUsable = IN.pending;
  for (int i = 0; i < NF; i++) { FN[i].reset = resetf; FN[i].add = addf; FN[i].compute = computef; FN[i].colNum = i; FN[i].colSize = 4; }
  INP.schema = &SI; INP.recordBuffer = VIN1; INP.next = stub_next;
  OP.schema = &SO; OP.recordBuffer = VOUT; OP.state = &AG; OP.input = &INP; OP.next = nextAggregate;
  VLG.n1 = VLG.n2 = VLG.done = VLG.skipped = VLG.flag = VLG.w1 = VLG.w2 = VLG.emitted = 0; VLG.k1 = VLG.k2 = 0;
  for (int i = 0; i < RS; i++) { VIN1[i] = IN.junk[i]; VLAST[i] = IN.last[i]; }
  VLG.have = IN.pending; memcpy(&CUR, VLAST, 8);
}
SPEC vbool frame(void) { return SI.numCols == 1 && szi[0] == 8 && SO.numCols == 2 && szo[0] == 4 && szo[1] == 4 && INP.recordBuffer == VIN1 && OP.recordBuffer == VOUT && AG.functions == FN && AG.functionsLength == NF && AG.bufferSize == RS && AG.lastRecordBuffer == VLAST; }
#define REQS(X) X(IN.pending <= 1) X(IN.n <= K)
#define ENSS(X) X(C15, "each record of the run is added exactly once to every function, in order, after one reset", !VLG.flag) \
  X(C15, "a group is reported iff at least one record belongs to it", (RET != 0) == (VLG.n2 > 0) && (RET == 0 || RET == 1)) \
  X(C15, "a reported group was computed exactly once by every function", VLG.emitted == (RET ? 17 : 0)) \
  X(C15, "the group ends only at the end of input or at a record of another group, which is kept for the next group", \
    IMP(RET, VLG.done ? !AG.isLastRecordUsable : (VLG.have && VLG.w1 == 0 && VLG.w2 == 0 && !same((u8 *)&LASTADD, (u8 *)&CUR) && AG.isLastRecordUsable && !memcmp(VLAST, &CUR, RS)))) \
  X(C15, "the end is reported only when the input is exhausted and nothing is pending", IMP(!RET, VLG.done && !IN.pending && !AG.isLastRecordUsable)) \
  X(C15, "aggregation leaves schemas and buffers in place", frame())
#define COVS(X) X("group ended by other group", CRET == 1 && !VLG.done) X("group ended by end of input", CRET == 1 && VLG.done) X("end", CRET == 0)
#define ASSIGNS VLG, __CPROVER_object_whole(VIN1), __CPROVER_object_whole(VOUT), __CPROVER_object_whole(VLAST), AG.isLastRecordUsable
CONTRACT(int8_t, nextAggregate, (embedDBOperator *op))
UNIT(int8_t, nextAggregate, (&OP))
#include "vf_end.h"
