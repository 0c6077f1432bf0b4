/* nextSelection: returns the first remaining input record that satisfies the predicate, copied exactly */
#include "q_common.h"
#define K 3
#ifndef COL
#define COL 0
#endif
int8_t nextSelection(embedDBOperator *op);
struct selectionInfo { int8_t colNum; int8_t operation; void *compVal; };
static struct inputs { int8_t oper; u8 cv[16]; u8 rec[K][RBMAX]; u8 n; u8 junk[RBMAX]; uint16_t probe; /* any byte position */ } IN;
static embedDBOperator OP, INP; static embedDBSchema SI, SO; static struct selectionInfo SEL; static int8_t szi[NC], szo[NC]; static u8 CV[16];
static int match(const u8 *r) { return spec_cmp(IN.oper, order(r + soff(SCHV, COL), IN.cv, absz(SCHV[COL]), SCHV[COL] < 0)); }
int8_t stub_next(embedDBOperator *op) {
  if (VLG.flag) VLG.skipped = 1;   /* the previously delivered record was dropped although it matches */
  if (VLG.done) return 0;
#ifdef EMBEDDB_VERIFY
  u8 r[RBMAX]; vbool more;
  if (!more) { VLG.done = 1; VLG.have = VLG.flag = 0; return 0; }
#else
  if (VLG.n1 >= IN.n || VLG.n1 >= K) { VLG.done = 1; VLG.have = VLG.flag = 0; return 0; }
  u8 *r = IN.rec[VLG.n1++];
#endif
  memcpy(VIN1, r, RECSZ);
  VLG.have = 1; VLG.flag = match(VIN1);
  return 1;
}
static void setup(void) {
  for (int i = 0; i < NC; i++) szi[i] = szo[i] = SCHV[i];
  for (int i = 0; i < 16; i++) CV[i] = IN.cv[i];
  SI.numCols = SO.numCols = NC; SI.columnSizes = szi; SO.columnSizes = szo;
  SEL.colNum = COL; SEL.operation = IN.oper; SEL.compVal = CV;
  INP.schema = &SI; INP.recordBuffer = VIN1; INP.next = stub_next;
  OP.schema = &SO; OP.recordBuffer = VOUT; OP.state = &SEL; OP.input = &INP; OP.next = nextSelection;
  VLG.n1 = VLG.have = VLG.done = VLG.skipped = VLG.flag = 0;
  memcpy(VIN1, IN.junk, RECSZ);
}
SPEC vbool frame(void) { for (int i = 0; i < NC; i++) if (szi[i] != SCHV[i] || szo[i] != SCHV[i]) return 0; for (int i = 0; i < 16; i++) if (CV[i] != IN.cv[i]) return 0;
  return SI.numCols == NC && SEL.colNum == COL && SEL.operation == IN.oper && SEL.compVal == CV && INP.recordBuffer == VIN1 && OP.recordBuffer == VOUT; }
#define REQS(X) X(IN.probe < RECSZ) X(IN.n <= K) X(IN.oper >= 0 && IN.oper <= 5)
#define ENSS(X) X(C13, "no record satisfying the predicate is dropped", !VLG.skipped) \
  X(C13, "a returned record satisfies the predicate", IMP(RET, VLG.have && VLG.flag)) \
  X(C13, "a returned record is an exact copy of the input record", IMP(RET, VIN1[IN.probe] == VOUT[IN.probe])) \
  X(C13, "the end is reported only when the input is exhausted", IMP(!RET, VLG.done && !VLG.have)) \
  X(C13, "selection leaves schemas, operand and operator state unchanged", frame())
#define COVS(X) X("record returned", CRET == 1) X("end", CRET == 0)
#define ASSIGNS VLG, __CPROVER_object_whole(VIN1), __CPROVER_object_whole(VOUT)
CONTRACT(int8_t, nextSelection, (embedDBOperator *op))
UNIT(int8_t, nextSelection, (&OP))
#include "vf_end.h"
