/* operator initialisation: the announced output schema and buffer match the rows the operator will produce */
#include "q_common.h"
#ifndef SCH2
#define SCH2 -4,2
#endif
static const int8_t SCHW[] = {SCH2};
#define NW ((int)sizeof(SCHW))
struct aggregateInfo { int8_t (*groupfunc)(const void *lastRecord, const void *record); embedDBAggregateFunc *functions; uint32_t functionsLength; void *lastRecordBuffer; uint16_t bufferSize; int8_t isLastRecordUsable; };
struct keyJoinInfo { embedDBOperator *input2; int8_t firstCall; };
static struct inputs { u8 junk; int8_t cs[3]; } IN;
static embedDBOperator OP, I1, I2; static embedDBSchema S1, S2; static int8_t sz1[NC], sz2[NW]; static struct aggregateInfo AG; static struct keyJoinInfo KJ; static embedDBAggregateFunc FN[3]; static int i1, i2;
void init1(embedDBOperator *o) { i1++; I1.schema = &S1; }
void init2(embedDBOperator *o) { i2++; I2.schema = &S2; }
static void setup(void) {
  for (int i = 0; i < NC; i++) sz1[i] = SCHV[i];
  for (int i = 0; i < NW; i++) sz2[i] = SCHW[i];
  S1.numCols = NC; S1.columnSizes = sz1; S2.numCols = NW; S2.columnSizes = sz2; i1 = i2 = 0;
  I1.init = init1; I2.init = init2; I1.schema = I2.schema = NULL; OP.input = &I1; OP.schema = NULL; OP.recordBuffer = NULL;
  for (int i = 0; i < 3; i++) { FN[i].colSize = IN.cs[i]; FN[i].colNum = 0; }
  AG.functions = FN; AG.functionsLength = 3; AG.lastRecordBuffer = NULL; AG.bufferSize = 0; AG.isLastRecordUsable = IN.junk; KJ.input2 = &I2; KJ.firstCall = IN.junk;
#ifdef O_agg
  OP.state = &AG;
#else
  OP.state = &KJ;
#endif
}
SPEC int ab(int c) { return c < 0 ? -c : c; }
#ifndef NATIVE
#define SZ(p) __CPROVER_OBJECT_SIZE(p)
#else
#define SZ(p) 1000000
#endif
SPEC vbool frame(void) { vbool ok = 1; for (int i = 0; i < NC; i++) if (sz1[i] != SCHV[i]) ok = 0; for (int i = 0; i < NW; i++) if (sz2[i] != SCHW[i]) ok = 0; return ok && S1.numCols == NC && S2.numCols == NW; }
#define COVS(X) X("reached", 1)
#ifdef O_agg
SPEC vbool schok(void) { vbool ok = OP.schema != NULL && OP.schema->numCols == 3; if (ok) for (int i = 0; i < 3; i++) if (OP.schema->columnSizes[i] != IN.cs[i] || FN[i].colNum != i) ok = 0; return ok; }
SPEC int osz(void) { int t = 0; for (int i = 0; i < 3; i++) t += ab(IN.cs[i]); return t; }
#define REQS(X) X(IN.cs[0] > -100 && IN.cs[1] > -100 && IN.cs[2] > -100) X(IN.cs[0] != 0)
#define ENSS(X) X(C14_C15, "one output column per aggregate, in order, of the aggregate's size", schok()) \
  X(C14_C15, "output and last-record buffers hold whole rows", OP.recordBuffer != NULL && SZ(OP.recordBuffer) >= osz() && AG.lastRecordBuffer != NULL && SZ(AG.lastRecordBuffer) >= RECSZ && AG.bufferSize == RECSZ) \
  X(C15, "aggregation starts with no pending record and initialises its input once", AG.isLastRecordUsable == 0 && i1 == 1 && frame())
#define ASSIGNS i1, I1.schema, OP.schema, OP.recordBuffer, AG, __CPROVER_object_whole(FN)
CONTRACT_VOID(initAggregate, (embedDBOperator *op))
UNIT_VOID(initAggregate, (&OP))
#endif
#ifdef O_join
SPEC vbool schok(void) { vbool ok = OP.schema != NULL && OP.schema->numCols == NC + NW; if (ok) for (int i = 0; i < NC + NW; i++) if (OP.schema->columnSizes[i] != (i < NC ? SCHV[i] : SCHW[i - NC])) ok = 0; return ok; }
#define OKJ (SCHV[0] == SCHW[0] && SCHV[0] > 0)
SPEC int osz(void) { int t = 0; for (int i = 0; i < NC; i++) t += ab(SCHV[i]); for (int i = 0; i < NW; i++) t += ab(SCHW[i]); return t; }
#define REQS(X) X(1)
#define ENSS(X) X(C14_C16, "the joined schema is the columns of the first input followed by those of the second", IMP(OKJ, schok())) \
  X(C14_C16, "the join buffer holds both rows", IMP(OKJ, OP.recordBuffer != NULL && SZ(OP.recordBuffer) >= osz())) \
  X(C16, "key columns of different size or signed keys are refused", IMP(!OKJ, OP.recordBuffer == NULL)) \
  X(C16, "both inputs are initialised once and the join starts at its first rows", i1 == 1 && i2 == 1 && IMP(OKJ, KJ.firstCall) && KJ.input2 == &I2 && frame())
#define ASSIGNS i1, i2, I1.schema, I2.schema, OP.schema, OP.recordBuffer, KJ
CONTRACT_VOID(initKeyJoin, (embedDBOperator *op))
UNIT_VOID(initKeyJoin, (&OP))
#endif
#ifdef O_sel
SPEC vbool schok(void) { vbool ok = OP.schema != NULL && OP.schema != &S1 && OP.schema->numCols == NC; if (ok) for (int i = 0; i < NC; i++) if (OP.schema->columnSizes[i] != SCHV[i]) ok = 0; return ok; }
#define REQS(X) X(1)
#define ENSS(X) X(C14_C13, "a selection announces its input's schema and has room for a whole row", schok() && OP.recordBuffer != NULL && SZ(OP.recordBuffer) >= RECSZ) X(C13, "the input is initialised once", i1 == 1 && frame())
#define ASSIGNS i1, I1.schema, OP.schema, OP.recordBuffer
CONTRACT_VOID(initSelection, (embedDBOperator *op))
UNIT_VOID(initSelection, (&OP))
#endif
#include "vf_end.h"
