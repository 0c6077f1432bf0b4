/* projection: output row/schema are exactly the chosen columns of the input, in the chosen order */
#include "q_common.h"
#ifndef MAXC
#define MAXC 8
#endif
#ifndef NP
#define NP 2
#endif
void initProjection(embedDBOperator *op); int8_t nextProjection(embedDBOperator *op);
static struct inputs { u8 rec[RBMAX]; u8 cols[NP]; u8 out[RBMAX]; u8 more; } IN;
#ifdef COLS
static const u8 COLSV[] = {COLS};
#define COLI(i) COLSV[i]
#else
#define COLI(i) IN.cols[i]
#endif
static embedDBOperator OP, INP; static embedDBSchema SI, SO; static int8_t szi[NC], szo[NP]; static u8 ST[NP + 1]; static int inits, nexts;
void stub_init(embedDBOperator *op) { inits++; INP.schema = &SI; }
int8_t stub_next(embedDBOperator *op) { nexts++; if (!IN.more) return 0; for (int i = 0; i < RECSZ; i++) VIN1[i] = IN.rec[i]; return 1; }
SPEC int colsz(int c) { int r = 0; for (int i = 0; i < NC; i++) if (i == c) r = SCHV[i]; return r; }
SPEC int coloff(int c) { int r = 0, o = 0; for (int i = 0; i < NC; i++) { if (i == c) r = o; o += absz(SCHV[i]); } return r; }
static void setup(void) {
  for (int i = 0; i < NC; i++) szi[i] = SCHV[i];
  SI.numCols = NC; SI.columnSizes = szi; INP.recordBuffer = VIN1; INP.init = stub_init; INP.next = stub_next; INP.schema = &SI;
  ST[0] = NP; for (int i = 0; i < NP; i++) ST[i + 1] = COLI(i);
  OP.state = ST; OP.input = &INP; inits = nexts = 0;
#ifdef O_next
  for (int i = 0; i < NP; i++) szo[i] = colsz(COLI(i));
  SO.numCols = NP; SO.columnSizes = szo; OP.schema = &SO; OP.recordBuffer = VOUT;
  for (int i = 0; i < RBMAX; i++) VOUT[i] = IN.out[i];
#else
  OP.schema = NULL; OP.recordBuffer = NULL;
#endif
}
SPEC vbool colsok(void) { vbool ok = 1; for (int i = 0; i < NP; i++) if (COLI(i) >= NC) ok = 0; return ok; }
SPEC vbool rowok(void) {
  int o = 0; vbool ok = 1;
  for (int p = 0; p < NP; p++) { int n = absz(colsz(COLI(p))), s = coloff(COLI(p)); for (int i = 0; i < MAXC; i++) if (i < n) if (VOUT[o + i] != IN.rec[s + i]) ok = 0; o += n; }
  for (int i = 0; i < RBMAX; i++) if (i >= o && VOUT[i] != IN.out[i]) ok = 0;
  return ok; }
SPEC vbool frame(void) { vbool ok = 1; for (int i = 0; i < NC; i++) if (szi[i] != SCHV[i]) ok = 0; for (int i = 0; i < NP; i++) if (ST[i + 1] != COLI(i)) ok = 0; return ok && ST[0] == NP && SI.numCols == NC && INP.recordBuffer == VIN1; }
#define REQS(X) X(colsok()) X(IN.more <= 1)
#ifdef O_next
#define ENSS(X) X(C14, "a projected row consists of exactly the chosen columns and nothing else is written", IMP(RET, rowok())) \
  X(C14, "one output row per input row, ending with the input", (RET != 0) == (IN.more != 0) && nexts == 1) \
  X(C14, "projection leaves input schema and column list unchanged", frame())
#define COVS(X) X("row", CRET == 1) X("end", CRET == 0)
#define ASSIGNS nexts, __CPROVER_object_whole(VIN1), __CPROVER_object_whole(VOUT)
CONTRACT(int8_t, nextProjection, (embedDBOperator *op))
UNIT(int8_t, nextProjection, (&OP))
#else
SPEC vbool schok(void) { vbool ok = OP.schema != NULL && OP.schema->numCols == NP && OP.recordBuffer != NULL; if (ok) for (int i = 0; i < NP; i++) if (OP.schema->columnSizes[i] != colsz(COLI(i))) ok = 0; return ok; }
#ifndef NATIVE
SPEC int psize(void) { int o = 0; for (int i = 0; i < NP; i++) o += absz(colsz(COLI(i))); return o; }
#define ROOM (__CPROVER_OBJECT_SIZE(OP.recordBuffer) >= psize())
#else
#define ROOM 1
#endif
#define ENSS(X) X(C14, "the output schema is the chosen columns with their sizes and signedness", schok()) \
  X(C14, "the output buffer holds a whole projected row", ROOM) \
  X(C14, "the input is initialised once and left unchanged", inits == 1 && frame())
#define COVS(X) X("reached", 1)
#define ASSIGNS inits, INP.schema, OP.schema, OP.recordBuffer
CONTRACT_VOID(initProjection, (embedDBOperator *op))
UNIT_VOID(initProjection, (&OP))
#endif
#include "vf_end.h"
