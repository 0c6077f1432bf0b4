/* aggregate functions: reset gives the neutral element, add folds one record in, compute writes exactly the result column */
#include "q_common.h"
#ifndef OSCH
#define OSCH 4,8
#endif
#ifndef OCOL
#define OCOL 1
#endif
static const int8_t OSCHV[] = {OSCH};
#define NO ((int)sizeof(OSCHV))
#define ORS soff(OSCHV, NO)
struct minMaxState { uint8_t colNum; void *current; };
struct avgState { uint8_t colNum; int8_t isSigned; uint32_t count; int64_t sum; };
static struct inputs { u8 rec[RBMAX]; u8 out[RBMAX]; uint64_t s; uint32_t cnt; uint8_t col; u8 cur[16]; u8 last[RBMAX]; int8_t sg; } IN;
static embedDBSchema SI, SO; static int8_t szi[NC], szo[NO]; static embedDBAggregateFunc FN;
static u8 SUMST[16]; static uint32_t CNT; static struct minMaxState MM; static struct avgState AV; static u8 CUR[16]; static u8 REC[RBMAX];
SPEC int cs(void) { int r = 0; for (int i = 0; i < NC; i++) if (i == IN.col) r = SCHV[i]; return r; }
SPEC int coff(void) { int r = 0, o = 0; for (int i = 0; i < NC; i++) { if (i == IN.col) r = o; o += absz(SCHV[i]); } return r; }
/* value of the tracked column, sign- or zero-extended to 64 bits */
SPEC uint64_t sval(void) {
  int n = absz(cs()), o = coff(); uint64_t v = 0;
  for (int i = 0; i < 8; i++) { u8 b = i < n ? IN.rec[o + i] : ((cs() < 0 && (IN.rec[o + n - 1] & 0x80)) ? 0xff : 0); v |= (uint64_t)b << (8 * i); }
  return v;
}
SPEC int ord(const u8 *a, const u8 *b) { return order(a, b, absz(cs()), cs() < 0); }
static void setup(void) {
  for (int i = 0; i < NC; i++) szi[i] = SCHV[i];
  for (int i = 0; i < NO; i++) szo[i] = OSCHV[i];
  SI.numCols = NC; SI.columnSizes = szi; SO.numCols = NO; SO.columnSizes = szo;
  for (int i = 0; i < RECSZ; i++) REC[i] = IN.rec[i];
  for (int i = 0; i < ORS; i++) VOUT[i] = IN.out[i];
  FN.colNum = OCOL; FN.colSize = OSCHV[OCOL]; FN.reset = 0; FN.add = 0; FN.compute = 0;
  memcpy(SUMST, &IN.s, 8); SUMST[8] = IN.col; CNT = IN.cnt;
  for (int i = 0; i < 16; i++) CUR[i] = IN.cur[i];
  MM.colNum = IN.col; MM.current = CUR; AV.colNum = IN.col; AV.isSigned = IN.sg; AV.count = IN.cnt; AV.sum = (int64_t)IN.s;
#if defined(F_SUM)
  FN.state = SUMST;
#elif defined(F_CNT)
  FN.state = &CNT;
#elif defined(F_MM)
  FN.state = &MM;
#else
  FN.state = &AV;
#endif
}
SPEC vbool frame(void) { for (int i = 0; i < NC; i++) if (szi[i] != SCHV[i]) return 0; for (int i = 0; i < NO; i++) if (szo[i] != OSCHV[i]) return 0; for (int i = 0; i < RECSZ; i++) if (REC[i] != IN.rec[i]) return 0; return SI.numCols == NC && SO.numCols == NO && FN.colNum == OCOL; }
SPEC uint64_t sumst(void) { uint64_t v = 0; for (int i = 0; i < 8; i++) v |= (uint64_t)SUMST[i] << (8 * i); return v; }
/* output record: column OCOL holds val (n bytes), every other byte unchanged */
SPEC vbool outok(const void *val, int n) { int o = soff(OSCHV, OCOL); for (int i = 0; i < ORS; i++) if (VOUT[i] != ((i >= o && i < o + n) ? ((const u8 *)val)[i - o] : IN.out[i])) return 0; return 1; }
#define CREQ X(IN.col < NC)
#define REQS(X) X(IN.col < NC)
#define COVS(X) X("reached", 1)
#define FR(X) X(C15, "the schemas and the input record are left unchanged", frame())
#ifdef O_sumAdd
#define ENSS(X) X(C15, "sum grows by the column value, sign-extended for signed columns", sumst() == IN.s + sval() && SUMST[8] == IN.col) FR(X)
#define ASSIGNS __CPROVER_object_whole(SUMST)
CONTRACT_VOID(sumAdd, (embedDBAggregateFunc *a, embedDBSchema *s, const void *r))
UNIT_VOID(sumAdd, (&FN, &SI, REC))
#endif
#ifdef O_sumReset
#define ENSS(X) X(C15, "sum starts from zero", sumst() == 0) X(C15, "the column choice survives", SUMST[8] == IN.col) FR(X)
#define ASSIGNS __CPROVER_object_whole(SUMST)
CONTRACT_VOID(sumReset, (embedDBAggregateFunc *a, embedDBSchema *s))
UNIT_VOID(sumReset, (&FN, &SI))
#endif
#ifdef O_sumCompute
#define ENSS(X) X(C15, "the sum is written to its result column only", outok(SUMST, 8) && sumst() == IN.s) FR(X)
#define ASSIGNS __CPROVER_object_whole(VOUT)
CONTRACT_VOID(sumCompute, (embedDBAggregateFunc *a, embedDBSchema *s, void *rb, const void *l))
UNIT_VOID(sumCompute, (&FN, &SO, VOUT, IN.last))
#endif
#ifdef O_countAdd
#define ENSS(X) X(C15, "count grows by one", CNT == IN.cnt + 1) FR(X)
#define ASSIGNS CNT
CONTRACT_VOID(countAdd, (embedDBAggregateFunc *a, embedDBSchema *s, const void *r))
UNIT_VOID(countAdd, (&FN, &SI, REC))
#endif
#ifdef O_countReset
#define ENSS(X) X(C15, "count starts from zero", CNT == 0) FR(X)
#define ASSIGNS CNT
CONTRACT_VOID(countReset, (embedDBAggregateFunc *a, embedDBSchema *s))
UNIT_VOID(countReset, (&FN, &SI))
#endif
#ifdef O_countCompute
#define ENSS(X) X(C15, "the count is written to its result column only", outok(&IN.cnt, 4) && CNT == IN.cnt) FR(X)
#define ASSIGNS __CPROVER_object_whole(VOUT)
CONTRACT_VOID(countCompute, (embedDBAggregateFunc *a, embedDBSchema *s, void *rb, const void *l))
UNIT_VOID(countCompute, (&FN, &SO, VOUT, IN.last))
#endif
#if defined(O_minAdd) || defined(O_maxAdd)
#ifdef O_minAdd
#define BETTER(o) ((o) < 0)
#define FADD minAdd
#else
#define BETTER(o) ((o) > 0)
#define FADD maxAdd
#endif
SPEC vbool mmok(void) { const u8 *v = IN.rec + coff(); int n = absz(cs()); vbool b = BETTER(ord(v, IN.cur));
  for (int i = 0; i < 16; i++) { u8 w = (i < n && b) ? v[i] : IN.cur[i]; if (CUR[i] != w) return 0; } return 1; }
#define ENSS(X) X(C15, "the running extreme becomes the more extreme of itself and the column value", mmok()) FR(X)
#define ASSIGNS __CPROVER_object_whole(CUR)
CONTRACT_VOID(FADD, (embedDBAggregateFunc *a, embedDBSchema *s, const void *r))
UNIT_VOID(FADD, (&FN, &SI, REC))
#endif
#if defined(O_minReset) || defined(O_maxReset)
#ifdef O_minReset
#define WORST(o) ((o) <= 0)
#define FRES minReset
#else
#define WORST(o) ((o) >= 0)
#define FRES maxReset
#endif
#define ENSS(X) X(C15, "after reset every column value is at least as extreme as the running extreme", WORST(ord(IN.rec + coff(), CUR))) FR(X)
#define ASSIGNS __CPROVER_object_whole(CUR)
CONTRACT_VOID(FRES, (embedDBAggregateFunc *a, embedDBSchema *s))
UNIT_VOID(FRES, (&FN, &SI))
#endif
#ifdef O_minMaxCompute
#define ENSS(X) X(C15, "the extreme is written to its result column only", outok(IN.cur, absz(OSCHV[OCOL])) && eqn(CUR, IN.cur, 16)) FR(X)
#define ASSIGNS __CPROVER_object_whole(VOUT)
CONTRACT_VOID(minMaxCompute, (embedDBAggregateFunc *a, embedDBSchema *s, void *rb, const void *l))
UNIT_VOID(minMaxCompute, (&FN, &SO, VOUT, IN.last))
#endif
#ifdef O_avgAdd
#define ENSS(X) X(C15, "sum grows by the column value and count by one", (uint64_t)AV.sum == IN.s + sval() && AV.count == IN.cnt + 1 && AV.colNum == IN.col && AV.isSigned == IN.sg) FR(X)
#define ASSIGNS AV.sum, AV.count
CONTRACT_VOID(avgAdd, (embedDBAggregateFunc *a, embedDBSchema *s, const void *r))
UNIT_VOID(avgAdd, (&FN, &SI, REC))
#endif
#ifdef O_avgReset
#define ENSS(X) X(C15, "average starts from no records and takes the signedness of its column", AV.sum == 0 && AV.count == 0 && (AV.isSigned != 0) == (cs() < 0) && AV.colNum == IN.col) FR(X)
#define ASSIGNS AV.sum, AV.count, AV.isSigned
CONTRACT_VOID(avgReset, (embedDBAggregateFunc *a, embedDBSchema *s))
UNIT_VOID(avgReset, (&FN, &SI))
#endif
#ifdef O_avgCompute
#undef REQS
#define REQS(X) X(IN.col < NC) X(IN.cnt >= 1) X(IN.sg == 0 || IN.sg == 1)
SPEC vbool avok(void) {
  if (OSCHV[OCOL] == 8) { double d = IN.sg ? (int64_t)IN.s / (double)IN.cnt : IN.s / (double)IN.cnt; return outok(&d, 8); }
  float f = IN.sg ? (int64_t)IN.s / (float)IN.cnt : IN.s / (float)IN.cnt; return outok(&f, 4); }
#define ENSS(X) X(C15, "sum divided by count is written to the result column only", avok()) FR(X)
#define ASSIGNS __CPROVER_object_whole(VOUT)
CONTRACT_VOID(avgCompute, (embedDBAggregateFunc *a, embedDBSchema *s, void *rb, const void *l))
UNIT_VOID(avgCompute, (&FN, &SO, VOUT, IN.last))
#endif
#include "vf_end.h"
