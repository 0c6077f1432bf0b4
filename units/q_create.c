/* constructors of operators and aggregate functions: what was asked for is what is built */
#include "q_common.h"
struct aggregateInfo { int8_t (*groupfunc)(const void *lastRecord, const void *record); embedDBAggregateFunc *functions; uint32_t functionsLength; void *lastRecordBuffer; uint16_t bufferSize; int8_t isLastRecordUsable; };
struct keyJoinInfo { embedDBOperator *input2; int8_t firstCall; };
struct selectionInfo { int8_t colNum; int8_t operation; void *compVal; };
struct minMaxState { uint8_t colNum; void *current; };
struct avgState { uint8_t colNum; int8_t isSigned; uint32_t count; int64_t sum; };
void sumReset(embedDBAggregateFunc *, embedDBSchema *); void sumAdd(embedDBAggregateFunc *, embedDBSchema *, const void *); void sumCompute(embedDBAggregateFunc *, embedDBSchema *, void *, const void *);
void countReset(embedDBAggregateFunc *, embedDBSchema *); void countAdd(embedDBAggregateFunc *, embedDBSchema *, const void *); void countCompute(embedDBAggregateFunc *, embedDBSchema *, void *, const void *);
void avgReset(embedDBAggregateFunc *, embedDBSchema *); void avgAdd(embedDBAggregateFunc *, embedDBSchema *, const void *); void avgCompute(embedDBAggregateFunc *, embedDBSchema *, void *, const void *);
void minReset(embedDBAggregateFunc *, embedDBSchema *); void minAdd(embedDBAggregateFunc *, embedDBSchema *, const void *); void minMaxCompute(embedDBAggregateFunc *, embedDBSchema *, void *, const void *);
void maxReset(embedDBAggregateFunc *, embedDBSchema *); void maxAdd(embedDBAggregateFunc *, embedDBSchema *, const void *);
void initAggregate(embedDBOperator *); int8_t nextAggregate(embedDBOperator *); void initKeyJoin(embedDBOperator *); int8_t nextKeyJoin(embedDBOperator *); void initProjection(embedDBOperator *); int8_t nextProjection(embedDBOperator *);
void initSelection(embedDBOperator *); int8_t nextSelection(embedDBOperator *); void initTableScan(embedDBOperator *); int8_t nextTableScan(embedDBOperator *);
static struct inputs { uint8_t col; int8_t sz; uint8_t n; int8_t op; u8 cols[8]; u8 which; } IN;
static embedDBOperator I1, I2; static embedDBAggregateFunc FN[3]; static u8 CV[8]; static embedDBState DB; static embedDBIterator IT; static embedDBSchema S; static int8_t sz[2]; static u8 COLSB[8];
static int8_t groupf(const void *a, const void *b) { return 1; }
#ifndef NATIVE
#define SZ(p) __CPROVER_OBJECT_SIZE(p)
#else
#define SZ(p) 1000000
#endif
#define AF ((embedDBAggregateFunc *)RET)
#define OPR ((embedDBOperator *)RET)
static void setup(void) { sz[0] = 4; sz[1] = -2; S.numCols = 2; S.columnSizes = sz; for (int i = 0; i < 8; i++) COLSB[i] = IN.cols[i]; }
#define REQS(X) X(IN.n <= 8) X(IN.sz != -128)
#define COVS(X) X("reached", 1)
#define ASSIGNS
SPEC int ab(int c) { return c < 0 ? -c : c; }
#define FNS(r, a, c) (AF != NULL && AF->reset == r && AF->add == a && AF->compute == c)
#ifdef O_sum
#define ENSS(X) X(C15, "a SUM over the chosen column with an 8-byte signed result", FNS(sumReset, sumAdd, sumCompute) && AF->colSize == -8 && SZ(AF->state) >= 9 && ((u8 *)AF->state)[8] == IN.col)
CONTRACT(embedDBAggregateFunc *, createSumAggregate, (uint8_t c))
UNIT(embedDBAggregateFunc *, createSumAggregate, (IN.col))
#endif
#ifdef O_count
#define ENSS(X) X(C15, "a COUNT with a 4-byte unsigned result", FNS(countReset, countAdd, countCompute) && AF->colSize == 4 && SZ(AF->state) >= 4)
CONTRACT(embedDBAggregateFunc *, createCountAggregate, ())
UNIT(embedDBAggregateFunc *, createCountAggregate, ())
#endif
#if defined(O_min) || defined(O_max)
#ifdef O_min
#define CF createMinAggregate
#define R3 FNS(minReset, minAdd, minMaxCompute)
#else
#define CF createMaxAggregate
#define R3 FNS(maxReset, maxAdd, minMaxCompute)
#endif
#define ENSS(X) X(C15, "a MIN/MAX over the chosen column with a result of the column's size", R3 && AF->colSize == IN.sz && ((struct minMaxState *)AF->state)->colNum == IN.col && SZ(((struct minMaxState *)AF->state)->current) >= ab(IN.sz))
CONTRACT(embedDBAggregateFunc *, CF, (uint8_t c, int8_t s))
UNIT(embedDBAggregateFunc *, CF, (IN.col, IN.sz))
#endif
#ifdef O_avg
#define ENSS(X) X(C15, "an AVG over the chosen column with a 4- or 8-byte floating result", FNS(avgReset, avgAdd, avgCompute) && AF->colSize == (IN.sz <= 4 ? 4 : 8) && ((struct avgState *)AF->state)->colNum == IN.col && SZ(AF->state) >= sizeof(struct avgState))
CONTRACT(embedDBAggregateFunc *, createAvgAggregate, (uint8_t c, int8_t s))
UNIT(embedDBAggregateFunc *, createAvgAggregate, (IN.col, IN.sz))
#endif
#define OPOK(i, nx, inp) (OPR != NULL && OPR->init == i && OPR->next == nx && OPR->input == inp && OPR->recordBuffer == NULL)
#ifdef O_agg
#define AS ((struct aggregateInfo *)OPR->state)
#define ENSS(X) X(C15, "an aggregation over the given input, group relation and functions", OPOK(initAggregate, nextAggregate, &I1) && OPR->schema == NULL && AS->groupfunc == groupf && AS->functions == FN && AS->functionsLength == IN.n && AS->lastRecordBuffer == NULL)
CONTRACT(embedDBOperator *, createAggregateOperator, (embedDBOperator *input, int8_t (*groupfunc)(const void *lastRecord, const void *record), embedDBAggregateFunc *functions, uint32_t functionsLength))
UNIT(embedDBOperator *, createAggregateOperator, (&I1, groupf, FN, IN.n))
#endif
#ifdef O_join
#define ENSS(X) X(C16, "a join of the two given inputs", OPOK(initKeyJoin, nextKeyJoin, &I1) && OPR->schema == NULL && ((struct keyJoinInfo *)OPR->state)->input2 == &I2)
CONTRACT(embedDBOperator *, createKeyJoinOperator, (embedDBOperator *a, embedDBOperator *b))
UNIT(embedDBOperator *, createKeyJoinOperator, (&I1, &I2))
#endif
#ifdef O_proj
SPEC vbool colsok(const u8 *s) { vbool ok = s[0] == IN.n; for (int i = 0; i < 8; i++) if (i < IN.n && s[1 + i] != IN.cols[i]) ok = 0; return ok; }
#define ENSS(X) X(C14, "a projection of the given input onto a private copy of the column list", OPOK(initProjection, nextProjection, &I1) && OPR->schema == NULL && colsok(OPR->state))
CONTRACT(embedDBOperator *, createProjectionOperator, (embedDBOperator *a, uint8_t n, uint8_t *c))
UNIT(embedDBOperator *, createProjectionOperator, (&I1, IN.n, COLSB))
#endif
#ifdef O_sel
#define SS ((struct selectionInfo *)OPR->state)
#define ENSS(X) X(C13, "a selection on the given input with the given column, operator and operand", OPOK(initSelection, nextSelection, &I1) && OPR->schema == NULL && SS->colNum == (int8_t)IN.col && SS->operation == IN.op && SS->compVal == CV)
CONTRACT(embedDBOperator *, createSelectionOperator, (embedDBOperator *a, int8_t c, int8_t o, void *v))
UNIT(embedDBOperator *, createSelectionOperator, (&I1, IN.col, IN.op, CV))
#endif
#ifdef O_scan
SPEC vbool schok(const embedDBSchema *s) { return s != NULL && s != &S && s->numCols == 2 && s->columnSizes[0] == 4 && s->columnSizes[1] == -2; }
#define ENSS(X) X(C14, "a scan of the given store and iterator with a private copy of the schema", IMP(IN.which == 0, OPOK(initTableScan, nextTableScan, NULL) && schok(OPR->schema) && ((void **)OPR->state)[0] == &DB && ((void **)OPR->state)[1] == &IT)) \
  X(C14, "a scan without store, iterator or schema is refused", IMP(IN.which >= 1 && IN.which <= 3, OPR == NULL))
CONTRACT(embedDBOperator *, createTableScanOperator, (embedDBState *s, embedDBIterator *it, embedDBSchema *sc))
UNIT(embedDBOperator *, createTableScanOperator, (IN.which == 1 ? NULL : &DB, IN.which == 2 ? NULL : &IT, IN.which == 3 ? NULL : &S))
#endif
#include "vf_end.h"
