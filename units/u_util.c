/* key/data comparators are the signed integer order; bitmap summaries never exclude a value that lies in the queried range */
#include "embedDBUtility.h"
#include "vf.h"
static struct inputs { uint64_t a, b, v; u8 bm[8]; u8 hasmin, hasmax; } IN;
static u8 A[9], B[9], V[9], BM[8];
#ifdef INT16V
#define VAL(x) ((int16_t)(x))
#elif defined(INT64V)
#define VAL(x) ((int64_t)(x))
#else
#define VAL(x) ((int32_t)(x))
#endif
#ifndef BW
#define BW 1
#endif
#ifndef OFFS
#define OFFS 0
#endif
#define PA (A + OFFS)
#define PB (B + OFFS)
static void put(u8 *d, uint64_t x) { for (int i = 0; i < 8; i++) d[i] = (u8)(x >> (8 * i)); }
static void setup(void) { put(PA, IN.a); put(PB, IN.b); put(V, IN.v); for (int i = 0; i < 8; i++) BM[i] = IN.bm[i]; }
#define LT(x, y) (VAL(x) < VAL(y))
#ifdef O_cmp
#define REQS(X) X(1)
#define ENSS(X) X(C20, "the comparison is negative, zero or positive exactly as the first value is less, equal or greater", RET == (LT(IN.a, IN.b) ? -1 : LT(IN.b, IN.a) ? 1 : 0))
#define COVS(X) X("less", CRET == -1) X("equal", CRET == 0) X("greater", CRET == 1)
#define ASSIGNS
CONTRACT(int8_t, FN, (void *a, void *b))
UNIT(int8_t, FN, (PA, PB))
#else
/* bucket of a value: the bit that an update of an empty bitmap sets; updates are monotone in the value */
static u8 EB[8], EB2[8];
SPEC int ones(const u8 *m) { int c = 0; for (int i = 0; i < BW; i++) for (int j = 0; j < 8; j++) c += (m[i] >> j) & 1; return c; }
SPEC vbool subset(const u8 *x, const u8 *y) { vbool ok = 1; for (int i = 0; i < BW; i++) if (x[i] & ~y[i]) ok = 0; return ok; }
SPEC vbool overlap(const u8 *x, const u8 *y) { vbool ok = 0; for (int i = 0; i < BW; i++) if (x[i] & y[i]) ok = 1; return ok; }
SPEC vbool eq8(const u8 *x, const u8 *y) { vbool ok = 1; for (int i = 0; i < 8; i++) if (x[i] != y[i]) ok = 0; return ok; }
#ifdef O_update
/* the update of IN.bm by IN.a keeps the bitmap's bits, and adds exactly the bucket bit of the value */
static vbool mono(void) { return 1; }
#define REQS(X) X(1)
SPEC vbool onlyone(void) { vbool ok = 1; int extra = 0; for (int i = 0; i < 8; i++) { if (IN.bm[i] & ~BM[i]) ok = 0; for (int j = 0; j < 8; j++) extra += ((BM[i] & ~IN.bm[i]) >> j) & 1; } return ok && extra <= 1; }
SPEC vbool outside(void) { vbool ok = 1; for (int i = 0; i < 8; i++) if (i >= BW && BM[i] != IN.bm[i]) ok = 0; return ok; }
SPEC vbool empty(void) { vbool ok = 1; for (int i = 0; i < BW; i++) if (IN.bm[i]) ok = 0; return ok; }
#define ENSS(X) X(C04, "an update keeps every bit and adds at most one", onlyone()) X(C04, "an update of an empty bitmap sets exactly one bit", IMP(empty(), ones(BM) == 1)) X(C04_C19, "an update stays inside the bitmap", outside())
#define COVS(X) X("new bit", !eq8(BM, IN.bm)) X("bit already set", eq8(BM, IN.bm))
#define ASSIGNS __CPROVER_object_whole(BM)
CONTRACT_VOID(FN, (void *d, void *bm))
UNIT_VOID(FN, (PA, BM))
#endif
#ifdef O_range
/* V in [A, B] => the range bitmap built from (A, B) overlaps the bitmap of V */
void UPD(void *d, void *bm);
static void setup2(void) { setup(); for (int i = 0; i < 8; i++) EB[i] = 0; UPD(V, EB); }
#define setup setup2
#define REQS(X) X(IN.hasmin <= 1 && IN.hasmax <= 1) X(IMP(IN.hasmin, !LT(IN.v, IN.a))) X(IMP(IN.hasmax, !LT(IN.b, IN.v)))
SPEC vbool outside(void) { vbool ok = 1; for (int i = 0; i < 8; i++) if (i >= BW && BM[i] != IN.bm[i]) ok = 0; return ok; }
#define ENSS(X) X(C04, "a value inside the queried range is never excluded by the bitmaps", overlap(EB, BM)) X(C04_C19, "the range bitmap stays inside its storage", outside())
#define COVS(X) X("both bounds", IN.hasmin && IN.hasmax) X("no bounds", !IN.hasmin && !IN.hasmax) X("lower", IN.hasmin && !IN.hasmax)
#define ASSIGNS __CPROVER_object_whole(BM)
CONTRACT_VOID(FN, (void *mi, void *ma, void *bm))
UNIT_VOID(FN, (IN.hasmin ? PA : NULL, IN.hasmax ? PB : NULL, BM))
#endif
#ifdef O_in
void UPD(void *d, void *bm);
static void setup2(void) { setup(); for (int i = 0; i < 8; i++) EB[i] = 0; UPD(PA, EB); }
#define setup setup2
#define REQS(X) X(1)
#define ENSS(X) X(C04, "a value is reported absent only if its bit is not set", (RET != 0) == overlap(EB, IN.bm)) X(C04, "a membership test leaves the bitmap unchanged", eq8(BM, IN.bm))
#define COVS(X) X("in", CRET != 0) X("out", CRET == 0)
#define ASSIGNS
CONTRACT(int8_t, FN, (void *d, void *bm))
UNIT(int8_t, FN, (PA, BM))
#endif
#endif
#include "vf_end.h"
