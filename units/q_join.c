/* nextKeyJoin, from an arbitrary mid-join state: an input row is passed over only when it cannot match any row still to
 * come on the other side, a returned row is the concatenation of two rows with equal keys, and no pair is returned twice. */
#include "q_common.h"
#ifndef K
#define K 3
#endif
#ifndef KW
#define KW 4
#endif
#ifdef WIDE   /* a wide left record: offsets and sizes beyond 8 bits */
#define R1 (KW + 302)
#define NC1 5
#define COLS1 {KW, -2, 100, -100, 100}
#else
#define R1 (KW + 2)
#define NC1 2
#define COLS1 {KW, -2}
#endif
#define R2 (KW + 3)
int8_t nextKeyJoin(embedDBOperator *op);
struct keyJoinInfo { embedDBOperator *input2; int8_t firstCall; };
static struct inputs { u8 first; u8 a[K + 1][R1]; u8 b[K + 1][R2]; u8 na, nb; uint16_t probe; /* any byte position */ } IN;
static embedDBOperator OP, I1, I2; static embedDBSchema S1, S2, SO; static const int8_t C1[NC1] = COLS1; static int8_t sz1[NC1], sz2[2], szo[NC1 + 2]; static struct keyJoinInfo KJ;
static int pa, pb, ea, eb, bad;   /* current rows (index; -1 before the first), ended flags, rule broken */
SPEC uint64_t keyof(const u8 *r) { uint64_t v = 0; for (int i = 0; i < KW; i++) v |= (uint64_t)r[i] << (8 * i); return v; }
SPEC vbool sorted(void) { vbool ok = 1; for (int i = 0; i < K; i++) { if (keyof(IN.a[i]) >= keyof(IN.a[i + 1])) ok = 0; if (keyof(IN.b[i]) >= keyof(IN.b[i + 1])) ok = 0; } return ok; }
static uint64_t ka[K + 1], kb[K + 1];
SPEC uint64_t KA(int p) { uint64_t r = 0; for (int i = 0; i <= K; i++) if (i == p) r = ka[i]; return r; }
SPEC uint64_t KB(int p) { uint64_t r = 0; for (int i = 0; i <= K; i++) if (i == p) r = kb[i]; return r; }
/* ghost progress: rows with index < pa on side 1 (resp. pb) have been passed over */
int8_t next1(embedDBOperator *o) {
  if (ea) return 0;
  if (pa >= 0 && !(VLG.w1 == 1)) {           /* row pa was never matched: it may only be dropped if nothing left on side 2 can match it */
    if (pb < 0 || !(KA(pa) < KB(pb))) if (!eb) bad = 1;
  }
  if (pa + 1 >= IN.na) { ea = 1; return 0; }
  pa++; VLG.w1 = 0;
  for (int j = 0; j <= K; j++) if (j == pa) memcpy(VIN1, IN.a[j], R1);
  return 1;
}
int8_t next2(embedDBOperator *o) {
  if (eb) return 0;
  if (pb >= 0 && !(VLG.w2 == 1)) {
    if (pa < 0 || !(KB(pb) < KA(pa))) if (!ea) bad = 1;
  }
  if (pb + 1 >= IN.nb) { eb = 1; return 0; }
  pb++; VLG.w2 = 0;
  for (int j = 0; j <= K; j++) if (j == pb) memcpy(VIN2, IN.b[j], R2);
  return 1;
}
static void setup(void) {
  for (int i = 0; i < NC1; i++) sz1[i] = szo[i] = C1[i];
  sz2[0] = szo[NC1] = KW; sz2[1] = szo[NC1 + 1] = 3;
  S1.numCols = NC1; S2.numCols = 2; S1.columnSizes = sz1; S2.columnSizes = sz2; SO.numCols = NC1 + 2; SO.columnSizes = szo;
  I1.schema = &S1; I1.recordBuffer = VIN1; I1.next = next1; I2.schema = &S2; I2.recordBuffer = VIN2; I2.next = next2;
  KJ.input2 = &I2; KJ.firstCall = IN.first;
  OP.schema = &SO; OP.recordBuffer = VOUT; OP.input = &I1; OP.state = &KJ; OP.next = nextKeyJoin;
  for (int i = 0; i <= K; i++) { ka[i] = keyof(IN.a[i]); kb[i] = keyof(IN.b[i]); }
  ea = eb = bad = 0; VLG.w1 = VLG.w2 = 0;
  pa = pb = IN.first ? -1 : 0;
  if (!IN.first) {
    memcpy(VIN1, IN.a[0], R1);
    memcpy(VIN2, IN.b[0], R2);
    if (keyof(IN.a[0]) == keyof(IN.b[0])) VLG.w1 = VLG.w2 = 1;   /* that pair was returned by the previous call */
  }
}
SPEC vbool catok(void) {
  vbool ok = pa >= 0 && pb >= 0 && pa <= K && pb <= K;
  if (ok) { for (int j = 0; j <= K; j++) { if (j == pa && VOUT[IN.probe] != (IN.probe < R1 ? IN.a[j][IN.probe] : VOUT[IN.probe])) ok = 0; if (j == pb && IN.probe < R2 && VOUT[R1 + IN.probe] != IN.b[j][IN.probe]) ok = 0; } 
    if (KA(pa) != KB(pb)) ok = 0; }
  return ok; }
SPEC vbool frame(void) { return sz1[0] == KW && sz2[0] == KW && sz1[1] == -2 && sz2[1] == 3 && S1.numCols == NC1 && S2.numCols == 2 && SO.numCols == NC1 + 2 && KJ.input2 == &I2 && !KJ.firstCall; }
#define REQS(X) X(IN.probe < R1 || IN.probe < R2) X(IN.first <= 1) X(IN.na <= K + 1 && IN.nb <= K + 1) X(IMP(!IN.first, IN.na >= 1 && IN.nb >= 1 && keyof(IN.a[0]) == keyof(IN.b[0]))) X(sorted())
#define ENSS(X) X(C16, "no row is passed over while it could still match", !bad) \
  X(C16, "a returned row is the concatenation of one row of each input with equal keys", IMP(RET, catok())) \
  X(C16, "no pair is returned twice", IMP(RET, VLG.w1 == 0 && VLG.w2 == 0)) \
  X(C16, "the join ends only when one input is exhausted", IMP(!RET, ea || eb)) \
  X(C16, "join state and schemas stay valid", frame())
#define COVS(X) X("match", CRET == 1) X("end", CRET == 0) X("skips", CRET == 1 && pa >= (K > 1 ? 2 : 1)) X("first", CRET == 1 && IN.first)
#define ASSIGNS VLG, pa, pb, ea, eb, bad, KJ.firstCall, __CPROVER_object_whole(VIN1), __CPROVER_object_whole(VIN2), __CPROVER_object_whole(VOUT)
CONTRACT(int8_t, nextKeyJoin, (embedDBOperator *op))
UNIT(int8_t, nextKeyJoin, (&OP))
#include "vf_end.h"
