/* compareUnsignedNumbers / compareSignedNumbers / compare : exact order of little-endian numbers of 1..W bytes */
#include "advancedQueries.h"
#include "vf.h"
#ifndef W
#define W 127
#endif
int8_t compareUnsignedNumbers(const void *num1, const void *num2, int8_t numBytes);
int8_t compareSignedNumbers(const void *num1, const void *num2, int8_t numBytes);
int8_t compare(void *a, uint8_t operation, void *b, int8_t isSigned, int8_t numBytes);
static struct inputs { u8 a[W], b[W]; int8_t n; uint8_t op; int8_t sg; } IN;
static u8 A[W], B[W];
/* spec: scan upwards, the last difference decides; sign bit of the top byte inverted for two's complement */
static int order(const u8 *a, const u8 *b, int n, int sg) {
  int r = 0;
  for (int i = 0; i < n; i++) {
    unsigned x = a[i], y = b[i];
    if (sg && i == n - 1) { x ^= 0x80; y ^= 0x80; }
    if (x != y) r = x < y ? -1 : 1;
  }
  return r;
}
static int spec_cmp(int op, int o) {
  return op == SELECT_GT ? o > 0 : op == SELECT_LT ? o < 0 : op == SELECT_GTE ? o >= 0 : op == SELECT_LTE ? o <= 0
       : op == SELECT_EQ ? o == 0 : op == SELECT_NEQ ? o != 0 : 0;
}
SPEC vbool same(void) { for (int i = 0; i < W; i++) if (A[i] != IN.a[i] || B[i] != IN.b[i]) return 0; return 1; }
static void setup(void) { for (int i = 0; i < W; i++) { A[i] = IN.a[i]; B[i] = IN.b[i]; } }
#define REQS(X) X(IN.n >= 1 && IN.n <= W)
#define ASSIGNS
#if defined(F_CMPU)
#define ENSS(X) X(C13, "unsigned comparison returns the numeric order of the two values", RET == order(A, B, IN.n, 0)) X(C13, "operands unchanged", same())
#define COVS(X) X("less", CRET < 0) X("equal", CRET == 0) X("greater", CRET > 0) X("full width", IN.n == W)
CONTRACT(int8_t, compareUnsignedNumbers, (const void *num1, const void *num2, int8_t numBytes))
UNIT(int8_t, compareUnsignedNumbers, (A, B, IN.n))
#elif defined(F_CMPS)
#define ENSS(X) X(C13, "signed comparison returns the numeric order of the two values", RET == order(A, B, IN.n, 1)) X(C13, "operands unchanged", same())
#define COVS(X) X("less", CRET < 0) X("equal", CRET == 0) X("greater", CRET > 0) X("full width", IN.n == W)
CONTRACT(int8_t, compareSignedNumbers, (const void *num1, const void *num2, int8_t numBytes))
UNIT(int8_t, compareSignedNumbers, (A, B, IN.n))
#else
#define ENSS(X) X(C13, "each of the six predicates equals its mathematical meaning, unknown codes are false", RET == spec_cmp(IN.op, order(A, B, IN.n, IN.sg != 0))) X(C13, "operands unchanged", same())
#define COVS(X) X("true", CRET == 1) X("false", CRET == 0) X("signed gt", CRET == 1 && IN.sg && IN.op == SELECT_GT) X("unknown op", IN.op > 5)
CONTRACT(int8_t, compare, (void *a, uint8_t operation, void *b, int8_t isSigned, int8_t numBytes))
UNIT(int8_t, compare, (A, IN.op, B, IN.sg, IN.n))
#endif
#include "vf_end.h"
