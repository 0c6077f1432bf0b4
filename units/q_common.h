/* ghost operators and schemas shared by the query-layer units */
#include "advancedQueries.h"
#include "vf.h"
#ifndef EMBEDDB_VERIFY
static struct vlg {
  int n1, n2, skipped, done, have, flag, emitted;
  int64_t acc; uint64_t k1, k2; uint64_t wkey; int w1, w2;
} VLG;
#else
struct vlg VLG;
#endif
#ifndef SCH
#define SCH -4,8,3
#endif
#ifndef RBMAX
#define RBMAX 64
#endif
unsigned char VIN1[RBMAX], VIN2[RBMAX], VOUT[2 * RBMAX], VLAST[RBMAX];
static const int8_t SCHV[] = {SCH};
#define NC ((int)sizeof(SCHV))
static int absz(int8_t c) { return c < 0 ? -c : c; }
static int soff(const int8_t *s, int col) { int o = 0; for (int i = 0; i < col; i++) o += absz(s[i]); return o; }
#define RECSZ soff(SCHV, NC)
/* three-way order of two little-endian two's-complement (sg) or unsigned numbers of n bytes */
static int order(const u8 *a, const u8 *b, int n, int sg) {
  int r = 0;
  for (int i = 0; i < n; i++) {
    unsigned x = a[i], y = b[i];
    if (sg && i == n - 1) { x ^= 0x80; y ^= 0x80; }
    if (x != y) r = x < y ? -1 : 1;
  }
  return r;
}
static int spec_cmp(int op, int o) {
  return op == SELECT_GT ? o > 0 : op == SELECT_LT ? o < 0 : op == SELECT_GTE ? o >= 0 : op == SELECT_LTE ? o <= 0
       : op == SELECT_EQ ? o == 0 : op == SELECT_NEQ ? o != 0 : 0;
}
SPEC vbool eqn(const u8 *a, const u8 *b, int n) { for (int i = 0; i < n; i++) if (a[i] != b[i]) return 0; return 1; }
