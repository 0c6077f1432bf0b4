/* Dual-mode contract harness support.
 *
 * A unit file includes this header, declares `struct inputs { ... };`, then
 *
 *   #define REQS(X)  X(expr) ...                       preconditions
 *   #define ENSS(X)  X(C13, "name", expr) ...          postconditions (named obligations)
 *   #define COVS(X)  X("name", expr) ...               reachability (vacuity) goals
 *   #define ASSIGNS  lvalue, ...                       frame of the function under contract
 *   CONTRACT(type, function, (parameters))
 *   static void setup(void) { ... build state from IN ... }
 *   UNIT(type, function, (arguments))
 *
 * Under CBMC the macros are __CPROVER_requires / __CPROVER_ensures / __CPROVER_assigns on the real
 * function's declaration (enforced with goto-instrument --dfcc --enforce-contract).  With -DNATIVE
 * the same predicates are evaluated by gcc-compiled code around the real gcc-compiled function, with
 * IN taken from a verifier counterexample: that is the replay.
 */
#ifndef VF_H
#define VF_H
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
typedef unsigned char u8;
typedef _Bool vbool;

#define SPEC static  /* called directly from a contract clause: its own callees are inlined before instrumentation */
#define IMP(a, b) (!(a) || (b))

#ifdef NATIVE
#include <stdio.h>
#define VF_ASSUME(e) do { if (!(e)) { printf("ASSUME-FALSE %s\n", #e); exit(3); } } while (0)
#define VF_CAPACITY(e) do { if (!(e)) { printf("CAPACITY %s\n", #e); exit(4); } } while (0)
#define VF_ASSERT(tag, name, e) do { if (!(e)) { printf("FAIL %s | %s\n", #tag, name); vf_failed = 1; } } while (0)
static int vf_failed;
#define RET vf_ret
#define CONTRACT(T, F, PARAMS)
#define CONTRACT_VOID(F, PARAMS)
#define STUB_CONTRACT(DECL, ...)
#else
#define VF_ASSUME(e) __CPROVER_assume(e)
#define VF_CAPACITY(e) __CPROVER_assert(e, "CAPACITY " #e)
#define VF_ASSERT(tag, name, e) __CPROVER_assert(e, "OB " #tag " | " name)
#define RET __CPROVER_return_value
#define VF_REQ(e) __CPROVER_requires(e)
#define VF_ENS(tag, name, e) __CPROVER_ensures(e)
#define CONTRACT(T, F, PARAMS) T F PARAMS REQS(VF_REQ) ENSS(VF_ENS) __CPROVER_assigns(ASSIGNS) ;
#define CONTRACT_VOID(F, PARAMS) void F PARAMS REQS(VF_REQ) ENSS(VF_ENS) __CPROVER_assigns(ASSIGNS) ;
/* contract of a callee that replaces its body at call sites */
#define STUB_CONTRACT(DECL, ...) DECL __VA_ARGS__ ;
#endif

#ifdef NATIVE
#define VF_LIST(tag, name, e) printf("ENS %s | %s\n", #tag, name);
#define VF_LISTREQ(e) printf("REQ %s\n", #e);
#define VF_LISTCOV(name, e) printf("COV %s\n", name);
#define VF_CHKREQ(e) if (!(e)) { printf("REQ-FALSE %s\n", #e); return 3; }
#define VF_CHKENS(tag, name, e) if (!(e)) { printf("FAIL %s | %s\n", #tag, name); vf_failed = 1; }
#define VF_SHOWCOV(name, e) if (e) printf("COVERED %s\n", name);
void vf_load_inputs(void);
#define UNIT_MAIN(CALLSTMT)                                              \
  int main(int argc, char **argv) {                                      \
    if (argc > 1) { REQS(VF_LISTREQ) ENSS(VF_LIST) COVS(VF_LISTCOV) return 0; } \
    vf_load_inputs();                                                    \
    setup();                                                             \
    REQS(VF_CHKREQ)                                                      \
    CALLSTMT                                                             \
    ENSS(VF_CHKENS)                                                      \
    COVS(VF_SHOWCOV)                                                     \
    if (vf_failed) { printf("CONFIRMED\n"); return 1; }                  \
    printf("NOT-CONFIRMED\n"); return 0; }
#define CRET vf_ret
#define UNIT(T, F, ARGS) UNIT_MAIN(T vf_ret = F ARGS; (void)vf_ret;)
#define UNIT_VOID(F, ARGS) UNIT_MAIN(F ARGS;)
#else
#define CRET vf_ret
#define VF_COV(name, e) __CPROVER_assert(!(e), "COVER " name);
#define UNIT(T, F, ARGS)                       \
  void harness(void) {                         \
    struct inputs vf_x; IN = vf_x;            \
    setup();                                   \
    T vf_ret = F ARGS;                         \
    COVS(VF_COV)                               \
  }
#define UNIT_VOID(F, ARGS)                     \
  void harness(void) {                         \
    struct inputs vf_x; IN = vf_x;            \
    setup();                                   \
    F ARGS;                                    \
    COVS(VF_COV)                               \
  }
#endif
#endif
