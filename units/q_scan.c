/* table scan: each row is key followed by data, as delivered by the store's iterator; the scan ends when the iterator ends */
#include "q_common.h"
#ifndef KS
#define KS 4
#endif
#ifndef DS
#define DS 7
#endif
int8_t nextTableScan(embedDBOperator *op); void initTableScan(embedDBOperator *op);
static struct inputs { u8 key[KS], data[DS]; u8 more; int8_t sz[3]; u8 n; u8 nosch; u8 ks, ds; u8 out[KS + DS + 4]; } IN;
static embedDBOperator OP; static embedDBSchema S; static int8_t sz[3]; static embedDBState DB; static embedDBIterator IT; static void *ST[2]; static int calls, badargs;
int8_t embedDBNext(embedDBState *s, embedDBIterator *it, void *k, void *d) {
  calls++; if (s != &DB || it != &IT) badargs = 1;
  if (!IN.more) return 0;
  for (int i = 0; i < KS; i++) ((u8 *)k)[i] = IN.key[i];
  for (int i = 0; i < DS; i++) ((u8 *)d)[i] = IN.data[i];
  return 1;
}
SPEC int ab(int c) { return c < 0 ? -c : c; }
static void setup(void) {
  for (int i = 0; i < 3; i++) sz[i] = IN.sz[i];
  S.numCols = IN.n; S.columnSizes = sz; calls = badargs = 0; ST[0] = &DB; ST[1] = &IT; OP.state = ST; OP.input = NULL; OP.next = nextTableScan;
  OP.schema = IN.nosch ? NULL : &S;
#ifdef O_next
  DB.keySize = KS; DB.dataSize = DS; OP.recordBuffer = VOUT;
  for (int i = 0; i < KS + DS + 4; i++) VOUT[i] = IN.out[i];
#else
  DB.keySize = IN.ks; DB.dataSize = IN.ds; OP.recordBuffer = NULL;
#endif
}
#ifdef O_next
SPEC vbool row(void) { vbool ok = 1; for (int i = 0; i < KS; i++) if (VOUT[i] != IN.key[i]) ok = 0; for (int i = 0; i < DS; i++) if (VOUT[KS + i] != IN.data[i]) ok = 0; for (int i = 0; i < 4; i++) if (VOUT[KS + DS + i] != IN.out[KS + DS + i]) ok = 0; return ok; }
#define REQS(X) X(IN.more <= 1 && IN.nosch <= 1)
#define ENSS(X) X(C14, "a scanned row is the key followed by the data of the next stored record", IMP(RET, row() && IN.more && calls == 1 && !badargs)) \
  X(C14, "the scan ends exactly when the iterator ends", IMP(!IN.nosch, (RET != 0) == IN.more) && IMP(IN.nosch, !RET))
#define COVS(X) X("row", CRET == 1) X("end", CRET == 0)
#define ASSIGNS calls, badargs, __CPROVER_object_whole(VOUT)
CONTRACT(int8_t, nextTableScan, (embedDBOperator *op))
UNIT(int8_t, nextTableScan, (&OP))
#else
SPEC vbool valid(void) { int t = 0; for (int i = 0; i < 3; i++) if (i < IN.n) t += ab(IN.sz[i]); return !IN.nosch && IN.n >= 2 && IN.sz[0] > 0 && IN.sz[0] == IN.ks && t == IN.ks + IN.ds; }
#ifndef NATIVE
#define ROOM (__CPROVER_OBJECT_SIZE(OP.recordBuffer) >= IN.ks + IN.ds)
#else
#define ROOM 1
#endif
#define REQS(X) X(IN.n <= 3) X(IN.nosch <= 1) X(IN.ks <= 8 && IN.ds <= 100) X(IN.sz[0] != -128 && IN.sz[1] != -128 && IN.sz[2] != -128)
#define ENSS(X) X(C14, "a scan is set up iff the schema has a positive-size key column of the store's key size and the store's record size", (OP.recordBuffer != NULL) == valid()) X(C14, "the scan buffer holds a whole record", IMP(OP.recordBuffer != NULL, ROOM))
#define COVS(X) X("accepted", OP.recordBuffer != NULL) X("rejected", OP.recordBuffer == NULL)
#define ASSIGNS OP.recordBuffer
CONTRACT_VOID(initTableScan, (embedDBOperator *op))
UNIT_VOID(initTableScan, (&OP))
#endif
#include "vf_end.h"
