/* schemas: offsets and record size are the running sums of the absolute column sizes; create/copy preserve sizes and signedness */
#include "q_common.h"
#undef NC
#ifndef NC
#define NC 6
#endif
static struct inputs { int8_t sz[NC]; int8_t sg[NC]; uint8_t n, col; } IN;
static embedDBSchema SI; static int8_t szi[NC], sgi[NC];
SPEC int ab(int c) { return c < 0 ? -c : c; }
SPEC int spec_sum(int k) { int o = 0; for (int i = 0; i < NC; i++) if (i < k) o += ab(IN.sz[i]); return o; }
static void setup(void) { for (int i = 0; i < NC; i++) { szi[i] = IN.sz[i]; sgi[i] = IN.sg[i]; } SI.numCols = IN.n; SI.columnSizes = szi; }
SPEC vbool frame(void) { vbool ok = SI.numCols == IN.n && SI.columnSizes == szi; for (int i = 0; i < NC; i++) if (szi[i] != IN.sz[i] || sgi[i] != IN.sg[i]) ok = 0; return ok; }
SPEC vbool szok(void) { vbool ok = 1; for (int i = 0; i < NC; i++) if (i < IN.n && (IN.sz[i] == 0 || IN.sz[i] == -128)) ok = 0; return ok; }
#define FR(X) X(C14, "the given schema is left unchanged", frame())
#define COVS(X) X("several columns", IN.n == NC)
#ifdef O_off
#define REQS(X) X(IN.n >= 1 && IN.n <= NC && IN.col < IN.n && szok())
#define ENSS(X) X(C14, "a column starts after the sizes of all columns before it", RET == spec_sum(IN.col)) FR(X)
#define ASSIGNS
CONTRACT(uint16_t, getColOffsetFromSchema, (embedDBSchema *s, uint8_t c))
UNIT(uint16_t, getColOffsetFromSchema, (&SI, IN.col))
#endif
#ifdef O_size
#define REQS(X) X(IN.n >= 1 && IN.n <= NC && szok())
#define ENSS(X) X(C14, "the record size is the sum of all column sizes", RET == spec_sum(IN.n)) FR(X)
#define ASSIGNS
CONTRACT(uint16_t, getRecordSizeFromSchema, (embedDBSchema *s))
UNIT(uint16_t, getRecordSizeFromSchema, (&SI))
#endif
#ifdef O_copy
SPEC vbool sameas(const embedDBSchema *r) { vbool ok = r != NULL && r->numCols == IN.n && r->columnSizes != szi; if (ok) for (int i = 0; i < NC; i++) if (i < IN.n && r->columnSizes[i] != IN.sz[i]) ok = 0; return ok; }
#define REQS(X) X(IN.n >= 1 && IN.n <= NC && szok())
#define ENSS(X) X(C14, "a copy has the same columns in storage of its own", sameas(RET) && RET != &SI) FR(X)
#define ASSIGNS
CONTRACT(embedDBSchema *, copySchema, (const embedDBSchema *s))
UNIT(embedDBSchema *, copySchema, (&SI))
#endif
#ifdef O_create
SPEC vbool valid(void) { vbool ok = 1; for (int i = 0; i < NC; i++) if (i < IN.n && (IN.sz[i] == 0 || (IN.sg[i] != embedDB_COLUMN_SIGNED && IN.sg[i] != embedDB_COLUMN_UNSIGNED))) ok = 0; return ok; }
SPEC vbool made(const embedDBSchema *r) { vbool ok = r != NULL && r->numCols == IN.n; if (ok) for (int i = 0; i < NC; i++) if (i < IN.n && r->columnSizes[i] != (IN.sg[i] == embedDB_COLUMN_SIGNED ? -IN.sz[i] : IN.sz[i])) ok = 0; return ok; }
SPEC vbool nonneg(void) { vbool ok = 1; for (int i = 0; i < NC; i++) if (i < IN.n && IN.sz[i] < 0) ok = 0; return ok; }
#define REQS(X) X(IN.n >= 1 && IN.n <= NC) X(nonneg())
#define ENSS(X) X(C14, "a schema is created iff every column has a positive size and a valid signedness", (RET != NULL) == valid()) X(C14, "the created schema records sizes and signedness of every column", IMP(RET != NULL, made(RET))) FR(X)
#undef COVS
#define COVS(X) X("created", CRET != NULL) X("rejected", CRET == NULL)
#define ASSIGNS
CONTRACT(embedDBSchema *, embedDBCreateSchema, (uint8_t n, int8_t *a, int8_t *b))
UNIT(embedDBSchema *, embedDBCreateSchema, (IN.n, szi, sgi))
#endif
#ifdef O_buf
#ifndef NATIVE
#define SZ(p) __CPROVER_OBJECT_SIZE(p)
#else
#define SZ(p) 1000000
#endif
SPEC vbool zero(const u8 *p) { vbool ok = p != NULL; if (ok) for (int i = 0; i < NC * 8; i++) if (i < spec_sum(IN.n) && p[i]) ok = 0; return ok; }
SPEC vbool small(void) { vbool ok = 1; for (int i = 0; i < NC; i++) if (i < IN.n && ab(IN.sz[i]) > 8) ok = 0; return ok; }
#define REQS(X) X(IN.n >= 1 && IN.n <= NC && szok() && small())
#define ENSS(X) X(C14_C19, "the allocated buffer holds a whole record and is zeroed", RET != NULL && SZ(RET) >= spec_sum(IN.n) && zero(RET)) FR(X)
#define ASSIGNS
CONTRACT(void *, createBufferFromSchema, (embedDBSchema *s))
UNIT(void *, createBufferFromSchema, (&SI))
#endif
#include "vf_end.h"
