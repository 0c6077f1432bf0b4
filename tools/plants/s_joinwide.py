ID='join_wide_left_record'; PROP='C16'
NEEDS='a join whose left records are wider than 127 bytes'
BREAKS='nextKeyJoin keeps the size of the left record in an int8_t, so for wide left records the copy sizes and the place of the right record are wrong.'
EDITS=[('src/query-interface/advancedQueries.c','            uint16_t record1Size = getRecordSizeFromSchema(schema1);','            uint8_t record1Size = getRecordSizeFromSchema(schema1);')]
DEMO=r'''
#include "advancedQueries.h"
#include <stdio.h>
static uint8_t r1[512], r2[512]; static int n1, n2;
static void in_init(embedDBOperator *o) {}
static void in_close(embedDBOperator *o) {}
static int8_t nx1(embedDBOperator *o) { if (n1++) return 0; return 1; }
static int8_t nx2(embedDBOperator *o) { if (n2++) return 0; return 1; }
int main(void) {
  for (int w = 1; w <= 3; w++) {
    int8_t c1[] = {4, 100, 100, 100}, c2[] = {4, 3};
    embedDBSchema s1, s2; s1.numCols = w + 1; s1.columnSizes = c1; s2.numCols = 2; s2.columnSizes = c2;
    int L = 4 + 100 * w;
    for (int i = 0; i < 512; i++) { r1[i] = i * 7 + 1; r2[i] = i * 11 + 3; }
    memcpy(r1, "\1\2\3\4", 4); memcpy(r2, "\1\2\3\4", 4);
    embedDBOperator a, b; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b); n1 = n2 = 0;
    a.init = b.init = in_init; a.close = b.close = in_close; a.next = nx1; b.next = nx2; a.schema = &s1; b.schema = &s2; a.recordBuffer = r1; b.recordBuffer = r2;
    embedDBOperator *op = createKeyJoinOperator(&a, &b);
    op->init(op);
    if (!op->next(op)) { printf("no match\n"); return 1; }
    if (memcmp(op->recordBuffer, r1, L) || memcmp((char *)op->recordBuffer + L, r2, 7)) { printf("wrong joined record, left width %d\n", L); return 1; }
  }
  return 0;
}
'''
