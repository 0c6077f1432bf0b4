ID='projection_wide_record'; PROP='C14'
NEEDS='a projected record wider than 255 bytes'
BREAKS='nextProjection keeps the output position in a uint8_t, so columns beyond offset 255 of the projected record overwrite its start.'
EDITS=[('src/query-interface/advancedQueries.c','        uint16_t curColPos = 0;\n        for (uint8_t colIdx','        uint8_t curColPos = 0;\n        for (uint8_t colIdx')]
DEMO=r'''
#include "advancedQueries.h"
#include <stdio.h>
static uint8_t r1[512];
static void in_init(embedDBOperator *o) {}
static void in_close(embedDBOperator *o) {}
static int8_t nx1(embedDBOperator *o) { return 1; }
int main(void) {
  int8_t c1[] = {4, 100, 100, 100, 7};
  embedDBSchema s1; s1.numCols = 5; s1.columnSizes = c1;
  for (int i = 0; i < 512; i++) r1[i] = i * 7 + 1;
  embedDBOperator a; memset(&a, 0, sizeof a);
  a.init = in_init; a.close = in_close; a.next = nx1; a.schema = &s1; a.recordBuffer = r1;
  uint8_t cols[] = {1, 2, 3, 4};
  embedDBOperator *op = createProjectionOperator(&a, 4, cols);
  op->init(op);
  if (!op->next(op)) return 1;
  if (memcmp(op->recordBuffer, r1 + 4, 307)) { printf("wrong projected record\n"); return 1; }
  return 0;
}
'''
