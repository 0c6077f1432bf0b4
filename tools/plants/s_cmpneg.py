ID='signed_compare_negatives'; PROP='C13'
NEEDS='a selection on a signed column where both the column value and the operand are negative'
BREAKS='compareSignedNumbers reverses the order of two negative values (as if they were stored as sign and magnitude).'
EDITS=[('src/query-interface/advancedQueries.c','''    // Same sign, perform regular byte-wise comparison
    for (int8_t i = numBytes - 1; i >= 0; i--) {
        if (bytes1[i] < bytes2[i]) {
            return -1;
        } else if (bytes1[i] > bytes2[i]) {
            return 1;
        }
    }''','''    // Same sign, perform regular byte-wise comparison
    for (int8_t i = numBytes - 1; i >= 0; i--) {
        if (bytes1[i] < bytes2[i]) {
            return sign1 ? 1 : -1;
        } else if (bytes1[i] > bytes2[i]) {
            return sign1 ? -1 : 1;
        }
    }''')]
DEMO=r'''
#include "advancedQueries.h"
#include <stdio.h>
static int pos; static uint8_t rec[8];
static int32_t V[] = {-7, -3, -1, 0, 2, -3, -100000};
static void in_init(embedDBOperator *o) {}
static int8_t in_next(embedDBOperator *o) { if (pos == 7) return 0; memcpy(rec, &pos, 4); memcpy(rec + 4, &V[pos], 4); pos++; return 1; }
static void in_close(embedDBOperator *o) {}
int main(void) {
  int8_t cols[] = {4, -4}; embedDBSchema sc; sc.numCols = 2; sc.columnSizes = cols;
  for (int k = 0; k < 7; k++) {
    embedDBOperator in; memset(&in, 0, sizeof in); in.init = in_init; in.next = in_next; in.close = in_close; in.schema = &sc; in.recordBuffer = rec;
    pos = 0; int32_t v = V[k];
    embedDBOperator *op = createSelectionOperator(&in, 1, SELECT_LT, &v);
    op->init(op);
    for (int i = 0; i < 7; i++) if (V[i] < v) { int32_t g = 0; if (!op->next(op) || (memcpy(&g, (char *)op->recordBuffer + 4, 4), g != V[i])) { printf("missing %d < %d\n", V[i], v); return 1; } }
    if (op->next(op)) { printf("extra record for < %d\n", v); return 1; }
  }
  return 0;
}
'''
