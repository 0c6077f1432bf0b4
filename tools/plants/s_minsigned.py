ID='min_signed_column'; PROP='C15'
NEEDS='MIN over a signed column that holds negative values'
BREAKS='minAdd determines the signedness after the absolute value was taken, so negative values compare as huge unsigned numbers and are never the minimum.'
EDITS=[('src/query-interface/advancedQueries.c','''    int8_t colSize = inputSchema->columnSizes[state->colNum];
    int8_t isSigned = embedDB_IS_COL_SIGNED(colSize);
    colSize = abs(colSize);
    void* newValue = (int8_t*)record + getColOffsetFromSchema(inputSchema, state->colNum);
    if (compare(newValue, SELECT_LT, state->current, isSigned, colSize)) {''','''    int8_t colSize = abs(inputSchema->columnSizes[state->colNum]);
    int8_t isSigned = embedDB_IS_COL_SIGNED(colSize);
    void* newValue = (int8_t*)record + getColOffsetFromSchema(inputSchema, state->colNum);
    if (compare(newValue, SELECT_LT, state->current, isSigned, colSize)) {''')]
DEMO=r'''
#include "advancedQueries.h"
#include <stdio.h>
int main(void) {
  int8_t cols[] = {4, -2}; embedDBSchema sc; sc.numCols = 2; sc.columnSizes = cols;
  embedDBAggregateFunc *m = createMinAggregate(1, -2);
  uint8_t rec[6] = {0}; int16_t vals[] = {5, -3, 2, -300, 100}, want = 5, out;
  m->reset(m, &sc); m->colNum = 0;
  int8_t oc[] = {-2}; embedDBSchema os; os.numCols = 1; os.columnSizes = oc;
  for (int i = 0; i < 5; i++) { memcpy(rec + 4, &vals[i], 2); m->add(m, &sc, rec); if (vals[i] < want) want = vals[i]; m->compute(m, &os, &out, rec); if (out != want) { printf("min %d, expected %d\n", out, want); return 1; } }
  return 0;
}
'''
