ID='agg_group_256'; PROP='C15'
NEEDS='a group whose length is a multiple of 256'
BREAKS='nextAggregate counts the records of a group in an int8_t; a group of exactly 256 records wraps to 0 and the aggregation reports the end of its input instead of the group.'
EDITS=[('src/query-interface/advancedQueries.c','''            recordsInGroup = 1;
            for (int i = 0; i < state->functionsLength; i++) {
                if (state->functions[i].add != NULL) {
                    state->functions[i].add(state->functions + i, input->schema, input->recordBuffer);''','''            recordsInGroup++;
            for (int i = 0; i < state->functionsLength; i++) {
                if (state->functions[i].add != NULL) {
                    state->functions[i].add(state->functions + i, input->schema, input->recordBuffer);''')]
DEMO=r'''
#include "advancedQueries.h"
#include <stdio.h>
static int left, id; static uint32_t rec[2];
static void in_init(embedDBOperator *o) {}
static int8_t in_next(embedDBOperator *o) { if (!left) return 0; left--; rec[0] = id++; rec[1] = 7; return 1; }
static void in_close(embedDBOperator *o) {}
static int8_t same(const void *a, const void *b) { return 1; }
int main(void) {
  for (int n = 1; n <= 600; n++) {
    int8_t cols[] = {4, 4}; embedDBSchema sc; sc.numCols = 2; sc.columnSizes = cols;
    embedDBOperator in; memset(&in, 0, sizeof in); in.init = in_init; in.next = in_next; in.close = in_close; in.schema = &sc; in.recordBuffer = rec;
    left = n; id = 0;
    embedDBAggregateFunc *c = createCountAggregate();
    embedDBOperator *op = createAggregateOperator(&in, same, c, 1);
    op->init(op);
    if (!op->next(op) || *(uint32_t *)op->recordBuffer != n) { printf("group of %d records not reported\n", n); return 1; }
    if (op->next(op)) { printf("extra group after %d records\n", n); return 1; }
  }
  return 0;
}
'''
