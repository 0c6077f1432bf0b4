ID='put_count_8bit'; PROP='C02'
NEEDS='pages with more than 127 records'
BREAKS='embedDBPut keeps the number of buffered records in an int8_t, so on pages with 128 and more records earlier records are overwritten and the key order check reads the wrong place.'
EDITS=[('src/embedDB/embedDB.c', 'count_t count = EMBEDDB_GET_COUNT(state->buffer);\n    if (state->nextDataPageId > 0 || count > 0) {', 'int8_t count = EMBEDDB_GET_COUNT(state->buffer);\n    if (state->nextDataPageId > 0 || count > 0) {')]
HDR=open('/verif/tools/plants/mem.h').read()
DEMO=r'''
#include "demo.h"
int main(void) { mf *d = m_new(16, 4096); embedDBState *s = m_db(d, 0, 0, 4096, EMBEDDB_RESET_DATA | EMBEDDB_USE_BINARY_SEARCH, 4, 0); s->buffer = (char *)calloc(10, 4096) + 4096;
  CK(embedDBInit(s, 1) == 0);
  uint32_t k, v; for (k = 1; k <= 400; k++) { v = k + 7; CK(embedDBPut(s, &k, &v) == 0); }
  for (k = 1; k <= 400; k++) CK(embedDBGet(s, &k, &v) == 0 && v == k + 7);
  return 0; }
'''
