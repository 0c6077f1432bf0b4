ID='lost_mark_not_advanced'; PROP='C08'
NEEDS='a record whose data ends on the last page of the reclaimed block and no later record starts there'
BREAKS='after reclaiming, the oldest-data mark is the last record of the reclaimed block itself, so its lost data is reported as available.'
EDITS=[('src/embedDB/embedDB.c', 'state->minVarRecordId += 1;  // Add one because', 'state->minVarRecordId += 0;  // Add one because')]
HDR=open('/verif/tools/plants/mem.h').read()
DEMO=r'''
#include "demo.h"
int main(void) { mf *d = m_new(1000, 512), *v = m_new(8, 512); embedDBState *s = m_db(d, 0, v, 512, EMBEDDB_RESET_DATA | EMBEDDB_USE_BINARY_SEARCH | EMBEDDB_USE_VDATA, 2, 0);
  CK(embedDBInit(s, 1) == 0);
  static uint8_t big[600]; uint32_t k, x;
  for (k = 1; k < 60; k++) { memset(big, k, 600); CK(embedDBPutVar(s, &k, &k, big, 600) == 0); }
  for (k = 1; k < 60; k++) { embedDBVarDataStream *st = 0; int8_t r = embedDBGetVar(s, &k, &x, &st); if (r == 0) { uint8_t out[600]; CK(st); CK(embedDBVarDataStreamRead(s, st, out, 600) == 600); for (x = 0; x < 600; x++) CK(out[x] == k); } }
  return 0; }
'''
