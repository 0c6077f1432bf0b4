ID='continuation_page_label'; PROP='C08'
NEEDS='variable data longer than a whole page, later reclaimed so that the last page of the reclaimed block holds only its middle part'
BREAKS='embedDBPutVar does not label continuation pages with the key of the record, so reclaiming such a page moves the oldest-data mark back to 0 and lost data is reported as available.'
EDITS=[('src/embedDB/embedDB.c', '            // Update the header to include the maximum key value stored on this page and account for page number\n            memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);\n            state->currentVarLoc += state->variableDataHeaderSize;', '            // Account for the header of the next page\n            state->currentVarLoc += state->variableDataHeaderSize;')]
HDR=open('/verif/tools/plants/mem.h').read()
DEMO=r'''
#include "demo.h"
int main(void) { mf *d = m_new(1000, 512), *v = m_new(8, 512); embedDBState *s = m_db(d, 0, v, 512, EMBEDDB_RESET_DATA | EMBEDDB_USE_BINARY_SEARCH | EMBEDDB_USE_VDATA, 2, 0);
  CK(embedDBInit(s, 1) == 0);
  static uint8_t big[504 * 3]; memset(big, 7, sizeof big);
  uint32_t k; uint64_t mark = 0;
  for (k = 1; k < 40; k++) { CK(embedDBPutVar(s, &k, &k, big, k % 2 ? 1400 : 30) == 0); if (k > 1) { CK(s->minVarRecordId << 32 >= mark << 32); } mark = s->minVarRecordId; }
  return 0; }
'''
