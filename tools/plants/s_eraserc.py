ID='erase_failure_ignored'; PROP='C17'
NEEDS='the erase of the block being reclaimed fails'
BREAKS='writePage only treats a negative erase result as failure, but the file interface returns 0: the failed erase is not reported and the window moves on.'
EDITS=[('src/embedDB/embedDB.c', 'physicalPageNum + state->eraseSizeInPages, state->pageSize, state->dataFile);\n        if (eraseResult != 1) {', 'physicalPageNum + state->eraseSizeInPages, state->pageSize, state->dataFile);\n        if (eraseResult < 0) {')]
HDR=open('/verif/tools/plants/mem.h').read()
DEMO=r'''
#include "demo.h"
int main(void) { mf *d = m_new(8, 512); embedDBState *s = m_db(d, 0, 0, 512, EMBEDDB_RESET_DATA | EMBEDDB_USE_BINARY_SEARCH, 2, 0);
  CK(embedDBInit(s, 1) == 0);
  uint32_t k; for (k = 1; k <= 8 * 63 + 63; k++) { uint32_t v = k; CK(embedDBPut(s, &k, &v) == 0); }
  d->fail_erase = 1; uint32_t v = k; CK(embedDBPut(s, &k, &v) != 0); CK(s->minDataPageId == 0);
  return 0; }
'''
