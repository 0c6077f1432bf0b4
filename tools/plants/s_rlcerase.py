ID='rlc_erase_before_newest'; PROP='C10'
NEEDS='a crash between the erase and the write of the temporary page that starts a block'
BREAKS='writeTemporaryPage erases the other record-level consistency block before the first instead of the second image in a block is written, so between the erase and the write no image is on storage.'
EDITS=[('src/embedDB/embedDB.c', 'if (state->nextRLCPhysicalPageLocation % state->eraseSizeInPages == 1) {', 'if (state->nextRLCPhysicalPageLocation % state->eraseSizeInPages == 0) {'), ('src/embedDB/embedDB.c', 'if (state->nextRLCPhysicalPageLocation == eraseStartingPage + 1) {', 'if (state->nextRLCPhysicalPageLocation == eraseStartingPage) {')]
HDR=open('/verif/tools/plants/mem.h').read()
DEMO=r'''
#include "demo.h"
int main(void) { mf *d = m_new(16, 512); embedDBState *s = m_db(d, 0, 0, 512, EMBEDDB_RESET_DATA | EMBEDDB_USE_BINARY_SEARCH | EMBEDDB_RECORD_LEVEL_CONSISTENCY, 4, 0);
  CK(embedDBInit(s, 1) == 0);
  for (uint32_t k = 1; k < 60; k++) { if (k == 21) { d->fail_write = 1; uint32_t q = k; embedDBPut(s, &q, &q); d->fail_write = 0;
      int best = 0; for (uint32_t p = 0; p < d->have; p++) { int n = *(uint16_t *)(d->d + p * 512 + 4); if (*(uint32_t *)(d->d + p * 512) == 0 && n < 64 && n > best) best = n; } CK(best >= (int)k - 1); return 0; }
    CK(embedDBPut(s, &k, &k) == 0);
    int best = 0; for (uint32_t p = 0; p < d->have; p++) { int n = *(uint16_t *)(d->d + p * 512 + 4); if (*(uint32_t *)(d->d + p * 512) == 0 && n < 64 && n > best) best = n; } CK(best == (int)k); }
  return 0; }
'''
