ID='summary_only_first_page'; PROP='C11'
NEEDS='min/max summaries of any page after the first'
BREAKS='embedDBPut starts the summary from its first record only on the first page; later pages keep the placeholder minimum.'
EDITS=[('src/embedDB/embedDB.c', '        void *ptr;\n        if (count != 0) {', '        void *ptr;\n        if (wrotePage || count != 0) {')]
HDR=open('/verif/tools/plants/mem.h').read()
DEMO=r'''
#include "demo.h"
int main(void) { mf *d = m_new(16, 512); embedDBState *s = m_db(d, 0, 0, 512, EMBEDDB_RESET_DATA | EMBEDDB_USE_BINARY_SEARCH | EMBEDDB_USE_MAX_MIN, 4, 0);
  CK(embedDBInit(s, 1) == 0);
  uint32_t k; for (k = 100000000; s->nextDataPageId < 4; k++) { uint32_t v = k + 5; CK(embedDBPut(s, &k, &v) == 0); }
  for (uint32_t p = 0; p < 4; p++) { uint8_t *b = d->d + p * 512; int n = *(uint16_t *)(b + 4), h = s->headerSize;
    CK(*(uint32_t *)EMBEDDB_GET_MIN_KEY(b) == *(uint32_t *)(b + h)); CK(*(uint32_t *)EMBEDDB_GET_MAX_KEY(b, s) == *(uint32_t *)(b + h + (n - 1) * 8));
    CK(*(uint32_t *)EMBEDDB_GET_MIN_DATA(b, s) == *(uint32_t *)(b + h + 4)); CK(*(uint32_t *)EMBEDDB_GET_MAX_DATA(b, s) == *(uint32_t *)(b + h + (n - 1) * 8 + 4)); }
  return 0; }
'''
