ID='flush_index_entry_uncounted'; PROP='C12'
NEEDS='a flush while the index buffer holds the entries of earlier data pages'
BREAKS='embedDBFlush counts the entry of the flushed page only if it is the first on its index page, so the last entry of the flushed index page is not part of it.'
EDITS=[('src/embedDB/embedDB.c', 'EMBEDDB_INC_COUNT(buf);\n\n        /* Copy record onto index page */\n        void *bm = EMBEDDB_GET_BITMAP(state->buffer);\n        memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);\n\n        id_t writeResult', '/* Copy record onto index page */\n        void *bm = EMBEDDB_GET_BITMAP(state->buffer);\n        memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);\n        if (idxcount == 0) EMBEDDB_INC_COUNT(buf);\n\n        id_t writeResult')]
HDR=open('/verif/tools/plants/mem.h').read()
DEMO=r'''
#include "demo.h"
int main(void) { mf *d = m_new(100, 512), *x = m_new(8, 512); embedDBState *s = m_db(d, x, 0, 512, EMBEDDB_RESET_DATA | EMBEDDB_USE_BINARY_SEARCH | EMBEDDB_USE_INDEX | EMBEDDB_USE_BMAP, 4, 1);
  CK(embedDBInit(s, 1) == 0);
  uint32_t k; for (k = 1; k <= 200; k++) CK(embedDBPut(s, &k, &k) == 0);
  CK(embedDBFlush(s) == 0); CK(x->have == 1 && *(uint16_t *)(x->d + 4) == 4);
  return 0; }
'''
