ID='index_slot_ignores_bitmap_size'; PROP='C04'
NEEDS='an index with bitmaps of more than one byte'
BREAKS='embedDBPut places the bitmap of a data page at byte idxcount of the index page instead of entry idxcount, so entries overlap and queries skip pages that match.'
EDITS=[('src/embedDB/embedDB.c', '            /* Copy record onto index page */\n            void *bm = EMBEDDB_GET_BITMAP(state->buffer);\n            memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);\n        }\n\n        updateMaxiumError', '            /* Copy record onto index page */\n            void *bm = EMBEDDB_GET_BITMAP(state->buffer);\n            memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + idxcount), bm, state->bitmapSize);\n        }\n\n        updateMaxiumError')]
HDR=open('/verif/tools/plants/mem.h').read()
DEMO=r'''
#include "demo.h"
static void u2(void *d, void *b) { *(uint16_t *)b |= 1 << (*(uint32_t *)d % 16); }
static void b2(void *lo, void *hi, void *b) { if (lo && hi && *(uint32_t *)lo == *(uint32_t *)hi) u2(lo, b); else *(uint16_t *)b = 0xFFFF; }
int main(void) { mf *d = m_new(1000, 512), *x = m_new(8, 512); embedDBState *s = m_db(d, x, 0, 512, EMBEDDB_RESET_DATA | EMBEDDB_USE_BINARY_SEARCH | EMBEDDB_USE_INDEX | EMBEDDB_USE_BMAP, 4, 2);
  s->updateBitmap = u2; s->buildBitmapFromRange = b2;
  CK(embedDBInit(s, 1) == 0);
  uint32_t k; for (k = 0; s->nextDataPageId < 600; k++) { uint32_t v = s->nextDataPageId * 7 % 16; CK(embedDBPut(s, &k, &v) == 0); }
  for (uint32_t w = 0; w < 16; w++) { uint32_t n = 0, m = 0, kk, dd;
    for (uint32_t p = 0; p < d->have; p++) for (uint32_t r = 0; r < *(uint16_t *)(d->d + p * 512 + 4); r++) n += *(uint32_t *)(d->d + p * 512 + s->headerSize + r * 8 + 4) == w;
    for (uint32_t r = 0; r < *(uint16_t *)((char *)s->buffer + 4); r++) n += *(uint32_t *)((char *)s->buffer + s->headerSize + r * 8 + 4) == w;
    embedDBIterator it; it.minKey = it.maxKey = 0; it.minData = it.maxData = &w; embedDBInitIterator(s, &it); while (embedDBNext(s, &it, &kk, &dd)) m++; embedDBCloseIterator(&it); CK(n == m); }
  return 0; }
'''
