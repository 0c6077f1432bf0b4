ID='index_erase_one_page_more'; PROP='C05'
NEEDS='a full index file whose storage really clears erased pages, reclaiming a block other than the first'
BREAKS='writeIndexPage erases one page more than the oldest block, so an index page that stays in the retained window is wiped.'
EDITS=[('src/embedDB/embedDB.c', 'physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile', 'physicalPageNumber + state->eraseSizeInPages + (physicalPageNumber > 0), state->pageSize, state->indexFile')]
HDR=open('/verif/tools/plants/mem.h').read()
DEMO=r'''
#include "demo.h"
int main(void) { mf *d = m_new(8000, 128), *x = m_new(6, 128); embedDBState *s = m_db(d, x, 0, 128, EMBEDDB_RESET_DATA | EMBEDDB_USE_BINARY_SEARCH | EMBEDDB_USE_INDEX | EMBEDDB_USE_BMAP, 2, 1);
  CK(embedDBInit(s, 1) == 0);
  for (uint32_t k = 1; s->nextIdxPageId < 20; k++) { CK(embedDBPut(s, &k, &k) == 0);
    for (uint32_t p = s->minIndexPageId; p < s->nextIdxPageId; p++) CK(*(uint32_t *)(x->d + (p % 6) * 128) == p); }
  return 0; }
'''
