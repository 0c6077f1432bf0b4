ID='iterator_starts_at_estimate'; PROP='C03'
NEEDS='a minimum key on a page before the one the spline estimates'
BREAKS='embedDBInitIterator starts at the estimated page of the minimum key instead of the lower bound, so records on the pages before it are left out.'
EDITS=[('src/embedDB/embedDB.c', 'it->nextDataPage = max(lowbound, state->minDataPageId);', 'it->nextDataPage = max(location, state->minDataPageId);')]
HDR=open('/verif/tools/plants/mem.h').read()
DEMO=r'''
#include "demo.h"
int main(void) { mf *d = m_new(1000, 512); embedDBState *s = m_db(d, 0, 0, 512, EMBEDDB_RESET_DATA, 4, 0);
  CK(embedDBInit(s, 8) == 0);
  uint32_t k = 0, n = 0; static uint32_t ks[40000]; uint32_t r = 12345;
  while (s->nextDataPageId < 300) { r = r * 1103515245 + 12345; k += 1 + ((s->nextDataPageId / 7) % 3 ? 1 : 40) * (r >> 16 & 7); ks[n++] = k; CK(embedDBPut(s, &k, &k) == 0); }
  for (uint32_t i = 0; i < n; i += 97) { embedDBIterator it; uint32_t a = ks[i], kk = 0, dd; it.minKey = &a; it.maxKey = it.minData = it.maxData = 0; embedDBInitIterator(s, &it); CK(embedDBNext(s, &it, &kk, &dd)); CK(kk == a); embedDBCloseIterator(&it); }
  return 0; }
'''
