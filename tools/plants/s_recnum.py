ID='iterator_record_count_8bit'; PROP='C03'
NEEDS='pages with more than 255 records'
BREAKS='embedDBNext keeps the number of records of a page in a uint8_t, so an iteration over pages of 256 and more records leaves records out.'
EDITS=[('src/embedDB/embedDB.c', 'uint32_t pageRecordCount = EMBEDDB_GET_COUNT(buf);', 'uint8_t pageRecordCount = EMBEDDB_GET_COUNT(buf);')]
HDR=open('/verif/tools/plants/mem.h').read()
DEMO=r'''
#include "demo.h"
int main(void) { mf *d = m_new(16, 4096); embedDBState *s = m_db(d, 0, 0, 4096, EMBEDDB_RESET_DATA | EMBEDDB_USE_BINARY_SEARCH, 4, 0);
  CK(embedDBInit(s, 1) == 0);
  uint32_t k, kk, dd, n = 0; for (k = 1; k <= 2000; k++) CK(embedDBPut(s, &k, &k) == 0);
  embedDBIterator it; it.minKey = it.maxKey = it.minData = it.maxData = 0; embedDBInitIterator(s, &it); while (embedDBNext(s, &it, &kk, &dd)) CK(kk == ++n); CK(n == 2000);
  return 0; }
'''
