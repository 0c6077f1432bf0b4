ID='stream_wrap'; PROP='C07'
NEEDS='a single stream read of data that lies across the physical end of the variable-data file'
BREAKS='embedDBVarDataStreamRead advances to the next physical page without wrapping, so it reads beyond the file.'
EDITS=[('src/embedDB/embedDB.c', '            pageNum = (pageNum + 1) % state->numVarPages;\n', '            pageNum = pageNum + 1;\n')]
HDR=open('/verif/tools/plants/mem.h').read()
DEMO=r'''
#include "demo.h"
int main(void) { mf *d = m_new(1000, 512), *v = m_new(8, 512); embedDBState *s = m_db(d, 0, v, 512, EMBEDDB_RESET_DATA | EMBEDDB_USE_BINARY_SEARCH | EMBEDDB_USE_VDATA, 2, 0);
  CK(embedDBInit(s, 1) == 0);
  static uint8_t big[1200], out[1200]; uint32_t k, x;
  for (k = 1; k < 60; k++) { for (x = 0; x < 1200; x++) big[x] = x * k + k; CK(embedDBPutVar(s, &k, &k, big, 1200) == 0); CK(embedDBFlush(s) == 0 || 1);
    embedDBVarDataStream *st = 0; CK(embedDBGetVar(s, &k, &x, &st) == 0 && st); memset(out, 0, 1200); CK(embedDBVarDataStreamRead(s, st, out, 1200) == 1200); CK(!memcmp(out, big, 1200)); free(st); }
  return 0; }
'''
