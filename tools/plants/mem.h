/* in-memory storage with real erase and fault injection, for demonstrations */
#include "embedDB.h"
#include "embedDBUtility.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef struct { uint8_t *d; uint32_t pages, have; int fail_erase, fail_write, fail_read, fail_flush, flushes; int bad; } mf;
static uint32_t m_ps;
static int8_t m_rd(void *b, uint32_t p, uint32_t ps, void *f) { mf *m = f; if (m->fail_read) return 0; if (p >= m->have) return 0; memcpy(b, m->d + (size_t)p * ps, ps); return 1; }
static int8_t m_wr(void *b, uint32_t p, uint32_t ps, void *f) { mf *m = f; if (m->fail_write) return 0; if (p >= m->pages) { m->bad = 1; return 0; } memcpy(m->d + (size_t)p * ps, b, ps); if (p >= m->have) m->have = p + 1; return 1; }
static int8_t m_er(uint32_t a, uint32_t e, uint32_t ps, void *f) { mf *m = f; if (m->fail_erase) return 0; for (uint32_t p = a; p < e; p++) { if (p >= m->pages) { m->bad = 1; continue; } memset(m->d + (size_t)p * ps, 1, ps); if (p >= m->have) m->have = p + 1; } return 1; }
static int8_t m_cl(void *f) { return 1; }
static int8_t m_fl(void *f) { mf *m = f; if (m->fail_flush) return 0; m->flushes++; return 1; }
static int8_t m_op(void *f, uint8_t mode) { mf *m = f; if (mode == EMBEDDB_FILE_MODE_W_PLUS_B) { m->have = 0; return 1; } return m->have > 0; }
static embedDBFileInterface m_if = {m_rd, m_wr, m_er, m_cl, m_op, m_fl};
static mf *m_new(uint32_t pages, uint32_t ps) { mf *m = calloc(1, sizeof *m); m->pages = pages; m->d = calloc(pages, ps); return m; }
static void u_bm1(void *d, void *b) { *(uint8_t *)b |= 1 << (*(uint32_t *)d % 8); }
static int8_t i_bm1(void *d, void *b) { return (*(uint8_t *)b >> (*(uint32_t *)d % 8)) & 1; }
static void b_bm1(void *lo, void *hi, void *b) { if (lo && hi && *(uint32_t *)lo == *(uint32_t *)hi) u_bm1(lo, b); else *(uint8_t *)b = 0xFF; }
/* 4-byte keys and data */
static embedDBState *m_db(mf *d, mf *x, mf *v, uint32_t ps, int par, int er, int bms) {
  embedDBState *s = calloc(1, sizeof *s);
  s->keySize = 4; s->dataSize = 4; s->pageSize = ps; s->numSplinePoints = 30; s->bitmapSize = bms;
  s->bufferSizeInBlocks = 6; s->buffer = calloc(6, ps);
  s->fileInterface = &m_if; s->dataFile = d; s->indexFile = x; s->varFile = v;
  s->numDataPages = d->pages; s->numIndexPages = x ? x->pages : 0; s->numVarPages = v ? v->pages : 0;
  s->eraseSizeInPages = er; s->parameters = par;
  s->updateBitmap = u_bm1; s->inBitmap = i_bm1; s->buildBitmapFromRange = b_bm1;
  s->compareKey = int32Comparator; s->compareData = int32Comparator;
  return s;
}
#define CK(e) do { if (!(e)) { printf("demo: %s does not hold\n", #e); exit(1); } } while (0)
