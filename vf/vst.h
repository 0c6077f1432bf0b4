#ifndef VST_H
#define VST_H
#include <stdint.h>
extern struct vst { uint32_t min, next, w, t, k; uint8_t j, in, bit; } VST;   /* ghost record for the loop contracts of the storage engine */
#ifndef NLOG
#define NLOG 4
#endif
/* ghost storage log */
struct ghost {
  int nops, badio, failed, nrd, nflush, nflushx, nflushv, nw, ne;
  uint8_t wf[NLOG], ef[NLOG]; uint32_t wpg[NLOG], es[NLOG], ee[NLOG];   /* writes and erases: file, page(s) */
  int wseq[NLOG], eseq[NLOG]; int wd_seq, wd_n, wx_n, wv_n;         /* writes of the watched pages */
};
extern struct ghost G;
#endif
