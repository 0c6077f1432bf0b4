/* Loop contracts: force-included (-include) into every translation unit when EMBEDDB_VERIFY is set.
 * EMBEDDB_LOOP(id) sits between the loop head and its body in /repo's sources; a loop whose id is not
 * enabled by the unit (-DLC_id) is left alone and unwound. */
#ifndef VF_LOOPS_H
#define VF_LOOPS_H
#include <stdint.h>
extern struct vlg {
  int n1, n2, skipped, done, have, flag, emitted;
  int64_t acc; uint64_t k1, k2; uint64_t wkey; int w1, w2;
} VLG;
#ifndef RBMAX
#define RBMAX 64
#endif
extern unsigned char VIN1[RBMAX], VIN2[RBMAX], VOUT[2 * RBMAX], VLAST[RBMAX];
#define EMBEDDB_LOOP(id) EMBEDDB_LOOP_##id
#ifdef LC_nextSelection
#define EMBEDDB_LOOP_nextSelection __CPROVER_assigns(VLG, __CPROVER_object_whole(VIN1), __CPROVER_object_whole(VOUT)) __CPROVER_loop_invariant(!VLG.skipped && !VLG.done && !VLG.flag && VLG.have >= 0 && VLG.have <= 1)
#else
#define EMBEDDB_LOOP_nextSelection
#endif
#ifdef LC_nextAggregate
#define EMBEDDB_LOOP_nextAggregate __CPROVER_assigns(VLG, __CPROVER_object_whole(VIN1), __CPROVER_object_whole(VOUT), __CPROVER_object_whole(VLAST), recordsInGroup, exitType, state->isLastRecordUsable) \
  __CPROVER_loop_invariant(exitType == 0 && !VLG.flag && !VLG.done && VLG.emitted == 0 && VLG.k1 == 1 && VLG.k2 == 1 && VLG.n2 >= __CPROVER_loop_entry(VLG.n2) && VLG.n2 >= 0 && VLG.n2 <= 1 && VLG.have == VLG.n2 \
     && state->isLastRecordUsable == VLG.n2 && recordsInGroup == VLG.n2 \
     && (!VLG.n2 || (VLG.w1 == 1 && VLG.w2 == 1 && *(uint64_t *)VLAST == ((uint64_t *)VOUT)[9])))
#else
#define EMBEDDB_LOOP_nextAggregate
#endif
/* storage engine.  Loop invariants may not call functions, so the predicates of units/c_get.c (cacheOk, relPage) are
 * spelled out here; the key, the watched page w = t % NP and the window come from the ghost record VST. */
#include "vst.h"
#ifdef VPS
extern unsigned char WD[VPS], BUF[VNB * VPS];
#endif
#define VLC_PAGEASG state->bufferedPageId, state->numReads, state->bufferHits, G.nops, G.nrd, G.failed, __CPROVER_object_upto((char *)state->buffer + state->pageSize, state->pageSize)
#ifndef VMR
#define VMR 3
#endif
#define V32(p) (*(uint32_t *)(p))
#define V16(p) (*(int16_t *)(p))
#define VRB (BUF + VPS)
#define VLID(p) (VST.min - VST.min % VNP + (p) + (VST.min - VST.min % VNP + (p) < VST.min ? VNP : 0))
#define VREL(r, id) ((r) >= V16(VRB + 4) || ((id) < VST.t ? V32(VRB + VHD + (r) * VRS) < VST.k : (id) > VST.t ? V32(VRB + VHD + (r) * VRS) > VST.k : (r) < VST.j ? V32(VRB + VHD + (r) * VRS) < VST.k : (r) > VST.j ? V32(VRB + VHD + (r) * VRS) > VST.k : 1))
#define VEQ8(o) (*(uint64_t *)(VRB + (o)) == *(uint64_t *)(WD + (o)))
#define VLC_CACHE (state->bufferedPageId == 0xFFFFFFFFu || (state->bufferedPageId < VNP && VLID(state->bufferedPageId) < VST.next && \
  (state->bufferedPageId == VST.w ? VEQ8(0) && VEQ8(8) && VEQ8(VPS - 16) && VEQ8(VPS - 8) : \
   V32(VRB) == VLID(state->bufferedPageId) && V16(VRB + 4) >= 1 && V16(VRB + 4) <= VMR && VREL(0, VLID(state->bufferedPageId)) && VREL(1, VLID(state->bufferedPageId)) && VREL(VMR - 1, VLID(state->bufferedPageId)))))
#ifdef LC_binarySearch
#define EMBEDDB_LOOP_binarySearch __CPROVER_assigns(first, last, pageId, VLC_PAGEASG) \
  __CPROVER_loop_invariant(VLC_CACHE && first >= VST.min && last < VST.next && first <= VST.next && pageId >= VST.min && pageId < VST.next && (first > last || (pageId >= first && pageId <= last)) && last + 1 >= first && (!VST.in || (first <= VST.t && VST.t <= last)))
#else
#define EMBEDDB_LOOP_binarySearch
#endif
#ifdef LC_linearSearch
#define EMBEDDB_LOOP_linearSearch __CPROVER_assigns(pageId, low, high, pageError, physPageId, VLC_PAGEASG) \
  __CPROVER_loop_invariant(VLC_CACHE && low >= (int32_t)VST.min && high >= -1 && high < (int32_t)VST.next && pageId >= -1 && pageId <= (int32_t)VST.next && (!VST.in || (low <= (int32_t)VST.t && (int32_t)VST.t <= high && low <= pageId && pageId <= high)))
#else
#define EMBEDDB_LOOP_linearSearch
#endif
#ifdef LC_embedDBNext
#ifdef VMIR   /* with an index: index pages in the index read buffer */
#define VXB (BUF + 3 * VPS)
#define VLC_XCACHE && (state->bufferedIndexPageId == 0xFFFFFFFFu || (state->bufferedIndexPageId < VNX && V16(VXB + 4) >= 0 && V16(VXB + 4) <= VMIR && V32(VXB + 8) <= VST.next && V32(VXB + 8) + V16(VXB + 4) <= VST.next && \
   (VST.t < V32(VXB + 8) || VST.t - V32(VXB + 8) >= V16(VXB + 4) || (VXB[16 + (VST.t - V32(VXB + 8))] & VST.bit) != 0)))
#define VLC_XASG , state->bufferedIndexPageId, state->numIdxReads, __CPROVER_object_upto((char *)state->buffer + 3 * state->pageSize, state->pageSize)
#else
#define VLC_XCACHE
#define VLC_XASG
#endif
#define EMBEDDB_LOOP_embedDBNext __CPROVER_assigns(searchWriteBuf, it->nextDataPage, it->nextDataRec, __CPROVER_object_upto(key, 4), __CPROVER_object_upto(data, 2), VLC_PAGEASG VLC_XASG) \
  __CPROVER_loop_invariant(VLC_CACHE VLC_XCACHE && it->nextDataPage <= VST.next + 1 && (searchWriteBuf == 0 || it->nextDataPage == VST.next + 1) \
    && (it->nextDataPage > __CPROVER_loop_entry(it->nextDataPage) ? it->nextDataPage > VST.min : it->nextDataPage == __CPROVER_loop_entry(it->nextDataPage)) \
    && (it->nextDataPage == __CPROVER_loop_entry(it->nextDataPage) ? it->nextDataRec == __CPROVER_loop_entry(it->nextDataRec) : it->nextDataRec == 0) \
    && (!VST.in || it->nextDataPage < VST.t || (it->nextDataPage == VST.t && it->nextDataRec <= VST.j)))
#else
#define EMBEDDB_LOOP_embedDBNext
#endif
#define EMBEDDB_LOOP_embedDBInitDataFromFile
#define EMBEDDB_LOOP_rlcRecoveryScan
#define EMBEDDB_LOOP_embedDBInitIndexFromFile
#define EMBEDDB_LOOP_embedDBInitVarDataFromFile
#endif
