/* B01: pulse and ray buffers: slots and their data regions never overlap. */
#include <RadarKit.h>
#include "vp.h"
#ifndef NMAX
#define NMAX 3
#endif
#ifdef RAY
#define CAPMAX 65536                             /* the gate count of a ray is 16-bit */
#else
#define CAPMAX RKMaximumGateCount
#endif
static size_t W;                                   /* witness offset into the allocation */
#ifdef RAY
#define SLOT(cap) ((size_t)RKRayHeaderPaddedSize + (size_t)(cap) * (RKMomentCount * 2 + RKBaseProductCount * 5))
#define HEAD RKRayHeaderPaddedSize
#define T RKRay
#define ALLOC RKRayBufferAlloc
#define GET RKGetRayFromBuffer
#define CLEAR RKClearRayBuffer
#define VACANT RKGetVacantRayFromBuffer
#define REGIONS (RKMomentCount + 2 * RKBaseProductCount)
#else
#define SLOT(cap) ((size_t)RKPulseHeaderPaddedSize + (size_t)(cap) * 40)
#define HEAD RKPulseHeaderPaddedSize
#define T RKPulse
#define ALLOC RKPulseBufferAlloc
#define GET RKGetPulseFromBuffer
#define CLEAR RKClearPulseBuffer
#define VACANT RKGetVacantPulseFromBuffer
#define REGIONS 8
#endif
#ifdef VP_NATIVE
#undef CAPK
#define CAPK CAPN
#endif
static struct slot { T head __attribute__((aligned(16))); char data[SLOT(CAPK) - HEAD]; } mem[NMAX];
static size_t allocated; static _Bool cleared, refusing;
#ifdef VP_CBMC
/* contracts: an aligned allocation of exactly the requested size; memset over accessible memory, seen at the witness byte */
static int vp_memalign(void **p, size_t a, size_t n) { VP_ASSERT(!refusing, "an unaligned capacity is refused"); VP_ASSERT(a == RKMemoryAlignSize, "SIMD aligned"); allocated = n; *p = mem; return 0; }
static void *vp_memset(void *d, int c, size_t n) {
    size_t o = (size_t)((char *)d - (char *)mem);
    VP_ASSERT(c == 0 && o <= sizeof(mem) && n <= sizeof(mem) - o, "cleared range lies inside the allocation");
    if (W >= o && W - o < n) cleared = 1;
    if (o == 0) for (int k = 0; k < NMAX; k++) if (n >= (k + 1) * sizeof(struct slot)) mem[k].head = (T){0};
    return d;
}
#define posix_memalign vp_memalign
#define memset vp_memset
#endif
#include "RKFoundation.c"
#undef posix_memalign
#undef memset
#ifdef VP_NATIVE
#define BIG 4096
#else
#define BIG CAPMAX
#endif
/* data regions of one slot: start and length */
static void region(T *x, int r, size_t cap, size_t *o, size_t *n) {
    char *b = (char *)x, *s;
#ifdef RAY
    if (r < RKMomentCount) { s = (char *)RKGetInt16DataFromRay(x, r); *n = cap * 2; }
    else if (r < RKMomentCount + RKBaseProductCount) { s = (char *)RKGetUInt8DataFromRay(x, r - RKMomentCount); *n = cap; }
    else { s = (char *)RKGetFloatDataFromRay(x, r - RKMomentCount - RKBaseProductCount); *n = cap * 4; }
#else
    RKIQZ z = RKGetSplitComplexDataFromPulse(x, r & 1);
    if (r < 2) { s = (char *)RKGetInt16CDataFromPulse(x, r); *n = cap * 4; }
    else if (r < 4) { s = (char *)RKGetComplexDataFromPulse(x, r & 1); *n = cap * 8; }
    else { s = (char *)(r < 6 ? z.i : z.q); *n = cap * 4; }
#endif
    *o = (size_t)s - (size_t)b;
}
/* the regions of one slot follow each other without overlap and fill it, for every capacity */
void h_slot(void) {
    VP_IN_RANGE(uint32_t, cap, 1, BIG);
    static T one; T *x = &one;
    x->header.capacity = cap;
    size_t o, n, end = HEAD;
#ifndef RLO
#define RLO 0
#define RHI REGIONS
#endif
    if (RLO > 0) { region(x, RLO - 1, cap, &o, &n); end = o + n; }
    for (int r = RLO; r < RHI && r < REGIONS; r++) {
#ifdef RAY
        int q = r;
#else
        int q = r < 4 ? r : r == 4 ? 4 : r == 5 ? 6 : r == 6 ? 5 : 7;   /* i and q of channel 0, then of channel 1 */
#endif
        region(x, q, cap, &o, &n);
        VP_ASSERT(o >= end, "data regions of a slot do not overlap");
        VP_ASSERT(o + n <= SLOT(cap), "a data region lies inside its slot");
#ifndef RAY
        if ((cap & 15) == 0) VP_ASSERT((o & 63) == 0, "data regions keep the SIMD alignment");
#else
        if ((cap & 15) == 0) VP_ASSERT((o & 15) == 0, "data regions keep the element alignment");
#endif
        end = o + n;
    }
    VP_REACH("regions");
}
/* the k-th slot starts k slot sizes after the first, for every k (capacity CAPK) */
void h_ring(void) {
    VP_IN_RANGE(uint32_t, k, 0, 50000);
    mem[0].head.header.capacity = CAPK;
    VP_ASSERT((size_t)GET((RKBuffer)mem, k) - (size_t)mem == (size_t)k * SLOT(CAPK), "slots lie one after the other");
    VP_REACH("slot");
}
void h_vacant(void) {
    VP_IN_RANGE(uint32_t, depth, 1, 1000000); VP_IN_RANGE(uint32_t, at, 0, NMAX - 1); VP_IN(uint64_t, id); VP_IN(uint32_t, gc);
#ifdef VP_NATIVE
    if (gc & 1) depth = 1 + depth % NMAX;
#endif
    VP_ASSUME(at < depth);
    for (int q = 0; q < NMAX; q++) mem[q].head.header.capacity = CAPK;
    for (uint32_t k = 0; k < NMAX; k++) if (k == at) {
        T *x = &mem[k].head;
        x->header.i = id; x->header.s = gc;
        /* left over from its previous life */
#ifdef RAY
        x->header.startTime.tv_sec = x->header.endTime.tv_sec = 7; x->header.startTime.tv_usec = x->header.endTime.tv_usec = 9;
#else
        x->header.time.tv_sec = 7; x->header.time.tv_usec = 9; x->header.timeDouble = 1.5; x->header.positionIndex = 3;
#endif
        uint32_t j = k;
        T *v = VACANT((RKBuffer)mem, &j, depth);
        VP_ASSERT(v == x, "the slot at the index is handed out");
        VP_ASSERT(j == (k + 1 == depth ? 0 : k + 1), "the index moves on by one slot, around the ring");
        VP_ASSERT(x->header.i == id + depth && x->header.s == 0 && x->header.capacity == CAPK, "it is vacant and carries the next identity");
#ifdef RAY
        VP_ASSERT(x->header.startTime.tv_sec == 0 && x->header.startTime.tv_usec == 0 && x->header.endTime.tv_sec == 0 && x->header.endTime.tv_usec == 0, "its times are cleared");
#else
        VP_ASSERT(x->header.timeDouble == 0.0 && x->header.time.tv_sec == 0 && x->header.time.tv_usec == 0 && x->header.positionIndex == (uint32_t)-1, "its time and position are cleared");
#endif
        VP_REACH("vacant");
    }
}
static void slots(struct slot *b, uint32_t n, int fresh) {
    for (uint32_t k = 0; k < NMAX; k++) if (k < n) {
        T *x = &b[k].head;
        VP_ASSERT(x->header.capacity == CAPK, "every slot knows its capacity");
        VP_ASSERT(x->header.i == (uint64_t)k - n, "identities count up to the first lap");
        VP_ASSERT(x->header.s == 0, "every slot is vacant");
#ifndef RAY
        VP_ASSERT(x->header.gateCount == (fresh ? 1 : 0), "gate count is reset");
#else
        VP_ASSERT(x->header.gateCount == 0, "gate count is reset");
#endif
        if (W >= k * sizeof(struct slot) + HEAD && W < (k + 1) * sizeof(struct slot)) {
#ifdef VP_NATIVE
            VP_ASSERT(((char *)b)[W] == 0, "all data is cleared");
#else
            VP_ASSERT(cleared, "all data is cleared");
#endif
            VP_REACH("data");
        }
    }
}
void h_refuse(void) {
    VP_IN_RANGE(uint32_t, cap, 1, BIG); VP_IN_RANGE(uint32_t, n, 1, NMAX);
    uint64_t mark = 0; RKBuffer buf = (RKBuffer)&mark;
    VP_ASSUME(cap & 15); refusing = 1;
    VP_ASSERT(ALLOC(&buf, cap, n) == 0 && buf == (RKBuffer)&mark, "an unaligned capacity is refused");
    VP_REACH("refused");
}
void h_alloc(void) {
    VP_IN_RANGE(uint32_t, n, 1, NMAX); VP_IN(size_t, wit);
    RKBuffer buf = NULL;
    W = wit;
#ifdef VP_NATIVE
    W %= SLOT(CAPK) * n;
#endif
    size_t r = ALLOC(&buf, CAPK, n);
    VP_ASSERT(r == SLOT(CAPK) * n, "the size is that of all slots");
#ifdef VP_CBMC
    VP_ASSERT(allocated == r, "exactly the reported size is allocated");
#else
    VP_ASSERT(((size_t)buf & 63) == 0, "SIMD aligned");
#endif
    slots((struct slot *)buf, n, 1);
    VP_REACH("allocated");
#ifdef VP_NATIVE
    free(buf);
#endif
}
void h_clear(void) {
    VP_IN_RANGE(uint32_t, n, 1, NMAX); VP_IN(size_t, wit); VP_IN(uint32_t, junk);
    W = wit;
#ifdef VP_NATIVE
    W %= SLOT(CAPK) * n; memset(mem, 0x5a, sizeof(mem));
#endif
    for (int k = 0; k < NMAX; k++) { mem[k].head.header.capacity = CAPK; mem[k].head.header.s = junk; mem[k].head.header.gateCount = junk; }
    int r = CLEAR((RKBuffer)mem, n);
    VP_ASSERT(r == RKResultSuccess, "clearing succeeds");
    slots(mem, n, 0);
    VP_REACH("cleared");
}
VP_SILENT
