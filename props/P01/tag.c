/* P01: every pulse is tagged with the antenna position of its own time. The environment delivers pulses and positions
 * at every point where the tagger waits; a tagged pulse (status HasPosition) is judged when it is first seen. */
#include <RadarKit.h>
#include "vp.h"
#ifdef VP_NATIVE
#undef NP
#undef NQ
#undef DEPTH
#undef QDEPTH
#define NP 20
#define NQ 24
#endif
#ifndef NP
#define NP 2
#endif
#ifndef NQ
#define NQ 4                                    /* positions delivered */
#endif
#ifdef VP_NATIVE
#define DEPTH 9                                 /* wraps */
#define QDEPTH 7
#else
#ifndef DEPTH
#define DEPTH (NP + 1)
#endif
#ifndef QDEPTH
#define QDEPTH (NQ + 1)
#endif
#endif
#define CDEPTH 4
#define CAP 16
static struct slot { RKPulse head __attribute__((aligned(16))); char data[CAP * 40]; } pulses[DEPTH];
static RKPosition pos[QDEPTH];
static RKConfig cfg[CDEPTH];
static RKRadarDesc desc;
static RKPositionEngine engine;
static uint32_t pulseIndex, positionIndex, configIndex;
/* ghost copies */
static int pt[NP], gc[NP], qt[NQ]; static uint32_t qf[NQ];
static int np, nr, nq, nqr;                     /* pulses acquired / processed, positions acquired / ready */
static int judged, prevHi = -1; static uint32_t prevMarker; static int prevGates;
static int adv, advMarker, advGates, advFor;    /* configuration changes since the last pulse was judged */
static int advSeen; static uint32_t advMk; static int advGc[2]; static double advEl, advAz; static float advSize;
static double al[NP], be[NP]; static int nInterp, nInterpP; static float ib[2], ia[2], ialpha[2]; static float irv[2];
#ifdef VP_CBMC
/* one schedule per target: P/p a pulse is acquired / processed, Q/q a position is acquired / ready, * all the rest */
static const char sched[] = SCHED; static const int qtimes[NQ] = {QT}, ptimes[NP] = {PT}; static int sp;
#endif
static int toggle(void) { int t; VP_DRAW(t, "toggle"); return t & 1; }
static float el(int q) { return q + 0.25f; }
static float az(int q) { return 100.5f + q; }
static void look(void);
static int nqrAt;
static float vp_interpP(const float b, const float a, const float alpha) { look(); nqrAt = nqr; ib[0] = b; ia[0] = a; ialpha[0] = alpha; nInterpP++; return irv[0] = 1000.0f + nInterpP; }
static float vp_interp(const float b, const float a, const float alpha) { look(); ib[1] = b; ia[1] = a; ialpha[1] = alpha; nInterp++; return irv[1] = 2000.0f + nInterp; }
static const double frac[5][5] = {{0, 0, 0, 0, 0}, {0, 1, 0, 0, 0}, {0, 0.5, 1, 0, 0}, {0, 0, 0, 1, 0}, {0, 0.25, 0.5, 0.75, 1}};
static void judge(int n) {
    RKPulse *p = &pulses[n % DEPTH].head;
    /* the last position at or before the pulse */
    int b = -1, later = 0, complete = 0;
    for (int q = 0; q < NQ; q++) { if (q < nqr && qt[q] <= pt[n]) b = q; if (q < nqrAt && qt[q] > pt[n]) later = 1; }
    VP_ASSERT(n < nr, "a pulse is tagged after it was processed");
    VP_ASSERT(later, "a pulse is tagged once a later position is known");
    for (int q = 0; q < NQ; q++) if (q > prevHi && q <= b && (qf[q] & (RKPositionFlagAzimuthComplete | RKPositionFlagElevationComplete))) complete = 1;
    int passed = b - prevHi;
    uint32_t f = 0; int dt = 0, num = 0;
    for (int q = 0; q < NQ; q++) if (q == b) { f = qf[q]; num = pt[n] - qt[q]; if (q + 1 < NQ) dt = qt[q + 1] - qt[q]; }
    VP_ASSERT(nInterp == n + 1 && nInterpP == n + 1, "angles are interpolated once per pulse");
    VP_ASSERT(ib[0] == az(b) && ia[0] == az(b + 1) && ib[1] == el(b) && ia[1] == el(b + 1), "the angle of a pulse lies between the positions around it");
    VP_ASSERT(ialpha[0] == (float)frac[dt][num] && ialpha[1] == (float)frac[dt][num], "in proportion to the time");
    VP_ASSERT(p->header.azimuthDegrees == irv[0] && p->header.elevationDegrees == irv[1], "and is what the pulse says");
    VP_ASSERT(p->header.azimuthVelocityDegreesPerSecond == 10 + b && p->header.elevationVelocityDegreesPerSecond == 20 + b, "velocities come from the position before the pulse");
    VP_ASSERT(p->header.rawAzimuth.u32 == 500 + b && p->header.rawElevation.u32 == 600 + b, "so do the raw readings");
    uint32_t m = p->header.marker, e = 0, t = 0;
    if ((f & RKPositionFlagElevationPoint) && (f & RKPositionFlagAzimuthSweep)) t = RKMarkerScanTypePPI;
    else if ((f & RKPositionFlagAzimuthPoint) && (f & RKPositionFlagElevationSweep)) t = RKMarkerScanTypeRHI;
    else if ((f & RKPositionFlagAzimuthPoint) && (f & RKPositionFlagElevationPoint)) t = RKMarkerScanTytpePoint;
    int mid = !!(f & RKPositionFlagScanActive), pmid = !!(prevMarker & RKMarkerSweepMiddle), pend = !!(prevMarker & RKMarkerSweepEnd);
    int changed = t != (prevMarker & RKMarkerScanTypeMask);
    VP_ASSERT((m & RKMarkerScanTypeMask) == t, "the kind of scan is that of the position");
    VP_ASSERT(!!(m & RKMarkerSweepMiddle) == mid, "a pulse is in a sweep when the scan is active");
    int end = (passed > 0 && complete && !(passed > 1 && pend)) || (pmid && !mid);
    VP_ASSERT(!!(m & RKMarkerSweepEnd) == end, "the last pulse of a sweep, and no other, is marked so");
    int begin = mid && (!pmid || pend);
    VP_ASSERT(begin ? !!(m & RKMarkerSweepBegin) : changed || !(m & RKMarkerSweepBegin), "the first pulse of a sweep, and no other, is marked so");
    VP_ASSERT(!(m & ~(RKMarkerScanTypeMask | RKMarkerSweepMiddle | RKMarkerSweepBegin | RKMarkerSweepEnd)), "no other mark is made");
    int wanted = (begin || changed) + (n ? gc[n] != prevGates : adv > (begin || changed));
    VP_ASSERT(adv == wanted, "the configuration advances at the start of a sweep, with the kind of scan and with the number of gates, and not otherwise");
    if (begin || changed) {
        VP_ASSERT(advSeen & 1, "a new sweep gets a new configuration");
        VP_ASSERT(advEl == (float)(3 + b + 1) && advAz == (float)(50 + b + 1), "with the set angles of the sweep");
#ifdef VP_NATIVE
        VP_ASSERT(advSize == 0.5f + n, "the size of its gates");
#endif
        VP_ASSERT(advMk == m && advGc[0] == gc[n], "its marker and its gates");
    }
    if (n && gc[n] != prevGates) VP_ASSERT(advGc[1] == gc[n], "a change of the number of gates is recorded");
    VP_ASSERT(p->header.configIndex == (configIndex + CDEPTH - 1) % CDEPTH, "the pulse refers to the latest configuration");
    prevHi = b; prevMarker = m; prevGates = gc[n]; adv = advSeen = 0; judged = n + 1;
}
static void look(void) {
    for (int n = 0; n < NP; n++) if (n == judged && n < np && (pulses[n % DEPTH].head.header.s & RKPulseStatusHasPosition)) judge(n);
    for (int n = 0; n < NP; n++) if (n > judged && n < np && n < judged + DEPTH) VP_ASSERT(!(pulses[n % DEPTH].head.header.s & RKPulseStatusHasPosition), "pulses are tagged in order");
}
static void putPulse(int n) {
    RKPulse *p = &pulses[n % DEPTH].head;
    p->header.s = RKPulseStatusVacant; p->header.timeDouble = pt[n]; p->header.gateCount = gc[n]; p->header.gateSizeMeters = 0.5f + n; p->header.i = n;
    p->header.marker = 0x77777777; p->header.configIndex = 999;
}
static void putPosition(int q) {
    RKPosition *p = &pos[q % QDEPTH];
    p->timeDouble = qt[q]; p->flag = qf[q];
#ifdef VP_CBMC
    p->flag = 0;
#endif

    p->elevationDegrees = el(q); p->azimuthDegrees = az(q);
    p->azimuthVelocityDegreesPerSecond = 10 + q; p->elevationVelocityDegreesPerSecond = 20 + q;
    p->rawAzimuth.u32 = 500 + q; p->rawElevation.u32 = 600 + q;
    p->sweepElevationDegrees = 3 + q; p->sweepAzimuthDegrees = 50 + q;
}
static int stalled, calls;
/* hand over the pulses and positions up to the given numbers */
static void deliver(int a, int r, int q, int qr) {
    for (int n = 0; n < NP; n++) { if (n >= np && n < a) putPulse(n); if (n >= nr && n < r) pulses[n % DEPTH].head.header.s = RKPulseStatusHasIQData | RKPulseStatusRingProcessed; }
    for (int k = 0; k < NQ; k++) { if (k >= nq && k < q) putPosition(k); if (k >= nqr && k < qr) pos[k % QDEPTH].flag = qf[k] | RKPositionFlagReady; }
    np = a; nr = r; nq = q; nqr = qr; pulseIndex = np % DEPTH; positionIndex = nq % QDEPTH;
}
#ifdef VP_CBMC
#define VP_DONE VP_REACH("all pulses tagged"); VP_ASSUME(0)
#else
#define VP_DONE (void)0
#endif
static void env(void) {
    look();
    if (judged == NP) { VP_DONE; engine.state &= ~RKEngineStateWantActive; return; }
#ifdef VP_CBMC
    int later = 0;
    for (int q = 0; q < NQ; q++) for (int n = 0; n < NP; n++) if (n == judged && q < nqr && qt[q] > pt[n]) later = 1;
    if (np > judged && nr > judged && later && nq == nqr) { VP_ASSERT(0, "the tagger does not wait for a pulse and positions that are there"); }
    const char c = sched[sp]; if (c) sp++;
    if (c == 'P') deliver(np + 1, nr, nq, nqr);
    if (c == 'p') deliver(np, nr + 1, nq, nqr);
    if (c == 'Q') deliver(np, nr, nq + 1, nqr);
    if (c == 'q') deliver(np, nr, nq, nqr + 1);
    if (c == '*') deliver(NP, NP, NQ, NQ);
    VP_ASSERT(c, "the tagger does not wait for ever");
#else
    int what; VP_DRAW_RANGE(what, "event", 0, 3);
    /* positions are not overwritten while they are needed */
    int can[4] = {np < NP && np == nr && np < judged + DEPTH - 1, nr < np, nqr < nq, nq < NQ && nqr == nq && nq < (prevHi < 0 ? 0 : prevHi) + QDEPTH - 1};
    if (!can[what]) { what = can[0] ? 0 : can[1] ? 1 : can[2] ? 2 : 3; }
    if (!can[what]) { if (judged < NP) stalled = 1; engine.state &= ~RKEngineStateWantActive; return; }
    if (what == 0) { for (int n = 0; n < NP; n++) if (n == np) putPulse(n); np++; pulseIndex = np % DEPTH; }
    else if (what == 1) { for (int n = 0; n < NP; n++) if (n == nr) pulses[n % DEPTH].head.header.s = RKPulseStatusHasIQData | RKPulseStatusRingProcessed; nr++; }
    else if (what == 2) { for (int q = 0; q < NQ; q++) if (q == nqr) pos[q % QDEPTH].flag |= RKPositionFlagReady; nqr++; }
    else { for (int q = 0; q < NQ; q++) if (q == nq) putPosition(q); nq++; positionIndex = nq % QDEPTH; }
#endif
}
static int vp_usleep(unsigned int t) { env(); return 0; }
static int vp_gettimeofday(struct timeval *t, void *z) { if (t) { t->tv_sec = 5; t->tv_usec = 0; } 
#ifdef VP_NATIVE
    if (toggle()) env();
#endif
    return 0; }
static void vp_advance(RKConfig *buf, uint32_t *idx, const uint32_t depth, ...) {
    look();
    va_list a; va_start(a, depth);
    VP_ASSERT(buf == cfg && idx == &configIndex && depth == CDEPTH, "the configuration buffer of the engine");
    int key, g = -1, s = 0;
    for (int k = 0; k < 6; k++) {
        key = va_arg(a, int);
        if (key == RKConfigKeyNull) break;
        if (key == RKConfigKeySweepElevation) { advEl = va_arg(a, double); s = 1; }
        else if (key == RKConfigKeySweepAzimuth) advAz = va_arg(a, double);
        else if (key == RKConfigKeyPulseGateSize) advSize = va_arg(a, double);
        else if (key == RKConfigKeyPulseGateCount) g = va_arg(a, uint32_t);
        else if (key == RKConfigKeyPositionMarker) advMk = va_arg(a, uint32_t);
        else VP_ASSERT(0, "only the keys of a sweep change");
    }
    va_end(a);
    if (s) { advSeen |= 1; advGc[0] = g; } else { advSeen |= 2; advGc[1] = g; }
    adv++;
    configIndex = (configIndex + 1) % CDEPTH;
}
static float vp_fmodf(float a, float b) { return 0.5f; }
#define fmodf vp_fmodf
#define usleep vp_usleep
#define gettimeofday vp_gettimeofday
#define RKInterpolatePositiveAngles vp_interpP
#define RKInterpolateAngles vp_interp
#define RKConfigAdvanceEllipsis vp_advance
#ifdef VP_CBMC
/* the accessor's contract is B01's */
static RKPulse *vp_pulse(RKBuffer b, const uint32_t n) { VP_ASSERT(b == (RKBuffer)pulses && n < DEPTH, "a pulse of the buffer"); return &pulses[n].head; }
#define RKGetPulseFromBuffer vp_pulse
#endif
#include "RKPositionEngine.c"
#undef usleep
#undef gettimeofday
VP_SILENT
void h_tag(void) {
    np = nr = nq = nqr = judged = 0; prevHi = -1; prevMarker = RKMarkerSweepEnd; adv = advSeen = stalled = 0; nInterp = nInterpP = 0; pulseIndex = positionIndex = configIndex = 0;
#ifdef VP_NATIVE
    memset(pulses, 0, sizeof(pulses)); memset(pos, 0, sizeof(pos)); memset(&engine, 0, sizeof(engine));
#endif
    VP_DRAW_RANGE(configIndex, "configIndex", 0, CDEPTH - 1);
    for (int q = 0; q < NQ; q++) {
#ifdef VP_CBMC
        qt[q] = qtimes[q];
#else
        int d; VP_DRAW_RANGE(d, "dt", 0, 2);
        qt[q] = q ? qt[q - 1] + (1 << d) : 1;
#endif
        VP_DRAW(qf[q], "flag"); qf[q] &= ~(RKPositionFlagReady | RKPositionFlagUsed);
    }
    for (int n = 0; n < NP; n++) {
#ifdef VP_CBMC
        pt[n] = ptimes[n];
#else
        VP_DRAW_RANGE(pt[n], "pulsestep", 0, NP > 2 ? 3 : 4 * NQ); pt[n] += n ? pt[n - 1] : 1; VP_ASSUME(pt[n] < qt[NQ - 1]);
#endif
        VP_DRAW_RANGE(gc[n], "gateCount", 1, CAP);
    }
    for (int n = 0; n < DEPTH; n++) { pulses[n].head.header.capacity = CAP; }
    /* one pulse has been announced before the tagger looks */
    prevGates = pulses[0].head.header.gateCount;
    engine.state = RKEngineStateProperlyWired | RKEngineStateActivating;
    engine.radarDescription = &desc; desc.pulseBufferDepth = DEPTH; desc.positionBufferDepth = QDEPTH; desc.configBufferDepth = CDEPTH;
    engine.configBuffer = cfg; engine.configIndex = &configIndex; engine.pulseBuffer = (RKBuffer)pulses; engine.pulseIndex = &pulseIndex; engine.positionBuffer = pos; engine.positionIndex = &positionIndex;
    pulseTagger(&engine);
    look();
    VP_ASSERT(judged == NP || stalled, "every pulse is tagged");
#ifdef VP_NATIVE
    if (judged == NP) VP_REACH("all pulses tagged");
#endif
}
