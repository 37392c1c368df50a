/* S01: the volume scan engine: one position in, at most one instruction per axis out. */
#ifdef CAP
#include <RadarKit/RKTypes.h>
#undef RKMaximumScanCount
#define RKMaximumScanCount CAP
#endif
#include <RadarKit.h>
#include <math.h>
#include "vp.h"
#ifdef VP_CBMC
int sprintf(char *s, const char *f, ...) { return 0; }
#define RKLog(...) ((void)0)
/* memcpy as a contract: both ranges accessible; the witness scan path is copied */
static int w;                           /* witness index into the scan lists */
static void *vp_memcpy(void *d, const void *s, size_t n) {
    VP_ASSERT(n <= sizeof(RKScanPath) * RKMaximumScanCount, "no scan list overflows");
    if (n > (size_t)w * sizeof(RKScanPath)) ((RKScanPath *)d)[w] = ((const RKScanPath *)s)[w];
    return d;
}
static void *vp_memset(void *d, int c, size_t n) {
    VP_ASSERT(n == sizeof(RKScanAction) && c == 0, "one action is cleared");
    *(RKScanAction *)d = (RKScanAction){0};
    return d;
}
#define memcpy vp_memcpy
#define memset vp_memset
#else
static int w;
#endif
#ifdef VP_CBMC
/* the angle helpers, memoized: the same pure functions (they have their own contracts in A01); the
 * specification and the code then share one value per angle difference instead of one circuit each */
static float m_es, m_e, m_as, m_a, m_del, m_daz, m_ee, m_ep, m_ae, m_ap; static _Bool m_on, m_ce, m_ca;
static float vp_mindiff(const float m, const float s) {
    if (m_on && m == m_es && s == m_e) return m_del;
    if (m_on && m == m_as && s == m_a) return m_daz;
    return RKMinDiff(m, s);
}
static _Bool vp_cross(const float a1, const float a2, const float c) {
    if (m_on && a1 == m_e && a2 == m_ep && c == m_ee) return m_ce;
    if (m_on && a1 == m_a && a2 == m_ap && c == m_ae) return m_ca;
    return RKAngularCrossOver(a1, a2, c);
}
#define RKMinDiff vp_mindiff
#define RKAngularCrossOver vp_cross
#endif
#include "RKSteerEngine.c"
#undef RKMinDiff
#undef RKAngularCrossOver
#undef memcpy
#undef memset
#define TOLP 0.1f
#define TOLV 0.25f
enum { STANDBY = 1, SLEW = 4, POINT = 5, EL = 0x10, AZ = 0x20 };
static RKSteerEngine E;
static RKRadarDesc D;
static RKPosition pb[2];
static uint32_t pidx;
static float any(void) { VP_IN(float, f); VP_ASSUME(!__builtin_isnan(f)); return f; }
static float angle(void) { VP_IN_RANGE(float, f, -360.0f, 720.0f); return f; }
/* an engine in any state its interface can leave it in */
static void setup(void) {
    RKScanObject *V = &E.vcpHandle;
    VP_IN_RANGE(int, n, 0, RKMaximumScanCount); VP_IN_RANGE(int, d, 0, RKMaximumScanCount); VP_IN_RANGE(int, h, 0, RKMaximumScanCount);
#ifdef IDX
    const int i = IDX; VP_ASSUME(n > i || n == 0 && i == 0);
#else
    VP_IN_RANGE(int, i, 0, RKMaximumScanCount - 1);
#endif
#if defined(VP_NATIVE) && !defined(IDX)
    if (i >= n) i = n ? i % n : 0;
#endif
    VP_ASSUME(i == 0 || i < n);
    VP_IN(uint8_t, active); VP_IN_RANGE(uint8_t, prog, 0, 16); VP_IN_RANGE(uint8_t, option, 0, 7);
    VP_ASSUME(prog == 0 || prog == RKScanProgressSetup || prog == RKScanProgressMiddle || prog == (RKScanProgressSetup | RKScanProgressMiddle) || prog == RKScanProgressStopPedestal);
    VP_IN_RANGE(int, tic, 0, 2000000000); VP_IN_RANGE(int, toc, -2000000000, 2000000000);
    VP_IN_RANGE(int, ai, 0, RKPedestalActionBufferDepth - 1); const uint32_t si = 3;
    VP_IN_RANGE(uint8_t, dt, 0, 1);
#ifdef VP_NATIVE
    if (dt) { tic %= 400; toc = toc < 0 ? 0 : toc % 300; }
#endif
    V->sweepCount = n; V->onDeckCount = d; V->inTheHoleCount = h; V->i = i;
    V->active = active & 1; V->progress = prog; V->option = option; V->tic = tic; V->toc = toc;
    V->elevationPrevious = any(); V->azimuthPrevious = any();
    E.actionIndex = ai; E.statusBufferIndex = si; E.tic = 5;
    pidx = 0; D.positionBufferDepth = 2;
    E.radarDescription = &D; E.positionBuffer = pb; E.positionIndex = &pidx;
}
static RKPosition *position(void) {
    static RKPosition p;
    VP_IN(uint32_t, flag);
    p.flag = flag;
    p.elevationDegrees = any(); p.azimuthDegrees = any();
    p.elevationVelocityDegreesPerSecond = any(); p.azimuthVelocityDegreesPerSecond = any();
    p.sweepElevationDegrees = 1.0f; p.sweepAzimuthDegrees = 2.0f;
    return &p;
}
/* instructions per axis found in an action */
static int count(const RKScanAction *a, int axis) { return ((a->mode[0] & 0xf0) == axis) + ((a->mode[1] & 0xf0) == axis); }
static int modeof(const RKScanAction *a, int axis) { return (a->mode[0] & 0xf0) == axis ? a->mode[0] & 0x0f : (a->mode[1] & 0xf0) == axis ? a->mode[1] & 0x0f : 0; }
static float valueof(const RKScanAction *a, int axis) { return (a->mode[0] & 0xf0) == axis ? a->value[0] : a->value[1]; }
static int wellformed(int m) { return m == 0 || ((m & 0x0f) == STANDBY || (m & 0x0f) == SLEW || (m & 0x0f) == POINT) && ((m & 0xf0) == EL || (m & 0xf0) == AZ) && m < 0x100; }
static float rate(float d, int axis) {
    float g = fabsf(d), r;
    if (axis == AZ) r = g >= 20.0f ? 30.0f : g >= 10.0f ? 20.0f : g >= 5.0f ? 10.0f : g >= 1.5f ? 3.0f : 1.0f;
    else r = g >= 20.0f ? 15.0f : g >= 3.0f ? 10.0f : g >= 0.5f ? 3.0f : 1.0f;
    return d < 0.0f ? -r : r;
}
/* the instruction that brings an axis to its start, or holds it there */
static int wantmode(float diff, float vel, int usepoint, int strict) {
    if (fabsf(diff) >= TOLP) return usepoint ? POINT : SLEW;
    if (strict ? fabsf(vel) > TOLV : fabsf(vel) >= TOLV) return STANDBY;
    return 0;
}
static float wantvalue(int m, float diff, float start, int axis) { return m == SLEW ? rate(diff, axis) : m == POINT ? start : 0.0f; }

void h_action(void) {
    setup();
    RKScanObject *V = &E.vcpHandle;
    RKPosition *p = position();
#ifdef MODE
    const int mode = MODE;
#else
    VP_IN_RANGE(uint8_t, mode, 0, 5);
#endif
    RKScanPath s = {.mode = mode, .azimuthStart = any(), .azimuthEnd = any(), .azimuthSlew = any(), .elevationStart = any(), .elevationEnd = any(), .elevationSlew = any()};
#ifdef VP_NATIVE
    { VP_IN_RANGE(uint8_t, near, 0, 63);
      VP_IN_RANGE(float, x, 0, 400); VP_IN_RANGE(float, y, -3, 3); VP_IN_RANGE(float, z, 0, 400);
      if (near) { s.elevationStart = y; s.azimuthStart = x; s.elevationEnd = z; s.azimuthEnd = z; s.azimuthSlew = y * 6; s.elevationSlew = y; }
      if (near & 1) p->elevationDegrees = y + 0.01f; if (near & 2) p->azimuthDegrees = x + 0.02f;
      if (near & 4) p->elevationVelocityDegreesPerSecond = 0.1f; if (near & 8) p->azimuthVelocityDegreesPerSecond = 0.1f;
      if (near & 16) { p->elevationDegrees = z + 1; V->elevationPrevious = z - 1; } if (near & 32) { p->azimuthDegrees = z + 1; V->azimuthPrevious = z - 1; } }
#endif
    V->batterScans[V->i] = s;
    VP_IN_RANGE(uint8_t, cmode, 0, 5);
    RKScanPath deck0 = {.mode = cmode}, hole0 = {.mode = cmode ^ 1, .azimuthEnd = 1.0f};
    V->onDeckScans[0] = deck0; V->inTheHoleScans[0] = hole0; w = 0;
    const RKScanPath first = V->batterScans[0];
    const int active = V->active, n = V->sweepCount, d = V->onDeckCount, h = V->inTheHoleCount, i = V->i, p0 = V->progress, opt = V->option, tic = V->tic, toc = V->toc, ai = E.actionIndex;
    const uint64_t etic = E.tic;
    const RKPosition q = *p;
    const float elprev = V->elevationPrevious, azprev = V->azimuthPrevious;
    const float del = RKMinDiff(s.elevationStart, q.elevationDegrees), daz = RKMinDiff(s.azimuthStart, q.azimuthDegrees);
    const int crossel = RKAngularCrossOver(q.elevationDegrees, elprev, s.elevationEnd), crossaz = RKAngularCrossOver(q.azimuthDegrees, azprev, s.azimuthEnd);
    const float slewgap = fabsf(V->batterScans[V->i].azimuthSlew - p->azimuthVelocityDegreesPerSecond);
#ifdef VP_CBMC
    /* lemma: equal arguments, equal results (both helpers are pure) */
    VP_ASSUME(!(s.elevationStart == s.azimuthStart && q.elevationDegrees == q.azimuthDegrees) || del == daz);
    VP_ASSUME(!(s.elevationEnd == s.azimuthEnd && q.elevationDegrees == q.azimuthDegrees && elprev == azprev) || crossel == crossaz);
    m_es = s.elevationStart; m_e = q.elevationDegrees; m_as = s.azimuthStart; m_a = q.azimuthDegrees; m_del = del; m_daz = daz;
    m_ee = s.elevationEnd; m_ep = elprev; m_ae = s.azimuthEnd; m_ap = azprev; m_ce = crossel; m_ca = crossaz; m_on = 1;
#endif
    RKScanAction *a = RKSteerEngineGetAction(&E, p);
    /* on every call */
    VP_ASSERT(a == &E.actions[ai], "the returned action is the current slot of the action ring");
    VP_ASSERT(E.actionIndex == (ai + 1) % RKPedestalActionBufferDepth, "the action ring advances by one slot");
    VP_ASSERT(E.tic == etic + 1, "the engine counts every position");
    VP_ASSERT(V->elevationPrevious == q.elevationDegrees && V->azimuthPrevious == q.azimuthDegrees, "the position is remembered for crossover detection");
    VP_ASSERT(wellformed(a->mode[0]) && wellformed(a->mode[1]), "every instruction has one type and one axis");
    VP_ASSERT(count(a, EL) <= 1 && count(a, AZ) <= 1, "at most one instruction per axis");
    VP_ASSERT(V->i == 0 || V->i < V->sweepCount, "the sweep index stays inside the volume");
    VP_ASSERT(V->sweepCount <= RKMaximumScanCount && V->onDeckCount <= RKMaximumScanCount && V->inTheHoleCount <= RKMaximumScanCount, "scan lists stay within capacity");
    VP_ASSERT(V->progress == 0 || V->progress == 1 || V->progress == 4 || V->progress == 5, "the engine stays in a state from which it makes progress");
    VP_ASSERT(V->option == opt && V->toc == toc, "options are left alone");
    VP_ASSERT(p->elevationDegrees == q.elevationDegrees && p->azimuthDegrees == q.azimuthDegrees && p->elevationVelocityDegreesPerSecond == q.elevationVelocityDegreesPerSecond && p->azimuthVelocityDegreesPerSecond == q.azimuthVelocityDegreesPerSecond, "the measured position is not altered");
    const int em = modeof(a, EL), am = modeof(a, AZ);
    const int none = em == 0 && am == 0;
    VP_ASSERT(V->tic == (none ? tic + 1 : 1), "an instruction restarts the settling timer");
    const float ve = q.elevationVelocityDegreesPerSecond, va = q.azimuthVelocityDegreesPerSecond;
    if (!active || n == 0 || p0 == RKScanProgressStopPedestal) {
        const int stop = p0 == RKScanProgressStopPedestal;
        VP_ASSERT(em == (stop && fabsf(ve) > TOLV ? STANDBY : 0), "idle: elevation standby exactly when a stop is pending and it moves");
        VP_ASSERT(am == (stop && fabsf(va) > TOLV ? STANDBY : 0), "idle: azimuth standby exactly when a stop is pending and it moves");
        VP_ASSERT(V->progress == (stop ? 0 : p0), "a stop request is consumed once");
        VP_ASSERT(V->active == active && V->sweepCount == n && V->onDeckCount == d && V->i == i, "idle: the volume is left alone");
        VP_ASSERT(p->flag == q.flag && p->sweepElevationDegrees == 1.0f && p->sweepAzimuthDegrees == 2.0f, "idle: positions carry no scan flags");
        if (em && am) VP_REACH("stop both axes");
        return;
    }
    const int onel = fabsf(del) < TOLP, onaz = fabsf(daz) < TOLP, both = onel && onaz, usep = (opt & RKScanOptionUsePoint) != 0;
    const int turn = (p0 & RKScanProgressSetup) && tic >= toc && mode != RKScanModeNone;
    const int rhi = mode == RKScanModeRHI || mode == RKScanModeSpeedDown, ppi = mode == RKScanModePPI, sec = mode == RKScanModeSector, pnt = mode == RKScanModePoint;
    /* instructions */
    int xe = 0, xa = 0; float ye = 0.0f, ya = 0.0f;
    if (turn) {
        xe = wantmode(del, ve, usep, pnt); ye = wantvalue(xe, del, s.elevationStart, EL);
        if (ppi) {
            xa = slewgap >= TOLV ? SLEW : 0; ya = s.azimuthSlew;
        } else {
            xa = wantmode(daz, va, usep && pnt, pnt); ya = wantvalue(xa, daz, s.azimuthStart, AZ);
        }
        if (rhi && both) { xe = SLEW; ye = s.elevationSlew; }
        if (sec && both) { xa = SLEW; ya = s.azimuthSlew; }
    }
    const int ready = turn && (ppi ? onel && fabsf(ve) < 0.5 * TOLV : both);
    /* positioned and collecting? */
    int mid = ((p0 & RKScanProgressMiddle) && (ppi || !(p0 & RKScanProgressSetup))) || (p0 == 0 && ppi) || (ready && !pnt);
    const int set = (p0 == 0 || ((p0 & RKScanProgressSetup) && !ready));
    if (p0 == RKScanProgressMiddle && ppi && tic > 25 && fabsf(ve) >= TOLV && fabsf(va) > TOLV) { xe = STANDBY; ye = 0.0f; }
    else if (ppi && ready && tic > 25 && xe == 0 && xa == 0) { /* still ve < tolerance: no further standby */ }
    VP_ASSERT(em == xe, "the elevation instruction brings the axis to the sweep, holds it or sweeps it");
    VP_ASSERT(am == xa, "the azimuth instruction brings the axis to the sweep, holds it or sweeps it");
    if (xe) VP_ASSERT(valueof(a, EL) == ye || ye != ye, "the elevation rate or target follows from the scan");
    if (xa) VP_ASSERT(valueof(a, AZ) == ya || ya != ya, "the azimuth rate or target follows from the scan");
    /* end of the sweep */
    const int tic1 = none ? tic : 0;
    int end = 0;
    if (mode == RKScanModeRHI && mid && fabsf(ve) > TOLV) end = crossel;
    if (ppi && mid && fabsf(va) > TOLV) end = tic1 > 200 && crossaz;
    if (sec && mid && fabsf(va) > TOLV) end = crossaz;
    if (pnt) end = ready || (p0 & RKScanProgressMiddle && !(p0 & RKScanProgressSetup));
    if (mode == RKScanModeRHI && end) mid = 0;
    if (pnt) mid = 0;
    uint32_t f = q.flag | RKPositionFlagVCPActive;
    if (mid) f |= RKPositionFlagScanActive;
    if (ppi || sec) f |= RKPositionFlagAzimuthSweep | RKPositionFlagElevationPoint | (end ? RKPositionFlagAzimuthComplete : 0);
    if (mode == RKScanModeRHI) f |= RKPositionFlagAzimuthPoint | RKPositionFlagElevationSweep | (end ? RKPositionFlagElevationComplete : 0);
    if (pnt) f |= RKPositionFlagAzimuthPoint | RKPositionFlagElevationPoint | (end ? RKPositionFlagAzimuthComplete | RKPositionFlagElevationComplete : 0);
    VP_ASSERT(!(p->flag & ~f & RKPositionFlagScanActive), "positions are marked collecting only once the sweep is positioned");
    VP_ASSERT(p->flag == f, "position flags say what the scan is doing");
    VP_ASSERT(p->sweepElevationDegrees == s.elevationStart && p->sweepAzimuthDegrees == s.azimuthStart, "positions carry the sweep's nominal angles");
    if (!end) {
        VP_ASSERT(V->i == i && V->active && V->sweepCount == n && V->onDeckCount == d && V->inTheHoleCount == h, "a sweep lasts until its end is crossed");
        VP_ASSERT(V->progress == (set ? RKScanProgressSetup : 0) + (mid ? RKScanProgressMiddle : 0), "a sweep is positioned first, then collected");
    } else {
        VP_ASSERT((V->progress & RKScanProgressSetup) || !V->active, "the next sweep is positioned anew");
        if (i + 1 < n) {
            VP_ASSERT(V->i == i + 1 && V->active && V->sweepCount == n && V->onDeckCount == d, "sweeps run in order, each once");
        } else if (opt & RKScanOptionRepeat) {
            VP_ASSERT(V->active && V->i == 0 && V->sweepCount == d && V->onDeckCount == h && V->inTheHoleCount == h, "a repeating volume brings up the next one");
            if (d > 0) VP_ASSERT(V->batterScans[0].mode == deck0.mode, "the volume on deck comes to bat");
            if (h > 0) VP_ASSERT(V->onDeckScans[0].mode == hole0.mode && V->onDeckScans[0].azimuthEnd == 1.0f, "the volume in the hole moves on deck");
        } else {
            VP_ASSERT(!V->active, "without repeat the volume stops after its last sweep");
            const int last = n == 1 && first.mode == RKScanModePoint;
            VP_ASSERT(V->sweepCount == (last ? 0 : n), "a finished single point is cleared");
        }
#if !defined(MODE) || (MODE != 5 && MODE != 0)
        VP_REACH("sweep ended");
#endif
    }
    if (!none) VP_REACH("instruction issued");
}
/* list operations */
#ifndef OPLO
#define OPLO 0
#define OPHI 8
#endif
void h_lists(void) {
    setup();
    RKScanObject *V = &E.vcpHandle;
    VP_IN_RANGE(int, wit, 0, RKMaximumScanCount - 1);
    w = wit;
    VP_IN(uint8_t, m1); VP_IN(uint8_t, m2); VP_IN(uint8_t, m3); VP_IN_RANGE(int, op, OPLO, OPHI);
    V->batterScans[w].mode = m1; V->onDeckScans[w].mode = m2; V->inTheHoleScans[w].mode = m3;
    RKScanPath x = {.mode = RKScanModePPI, .azimuthStart = 3.0f};
    const int n = V->sweepCount, d = V->onDeckCount, h = V->inTheHoleCount, i = V->i, act = V->active, pr = V->progress, opt = V->option;
    int r = 0, wb = m1, wd = m2, wh = m3, xn = n, xd = d, xh = h, xi = i, xact = act, xpr = pr, xopt = opt;
    if (op == 0) { r = RKSteerEngineAddLineupSweep(&E, x);
        if (d < RKMaximumScanCount && h < RKMaximumScanCount) { xd++; xh++; if (w == d) wd = RKScanModePPI; if (w == h) wh = RKScanModePPI; VP_ASSERT(r == RKResultSuccess, "room left: accepted"); }
        else VP_ASSERT(r == RKResultTooBig, "a full list refuses a sweep");
    } else if (op == 1) { r = RKSteerEngineAddPinchSweep(&E, x);
        if (d < RKMaximumScanCount) { xd++; if (w == d) wd = RKScanModePPI; VP_ASSERT(r == RKResultSuccess, "room left: accepted"); } else VP_ASSERT(r == RKResultTooBig, "a full list refuses a sweep");
    } else if (op == 2) { RKSteerEngineNextHitter(&E); if (w < d) wb = m2; if (w < h) wd = m3; xn = d; xd = h; xi = 0; xact = 1;
    } else if (op == 3) { RKSteerEngineClearSweeps(&E); xn = xd = xh = xi = 0; xpr = 0;
    } else if (op == 4) { RKSteerEngineClearHole(&E); xd = xh = 0;
    } else if (op == 5) { RKSteerEngineClearDeck(&E); xd = 0;
    } else if (op == 6) { VP_IN_RANGE(uint8_t, rep, 0, 1); RKSteerEngineArmSweeps(&E, rep); xpr = 0; xi = 0; xact = 1; xopt = rep ? opt | RKScanOptionRepeat : opt & ~RKScanOptionRepeat;
    } else if (op == 7) { RKSteerEngineStopSweeps(&E); xact = 0; xpr = RKScanProgressStopPedestal;
    } else { RKSteerEngineStartSweeps(&E); xact = 1; }
    VP_ASSERT(V->sweepCount == xn && V->onDeckCount == xd && V->inTheHoleCount == xh, "scan counts follow the operation");
    VP_ASSERT(V->batterScans[w].mode == wb && V->onDeckScans[w].mode == wd && V->inTheHoleScans[w].mode == wh, "scan lists hold what was queued, in order");
    VP_ASSERT(V->i == xi && V->active == xact && V->progress == xpr && V->option == xopt, "scan state follows the operation");
    VP_REACH("list operation");
}
/* the status line: any slot of its ring */
void h_status(void) {
    setup();
    VP_IN_RANGE(uint32_t, slot, 0, RKBufferSSlotCount - 1); VP_IN(uint8_t, m0);
    E.actions[E.actionIndex].mode[0] = m0;
    const int active = E.vcpHandle.active, i = E.vcpHandle.i, prog = E.vcpHandle.progress, ai = E.actionIndex;
    for (int k = 0; k < RKBufferSSlotCount; k++) if (slot == k) { E.statusBufferIndex = k; RKSteerEngineUpdateStatusString(&E); }
    VP_ASSERT(E.statusBufferIndex == (slot + 1) % RKBufferSSlotCount, "the status ring advances by one slot");
    VP_ASSERT(E.vcpHandle.active == active && E.vcpHandle.i == i && E.vcpHandle.progress == prog && E.actionIndex == ai && E.actions[ai].mode[0] == m0, "reporting status leaves the scan alone");
    VP_REACH("status");
}
void h_rate(void) {
    VP_IN(float, d); VP_ASSUME(!__builtin_isnan(d));
    float e = RKSteerEngineGetRate(d, RKPedestalAxisElevation), z = RKSteerEngineGetRate(d, RKPedestalAxisAzimuth);
    VP_ASSERT(e == rate(d, EL) && z == rate(d, AZ), "slew rate follows the distance table");
    VP_ASSERT(fabsf(e) <= 15.0f && fabsf(z) <= 30.0f && fabsf(e) >= 1.0f && fabsf(z) >= 1.0f, "slew rate within limits");
    VP_ASSERT((d < 0.0f) == (e < 0.0f) && (d < 0.0f) == (z < 0.0f), "slewing goes toward the target");
    VP_REACH("rate");
}
