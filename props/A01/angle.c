/* A01: angle arithmetic and ring indices */
#include <RadarKit.h>
#include <math.h>
#include "vp.h"
#include "RKDSP.c"
#define EPS 1e-4f
static float any(void) { VP_IN_RANGE(float, f, -180.0f, 360.0f); return f; }
/* congruent modulo a turn, in the arithmetic of the code (one rounding per addition) */
static int turns(float v, float d) { return v == d || v == d - 360.0f || v == d + 360.0f; }
void h_minor(void) {
    float a = any(), b = any();
    float v = RKGetSignedMinorSectorInDegrees(a, b);
    VP_ASSERT(turns(v, a - b), "the sector is the difference up to whole turns");
    VP_ASSERT(v >= -180.0f && v <= 180.0f, "the sector is the minor one");
    float u = RKGetMinorSectorInDegrees(a, b);
    VP_ASSERT(u == (v < 0 ? -v : v), "the unsigned sector is the magnitude of the signed one");
    if (v != a - b) VP_REACH("wrapped");
}
void h_diff(void) {
    float m = any(), s = any();
    VP_ASSUME(m - s < 540.0f);
    float d = RKMinDiff(m, s);
    VP_ASSERT(turns(d, m - s), "the difference is exact up to whole turns");
    VP_ASSERT(d >= -180.0f && d < 180.0f, "the signed difference is in [-180, 180)");
    float u = RKUMinDiff(m, s);
    VP_ASSERT(u == (d < 0 ? -d : d), "the unsigned difference is its magnitude");
    VP_ASSERT(u >= 0.0f && u <= 180.0f, "the unsigned difference is in [0, 180]");
    if (d != m - s) VP_REACH("wrapped");
}
void h_mod(void) {
    VP_IN_RANGE(float, m, 0.0f, 360.0f); VP_IN_RANGE(float, s, 0.0f, 360.0f);
    float d = RKModulo360Diff(m, s);
    VP_ASSERT(d >= 0.0f && d <= 360.0f, "the clockwise difference is in [0, 360]");
    VP_ASSERT(turns(d, m - s), "the clockwise difference is the difference up to whole turns");
    if (m >= s) VP_ASSERT(d == m - s, "no turn is added going forward");
    if (m < s) VP_REACH("wrapped");
}
void h_cross(void) {
    float a1 = any(), a2 = any(), c = any();
    float d1 = RKMinDiff(a1, c), d2 = RKMinDiff(a2, c);
    int v = RKAngularCrossOver(a1, a2, c);
    float m1 = d1 < 0 ? -d1 : d1;
    if (m1 <= 0.0001f) VP_ASSERT(v, "on the angle counts as crossed");
    else if (v) VP_ASSERT(m1 < 10.0f && (d1 < 0 && d2 > 0 || d1 > 0 && d2 < 0), "crossed only from one side to the other, close by");
    else VP_ASSERT(m1 >= 10.0f || !(d1 <= -1e-3f && d2 >= 1e-3f || d1 >= 1e-3f && d2 <= -1e-3f), "a crossing close by is noticed");
    if (v) VP_REACH("crossed"); if (!v) VP_REACH("not crossed");
}
/* offset o lies on the arc from 0 to s (up to whole turns and rounding) */
static int on(float o, float s) { return s >= 0 ? o >= -EPS && o <= s + EPS : o <= EPS && o >= s - EPS; }
static int near(float x, float y) { return x - y <= EPS && y - x <= EPS; }
static int arc(float o, float s) { return on(o, s) || on(o - 360.0f, s) || on(o + 360.0f, s); }
static int equals(float x, float y) { return near(x, y) || near(x - 360.0f, y) || near(x + 360.0f, y); }
#ifdef ELEV
#define INTERP RKInterpolateAngles
#define LO (-90)
#define HI 180
#else
#define INTERP RKInterpolatePositiveAngles
#define LO 0
#define HI 360
#endif
/* exact on the 1/16 degree grid: no rounding takes place, so the specification is integer arithmetic */
void h_interp(void);
#ifndef KK
#define KK 2
#endif
void h_grid(void) {
    VP_IN_RANGE(int, a, LO * 16, HI * 16); VP_IN_RANGE(int, b, LO * 16, HI * 16); const int k = KK;
    int s = b - a; if (s > 180 * 16) s -= 360 * 16; if (s < -180 * 16) s += 360 * 16;
    float v = INTERP(a * 0.0625f, b * 0.0625f, k == 0 ? 0.0f : k == 1 ? 0.25f : k == 2 ? 0.5f : k == 3 ? 0.75f : 1.0f);
    int e = a * 4 + k * s;                           /* in 1/64 degrees */
#ifndef ELEV
    if (e > 360 * 64) e -= 360 * 64; if (e < 0) e += 360 * 64;
    VP_ASSERT(v >= 0.0f && v <= 360.0f, "the interpolated azimuth is in [0, 360]");
#endif
    int w = (int)(v * 64.0f);
    VP_ASSERT((float)w == v * 64.0f && w == e, "the interpolated angle divides the minor arc in the given proportion");
    if (s < 0) VP_REACH("between");
#ifdef VP_NATIVE
    h_interp();                                      /* any float, with the tolerance of its rounding */
#endif
}
void h_interp(void) {
    VP_IN_RANGE(float, a, LO, HI); VP_IN_RANGE(float, b, LO, HI); VP_IN_RANGE(float, t, 0.0f, 1.0f);
#ifdef ELEV
    VP_ASSUME(b - a <= 180.0f && b - a >= -180.0f);
    float v = INTERP(a, b, t);
    VP_ASSERT(on(v - a, b - a), "the interpolated angle lies between the two");
#else
    float s = RKGetSignedMinorSectorInDegrees(b, a), v = INTERP(a, b, t);
    VP_ASSERT(v >= 0.0f && v <= 360.0f, "the interpolated azimuth is in [0, 360]");
    VP_ASSERT(arc(v - a, s), "the interpolated angle lies on the minor arc");
#endif
    if (t == 0.0f) VP_ASSERT(v == a, "at the beginning it is the first angle");
    if (t == 1.0f) VP_ASSERT(equals(v, b), "at the end it is the second angle");
    VP_REACH("between");
}
void h_ring(void) {
    VP_IN(uint32_t, S); VP_IN(uint32_t, i); VP_IN(uint32_t, n);
#ifdef VP_NATIVE
    S = S % 100000; i = S ? i % S : 0; n = S ? n % (S + 1) : 0;
#endif
    VP_ASSUME(S > 0 && S <= 0x7FFFFFFF && i < S && n <= S);
    uint64_t up = (uint64_t)i + n, dn = (uint64_t)i + S - n; if (up >= S) up -= S; if (dn >= S) dn -= S;
    VP_ASSERT(RKNextNModuloS(i, n, S) == up, "n slots ahead, around the ring");
    VP_ASSERT(RKPreviousNModuloS(i, n, S) == dn, "n slots back, around the ring");
    VP_ASSERT(RKNextModuloS(i, S) == (i + 1 == S ? 0 : i + 1), "the next slot");
    VP_ASSERT(RKPreviousModuloS(i, S) == (i == 0 ? S - 1 : i - 1), "the previous slot");
    if (n < S) { uint32_t h = RKNextNModuloS(i, n, S); VP_ASSERT(RKModuloLag(h, i, S) == n, "the lag of a slot n ahead is n"); }
    VP_REACH("ring");
}
