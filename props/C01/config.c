/* C01: the operating configuration advances as a whole. One call of RKConfigAdvanceEllipsis with up to two keys against
 * the value it must produce, on any buffer content. */
#include <RadarKit.h>
#include "vp.h"
#ifdef VP_NATIVE
#undef DEPTH
#define DEPTH 5
#endif
#ifndef DEPTH
#define DEPTH 3
#endif
#define VCP (RKMaximumCommandLength - 8)
static RKConfig buf[DEPTH], was[DEPTH], E;
static RKWaveform wf, wg; static RKWaveformCalibration cal;
static int locked, balance;
static int vp_lock(pthread_mutex_t *m) { VP_ASSERT(!locked, "the lock is free at every call"); locked = 1; return 0; }
static int vp_unlock(pthread_mutex_t *m) { VP_ASSERT(locked, "the lock is held"); locked = 0; return 0; }
#define pthread_mutex_lock vp_lock
#define pthread_mutex_unlock vp_unlock
#ifdef VP_CBMC
static char text[VCP + 64]; static size_t textLen;      /* a string argument: ghost length */
static size_t wit;                                       /* any position in a string member */
static void *vp_memcpy(void *d, const void *s, size_t n) {
    if (n == sizeof(RKConfig)) { *(RKConfig *)d = *(const RKConfig *)s; return d; }
    VP_ASSERT(0, "a configuration is copied as a whole"); return d;
}
static void *vp_memset(void *d, int c, size_t n) { return d; }
static char *vp_strncpy(char *d, const char *s, size_t n) {
    VP_ASSERT(n <= (d == E.waveformName ? RKNameLength : RKMaximumCommandLength), "a string fits its place");
    if (wit < n) d[wit] = wit < textLen ? s[wit] : 0;
    return d;
}
static int vp_snprintf(char *d, size_t n, const char *f, ...) {
    va_list a; va_start(a, f);
    if (f[0] == '%' && f[1] == 's' && f[2] == 0) { const char *s = va_arg(a, const char *); if (n && wit < n) d[wit] = wit < n - 1 ? s[wit] : 0; }
    va_end(a);
    return 1;
}
static int vp_sprintf(char *d, const char *f, ...) { return 1; }
static size_t vp_strlen(const char *s) { return 0; }
static float vp_log10f(float x) { float r; return r; }
#define memcpy vp_memcpy
#define memset vp_memset
#define strncpy vp_strncpy
#define snprintf vp_snprintf
#define sprintf vp_sprintf
#define strlen vp_strlen
#define log10f vp_log10f
#define printf(...) (void)0
#define RKVariableInString(a, b, c) ((void)*(b), "")
#define RKFloatToCommaStyleString(x) ""
#define RKIntegerToCommaStyleString(x) ""
#define RKLog(...) (void)0
#define roundf(x) (x)
#else
static char text[VCP + 64];
#define printf(...) (void)0
VP_SILENT
#endif
#include "RKConfig.c"
#undef memcpy
#undef memset
#undef strncpy
#undef snprintf
#undef sprintf
#undef strlen
static void makeText(void) {
#ifdef VP_CBMC
    VP_IN_RANGE(size_t, tl, 0, sizeof(text) - 1); VP_ASSUME(textLen == tl);
#else
    VP_IN_RANGE(size_t, tl, 0, sizeof(text) - 1);
    for (size_t i = 0; i < tl; i++) text[i] = 'a' + (i * 7 + tl) % 26;
    text[tl] = 0;
#endif
}
#define F(x) VP_DRAW(x, #x)
static void draw(RKConfig *c) {
    F(c->i); F(c->sweepElevation); F(c->sweepAzimuth); F(c->startMarker);
    F(c->pulseGateCount); F(c->pulseGateSize); F(c->transitionGateCount); F(c->ringFilterGateCount);
    for (int k = 0; k < RKMaximumFilterCount; k++) { F(c->prt[k]); F(c->pw[k]); F(c->waveformId[k]); F(c->ZCal[k][0]); F(c->ZCal[k][1]); F(c->DCal[k]); F(c->PCal[k]); }
    for (int k = 0; k < 2; k++) { F(c->noise[k]); F(c->systemZCal[k]); }
    F(c->systemDCal); F(c->systemPCal); F(c->SNRThreshold); F(c->SQIThreshold);
#ifdef VP_CBMC
    F(c->waveformName[wit < RKNameLength ? wit : 0]); F(c->vcpDefinition[wit]);
#else
    c->waveformName[0] = 'n'; c->waveformName[1] = 0; memset(c->vcpDefinition, 'v', 300); c->vcpDefinition[300] = 0;
#endif
    int w; VP_DRAW_RANGE(w, "waveform", 0, 1); c->waveform = w ? &wf : NULL; VP_DRAW_RANGE(w, "decimate", 0, 1); c->waveformDecimate = w ? &wg : NULL;
    c->userResource = NULL;
}
static _Bool feq(float a, float b) { return a == b || (a != a && b != b); }
static _Bool same(const RKConfig *a, const RKConfig *b) {
    _Bool r = a->i == b->i && feq(a->sweepElevation, b->sweepElevation) && feq(a->sweepAzimuth, b->sweepAzimuth) && a->startMarker == b->startMarker && a->pulseGateCount == b->pulseGateCount && feq(a->pulseGateSize, b->pulseGateSize)
        && a->transitionGateCount == b->transitionGateCount && a->ringFilterGateCount == b->ringFilterGateCount;
    for (int k = 0; k < RKMaximumFilterCount; k++) r = r && feq(a->prt[k], b->prt[k]) && feq(a->pw[k], b->pw[k]) && a->waveformId[k] == b->waveformId[k] && feq(a->ZCal[k][0], b->ZCal[k][0]) && feq(a->ZCal[k][1], b->ZCal[k][1]) && feq(a->DCal[k], b->DCal[k]) && feq(a->PCal[k], b->PCal[k]);
    for (int k = 0; k < 2; k++) r = r && feq(a->noise[k], b->noise[k]) && feq(a->systemZCal[k], b->systemZCal[k]);
    r = r && feq(a->systemDCal, b->systemDCal) && feq(a->systemPCal, b->systemPCal) && feq(a->SNRThreshold, b->SNRThreshold) && feq(a->SQIThreshold, b->SQIThreshold) && a->waveform == b->waveform && a->waveformDecimate == b->waveformDecimate && a->userResource == b->userResource;
#ifdef VP_CBMC
    return r && a->waveformName[wit < RKNameLength ? wit : 0] == b->waveformName[wit < RKNameLength ? wit : 0] && a->vcpDefinition[wit] == b->vcpDefinition[wit];
#else
    return r && !strcmp(a->waveformName, b->waveformName) && !strcmp(a->vcpDefinition, b->vcpDefinition);
#endif
}
static uint32_t idx;
#define CALL(...) RKConfigAdvanceEllipsis(buf, &idx, DEPTH, __VA_ARGS__, RKConfigKeyNull)
/* one key with its value, and what it must do; a second key follows it and must be read as such */
static _Bool step(int key) {
    VP_IN(double, x); VP_IN(double, y); VP_IN(uint32_t, u); VP_IN(uint32_t, v);
    _Bool ok = 1;
    switch (key) {
    case RKConfigKeySweepElevation: E.sweepElevation = x; CALL(key, x, RKConfigKeyRingFilterGateCount, v); break;
    case RKConfigKeySweepAzimuth: E.sweepAzimuth = x; CALL(key, x, RKConfigKeyRingFilterGateCount, v); break;
    case RKConfigKeyPositionMarker: E.startMarker = u; CALL(key, u, RKConfigKeyRingFilterGateCount, v); break;
    case RKConfigKeyPRT: E.prt[0] = x; CALL(key, x, RKConfigKeyRingFilterGateCount, v); break;
    case RKConfigKeyPRF: VP_ASSUME(x == 1000.0 || x == 0.5 || x == 1e9); E.prt[0] = 1.0 / x; CALL(key, x, RKConfigKeyRingFilterGateCount, v); break;
    case RKConfigKeyDualPRF: VP_ASSUME((x == 1000.0 || x == 0.5) && (y == 750.0 || y == 3.0)); E.prt[0] = 1.0 / x; E.prt[1] = 1.0 / y; CALL(key, x, y, RKConfigKeyRingFilterGateCount, v); break;
    case RKConfigKeyPulseGateCount: E.pulseGateCount = u; CALL(key, u, RKConfigKeyRingFilterGateCount, v); break;
    case RKConfigKeyPulseGateSize: E.pulseGateSize = x; CALL(key, x, RKConfigKeyRingFilterGateCount, v); break;
    case RKConfigKeyPulseWidth: for (int k = 0; k < RKMaximumFilterCount; k++) E.pw[k] = x; CALL(key, x, RKConfigKeyRingFilterGateCount, v); break;
    case RKConfigKeyWaveform: {
        VP_IN_RANGE(int, good, 0, 2); wf.filterCounts[0] = good == 1 ? 1 : 0; ok = good == 1;
        E.waveform = &wf;
#ifdef VP_CBMC
        if (wit < RKNameLength) E.waveformName[wit] = wit < RKNameLength - 1 ? wf.name[wit] : 0;
#else
        strcpy(wf.name, "waveform"); strcpy(E.waveformName, wf.name);
#endif
        CALL(key, good ? &wf : NULL, RKConfigKeyRingFilterGateCount, v); break;
    }
    case RKConfigKeyWaveformDecimate: {
        VP_IN_RANGE(int, good, 0, 2); wg.filterCounts[0] = good == 1 ? 1 : 0; ok = good == 1;
        E.waveformDecimate = &wg;
        CALL(key, good ? &wg : NULL, RKConfigKeyRingFilterGateCount, v); break;
    }
    case RKConfigKeyWaveformName: case RKConfigKeyVCPDefinition:
        makeText();
#ifdef VP_CBMC
        if (key == RKConfigKeyVCPDefinition) { if (wit < VCP) E.vcpDefinition[wit] = wit < textLen ? text[wit] : 0; }
        else if (wit < RKNameLength - 1) E.waveformName[wit] = wit < textLen ? text[wit] : 0;
#else
        if (key == RKConfigKeyVCPDefinition) { strncpy(E.vcpDefinition, text, VCP); E.vcpDefinition[VCP] = 0; }
        else { strncpy(E.waveformName, text, RKNameLength - 1); E.waveformName[RKNameLength - 1] = 0; }
#endif
        CALL(key, text, RKConfigKeyRingFilterGateCount, v); break;
    case RKConfigKeySystemNoise: E.noise[0] = x; E.noise[1] = y; CALL(key, x, y, RKConfigKeyRingFilterGateCount, v); break;
    case RKConfigKeySystemZCal: E.systemZCal[0] = x; E.systemZCal[1] = y; CALL(key, x, y, RKConfigKeyRingFilterGateCount, v); break;
    case RKConfigKeySystemDCal: E.systemDCal = x; CALL(key, x, RKConfigKeyRingFilterGateCount, v); break;
    case RKConfigKeySystemPCal: E.systemPCal = x; CALL(key, x, RKConfigKeyRingFilterGateCount, v); break;
    case RKConfigKeySNRThreshold: E.SNRThreshold = x; CALL(key, x, RKConfigKeyRingFilterGateCount, v); break;
    case RKConfigKeySQIThreshold: E.SQIThreshold = x; CALL(key, x, RKConfigKeyRingFilterGateCount, v); break;
    case RKConfigKeyTransitionGateCount: E.transitionGateCount = u; CALL(key, u, RKConfigKeyRingFilterGateCount, v); break;
    case RKConfigKeyUserResource: E.userResource = (RKUserResource)&wf; CALL(key, &wf, RKConfigKeyRingFilterGateCount, v); break;
    default: {
        VP_IN_RANGE(int, null, 0, 1); VP_DRAW_RANGE(cal.count, "cal.count", 0, RKMaximumFilterCount);
        int n = null ? RKMaximumFilterCount : cal.count;
        if (null && E.waveform) { VP_DRAW_RANGE(wf.filterCounts[0], "filters", 1, RKMaximumFilterCount); n = wf.filterCounts[0]; }
        for (int k = 0; k < RKMaximumFilterCount; k++) {
            F(cal.ZCal[k][0]); F(cal.ZCal[k][1]); F(cal.DCal[k]); F(cal.PCal[k]);
            if (k < n) { E.ZCal[k][0] = null ? 0 : cal.ZCal[k][0]; E.ZCal[k][1] = null ? 0 : cal.ZCal[k][1]; E.DCal[k] = null ? 0 : cal.DCal[k]; E.PCal[k] = null ? 0 : cal.PCal[k]; }
        }
        CALL(RKConfigKeyWaveformCalibration, null ? NULL : &cal, RKConfigKeyRingFilterGateCount, v);
    }
    }
    E.ringFilterGateCount = v;
    return ok;
}
void h_advance(void) {
#ifdef VP_NATIVE
    memset(buf, 0, sizeof(buf)); VP_IN_RANGE(uint32_t, at, 0, DEPTH - 1);
#else
    VP_IN_RANGE(size_t, w, 0, RKMaximumCommandLength - 1); wit = w; 
    const uint32_t at = AT; VP_IN(size_t, tl0); textLen = tl0;
    VP_FILL(text); VP_FILL(wf.name);
#endif
    locked = 0; idx = at;
    wf.count = 1; 
    VP_IN(uint64_t, base);
    for (int k = 0; k < DEPTH; k++) { draw(&buf[k]); buf[k].i = base + (k + DEPTH - at) % DEPTH; was[k] = buf[k]; }
    const uint32_t prev = at ? at - 1 : DEPTH - 1;
    E = buf[prev]; E.i = buf[at].i + DEPTH;
    _Bool ok = 1;
#ifdef VP_CBMC
    ok = step(KEY);
#else
    VP_IN_RANGE(int, key, 1, RKConfigKeyCount - 1);
    ok = step(key);
#endif
    VP_ASSERT(!locked, "the lock is released");
    for (int k = 0; k < DEPTH; k++) if (k != at) VP_ASSERT(same(&buf[k], &was[k]), "other configurations stay as they are");
    if (ok) {
        VP_ASSERT(idx == (at + 1) % DEPTH, "the index advances by one");
        VP_ASSERT(same(&buf[at], &E), "the new configuration is the previous one with the given values and the next identifier");
        VP_REACH("advanced");
    } else {
        VP_ASSERT(idx == at, "a bad waveform is refused");
        VP_ASSERT(buf[at].i == was[at].i, "and the identifiers stay in order");
    }
}
void h_find(void) {
    VP_IN(uint64_t, id); VP_IN_RANGE(uint32_t, n, 1, DEPTH);
    for (int k = 0; k < DEPTH; k++) VP_DRAW(buf[k].i, "i");
    RKConfig *c = RKConfigWithId(buf, n, id);
    int found = 0;
    for (int k = 0; k < DEPTH; k++) if (k < n && buf[k].i == id) { found = 1; if (c == &buf[k]) found = 2; }
    for (int k = 0; k < DEPTH; k++) if (k >= n) VP_ASSERT(c != &buf[k], "only the buffer is searched");
    VP_ASSERT(found ? c && c->i == id && found : c == NULL, "a configuration is found by its identifier");
    if (found) VP_REACH("found"); else VP_REACH("not found");
}
