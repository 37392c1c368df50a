/* R01, one worker: a ray is made of exactly the pulses of its source, and announced after it is complete. */
#include <RadarKit.h>
#include "vp.h"
#undef RKMaximumPulsesPerRay
#define RKMaximumPulsesPerRay 6
#ifdef VP_NATIVE
#undef NRAY
#define NRAY 12
#undef CORE
#undef CORES
static int CORE, CORES;
#define RDEPTH 7
#else
#ifndef NRAY
#define NRAY 2
#endif
#define CORE 1
#define CORES 2
#define RDEPTH 3
#endif
#define DEPTH 9
#define CDEPTH 3
#define CAP 16
#define RATIO 2
static struct slot { RKPulse head __attribute__((aligned(16))); char data[CAP * 40]; } pulses[DEPTH];
#ifdef VP_CBMC
static RKRay r0, r1, r2;
static RKRay *rayAt(unsigned n) { return n == 0 ? &r0 : n == 1 ? &r1 : &r2; }
static char rays[1];
#else
static struct rslot { RKRay head __attribute__((aligned(16))); char data[CAP * (RKMomentCount * 2 + RKBaseProductCount * 5)]; } rays[RDEPTH];
static RKRay *rayAt(unsigned n) { return &rays[n].head; }
#endif
static RKConfig cfg[CDEPTH];
static RKRadarDesc desc;
static RKMomentEngine engine;
static RKMomentWorker worker;
static RKModuloPath source[RDEPTH];
static RKMomentScratch scratch;
static uint32_t pulseIndex;
static int rayNo = -1;                  /* the ray being made, -1 before the first */
static int o, len;                      /* its source */
static int nNoise, nMoment, nMake, nPrep, noiseFails;
static int calConfig = -1, calGates, nCal;
#ifdef VP_CBMC
static const int origins[NRAY] = {ORG}, lengths[NRAY] = {LEN};
#endif
static int used(int n) { return !!(pulses[n].head.header.s & RKPulseStatusUsedForMoments); }
static RKRay *mine(void) { return rayAt((CORE + rayNo * CORES) % RDEPTH); }
static void passed(RKMomentScratch *s, RKPulse **p, uint16_t n) {
    VP_ASSERT(s == &scratch && n == len + 1 && n <= RKMaximumPulsesPerRay, "the number of pulses of the ray");
    for (int q = 0; q < RKMaximumPulsesPerRay; q++) if (q <= len) VP_ASSERT(p[q] == &pulses[(o + q) % DEPTH].head, "the pulses of the ray, in order");
    for (int q = 0; q < DEPTH; q++) if ((q - o + DEPTH) % DEPTH <= len) VP_ASSERT(!used(q), "pulses are released after the ray is made");
    VP_ASSERT(mine()->header.s == RKRayStatusProcessing, "the ray is not announced before it is made");
    int e = (o + len) % DEPTH;
    VP_ASSERT(calConfig == pulses[e].head.header.configIndex && calGates == pulses[e].head.header.downSampledGateCount && s->config == &cfg[calConfig], "the calibration in force is that of the configuration and gates of the ray");
}
static int noise(RKMomentScratch *s, RKPulse **p, const uint16_t n) { nNoise++; VP_ASSERT(nPrep == 1, "the scratch space is prepared"); passed(s, p, n); s->noise[0] = 5; s->noise[1] = 6; return noiseFails ? RKResultIncompleteReceive : RKResultSuccess; }
static int moment(RKMomentScratch *s, RKPulse **p, const uint16_t n) {
    nMoment++; VP_ASSERT(nNoise == 1, "noise is known first"); passed(s, p, n);
    const RKConfig *c = &cfg[pulses[(o + len) % DEPTH].head.header.configIndex];
    VP_ASSERT(s->noise[0] == (noiseFails ? c->noise[0] : 5.0f) && s->noise[1] == (noiseFails ? c->noise[1] : 6.0f), "noise of the estimator, or of the configuration if it fails");
    return n; }
static void calibrator(RKUserModule u, RKMomentScratch *s) {
    const RKPulse *e = &pulses[(o + len) % DEPTH].head;
    VP_ASSERT(s->gateCount == e->header.downSampledGateCount && s->gateSizeMeters == e->header.gateSizeMeters * RATIO, "the calibrator sees the gates of the ray");
    nCal++; calConfig = s->config == &cfg[0] ? 0 : s->config == &cfg[1] ? 1 : 2; calGates = s->gateCount; VP_ASSERT(s->config == &cfg[calConfig], "and its configuration"); }
static int vp_prep(RKMomentScratch *s) { VP_ASSERT(s == &scratch, "own scratch space"); nPrep++; return 0; }
static int vp_make(RKMomentScratch *s, RKRay *r) { nMake++; VP_ASSERT(s == &scratch && r == mine() && nMoment == 1, "the ray is made from the moments, once"); return 0; }
static float azAt(int n) { return pulses[n].head.header.azimuthDegrees; }
static int step[2];                     /* azimuth and elevation from the first to the last pulse */
static void judge(void) {
    RKRay *r = mine();
    int e = (o + len) % DEPTH;
    const RKPulse *S = &pulses[o].head, *E = &pulses[e].head;
    int make = len + 1 > 3 && step[0] < 3 && step[1] < 3 && (S->header.s & RKPulseStatusCompressed);
    VP_ASSERT(nMoment == make && nMake == make && nNoise == make, "a ray is made of at least four compressed pulses within three degrees, and no other");
    VP_ASSERT(r->header.s == (RKRayStatusReady | (make ? RKRayStatusProcessed : RKRayStatusSkipped)), "the ray is announced, as made or as skipped");
    VP_ASSERT(r->header.i == (RKIdentifier)(CORE + rayNo * CORES), "rays carry consecutive identities");
    VP_ASSERT(r->header.startTimeDouble == S->header.timeDouble && r->header.startTime.tv_sec == S->header.time.tv_sec && r->header.startTime.tv_usec == S->header.time.tv_usec && r->header.startAzimuth == S->header.azimuthDegrees && r->header.startElevation == S->header.elevationDegrees, "the start of the ray is that of its first pulse");
    VP_ASSERT(r->header.endTimeDouble == E->header.timeDouble && r->header.endTime.tv_sec == E->header.time.tv_sec && r->header.endTime.tv_usec == E->header.time.tv_usec && r->header.endAzimuth == E->header.azimuthDegrees && r->header.endElevation == E->header.elevationDegrees, "the end of the ray is that of its last pulse");
    VP_ASSERT(r->header.configIndex == E->header.configIndex && r->header.gateSizeMeters == E->header.gateSizeMeters * RATIO && r->header.gateCount == E->header.downSampledGateCount, "the configuration and gates are those of its last pulse");
    VP_ASSERT(r->header.sweepElevation == cfg[E->header.configIndex].sweepElevation && r->header.sweepAzimuth == cfg[E->header.configIndex].sweepAzimuth, "the set angles are those of its configuration");
    uint32_t m = 0;
    for (int q = 0; q < RKMaximumPulsesPerRay; q++) if (q <= len) m |= pulses[(o + q) % DEPTH].head.header.marker;
    VP_ASSERT(r->header.marker == m, "the marker of the ray combines those of all its pulses");
    VP_ASSERT(r->header.pulseCount == len + 1, "the ray tells how many pulses it has");
    for (int q = 0; q < DEPTH; q++) VP_ASSERT(used(q) == ((q - o + DEPTH) % DEPTH <= len), "its pulses, and no others, are released");
#ifdef VP_NATIVE
    if (!make) for (int q = 0; q < CAP; q++) { int p = q % RKBaseProductCount; VP_ASSERT(RKGetUInt8DataFromRay(r, p)[q] == 0 && isnan(RKGetFloatDataFromRay(r, p)[q]), "a skipped ray has no data"); }
#endif
}
static void next(void) {
    nNoise = nMoment = nMake = nPrep = 0;
#ifdef VP_CBMC
    o = origins[rayNo]; len = lengths[rayNo];
#else
    VP_DRAW_RANGE(o, "origin", 0, DEPTH - 1); VP_DRAW_RANGE(len, "length", 0, RKMaximumPulsesPerRay - 1);
#endif
    VP_DRAW_RANGE(noiseFails, "noiseFails", 0, 1);
    VP_DRAW_RANGE(step[0], "azimuth", 0, 4); VP_DRAW_RANGE(step[1], "elevation", 0, 4);
    int c; VP_DRAW_RANGE(c, "config", 0, CDEPTH - 1);
    for (int q = 0; q < DEPTH; q++) {
        RKPulse *p = &pulses[q].head; int k = (q - o + DEPTH) % DEPTH, z, g;
        VP_DRAW_RANGE(z, "compressed", 0, 1); VP_DRAW_RANGE(g, "gates", 1, 2);
        p->header.s = RKPulseStatusReadyForMomentEngine | (z ? RKPulseStatusCompressed : 0);
        VP_DRAW(p->header.marker, "marker");
        p->header.downSampledGateCount = g; p->header.gateCount = 12; p->header.gateSizeMeters = 30.0f + q;
        p->header.timeDouble = 100 + q; p->header.time.tv_sec = 200 + q; p->header.time.tv_usec = 300 + q;
        p->header.azimuthDegrees = 10.0f + 20 * q; p->header.elevationDegrees = 5.0f + 10 * q;
        p->header.configIndex = c; 
    }
    RKPulse *S = &pulses[o].head, *E = &pulses[(o + len) % DEPTH].head;
    if (len) { S->header.configIndex = (c + 1) % CDEPTH; E->header.azimuthDegrees = S->header.azimuthDegrees + step[0]; E->header.elevationDegrees = S->header.elevationDegrees - step[1]; } else step[0] = step[1] = 0;
    RKModuloPath *m = &source[(CORE + rayNo * CORES) % RDEPTH];
    m->origin = o; m->length = len;
    RKRay *r = mine();
    r->header.s = RKRayStatusVacant; r->header.gateCount = 99;
#ifdef VP_NATIVE
    memset(r->data, 0x5a, CAP * (RKMomentCount * 2 + RKBaseProductCount * 5));
#endif
}
static int vp_sem_wait(sem_t *s) {
    VP_ASSERT(s == worker.sem, "own semaphore");
    if (rayNo >= 0) judge();
    rayNo++;
    if (rayNo == NRAY) { VP_REACH("all rays"); engine.state &= ~RKEngineStateWantActive; return 0; }
    next();
    return 0;
}
static int vp_gettimeofday(struct timeval *t, void *z) { if (t) { t->tv_sec = 5; t->tv_usec = 0; } return 0; }
static size_t vp_scratch(RKMomentScratch **b, const uint32_t cap, const uint8_t v, const char *n) { *b = &scratch; return 1; }
static void vp_scratchFree(RKMomentScratch *s) { }
#define RKMomentScratchAlloc vp_scratch
#define RKMomentScratchFree vp_scratchFree
#define prepareScratch vp_prep
#define makeRayFromScratch vp_make
#define gettimeofday vp_gettimeofday
#define sem_wait vp_sem_wait
#ifdef VP_CBMC
static RKPulse *vp_pulse(RKBuffer b, const uint32_t n) { VP_ASSERT(b == (RKBuffer)pulses && n < DEPTH, "a pulse of the buffer"); return &pulses[n].head; }
static RKRay *vp_ray(RKBuffer b, const uint32_t n) { VP_ASSERT(b == (RKBuffer)rays && n < RDEPTH, "a ray of the buffer"); return rayAt(n); }
#define RKGetPulseFromBuffer vp_pulse
#define RKGetRayFromBuffer vp_ray
static float vp_sector(const float a, const float b) { float d = a - b; return d < 0 ? -d : d; }
#undef RKGetMinorSectorInDegrees
#define RKGetMinorSectorInDegrees vp_sector
static int vp_snprintf(char *s, size_t n, const char *f, ...) { return 0; }
static RKConfig previous; static double periods[2][RKWorkerDutyCycleBufferDepth]; static int nPeriods;
static void *vp_malloc(size_t n) { VP_ASSERT(n == sizeof(RKConfig), "a configuration"); return &previous; }
static int vp_memalign(void **p, size_t a, size_t n) { *p = periods[nPeriods++ & 1]; return 0; }
static void *vp_memset(void *d, int c, size_t n) { return d; }
static void *vp_memcpy(void *d, const void *s, size_t n) { VP_ASSERT(n == sizeof(RKConfig), "a configuration"); return d; }
static float vp_fmodf(float a, float b) { return 0.25f; }
static float vp_log10f(float a) { return 1.0f; }
static double vp_diff(struct timeval a, struct timeval b) { return 1.0; }
static int vp_lock(pthread_mutex_t *m) { return 0; }
static void vp_free(void *p) { }
#define free vp_free
#define malloc vp_malloc
#define memset vp_memset
#define memcpy vp_memcpy
#define posix_memalign vp_memalign
#define fmodf vp_fmodf
#define log10f vp_log10f
#define snprintf vp_snprintf
#define sprintf(s, ...) vp_snprintf(s, 1, __VA_ARGS__)
#define RKTimevalDiff vp_diff
#define pthread_mutex_lock vp_lock
#define pthread_mutex_unlock vp_lock
#endif
#include "RKMomentEngine.c"
#undef gettimeofday
#undef sem_wait
#undef malloc
#undef free
#undef memset
#undef memcpy
VP_SILENT
void h_core(void) {
    rayNo = -1; calConfig = -1; nCal = 0;
    VP_IN_RANGE(int, ahead, 0, DEPTH - 1); pulseIndex = ahead;
#ifdef VP_NATIVE
    VP_DRAW_RANGE(CORES, "cores", 1, 4); VP_DRAW_RANGE(CORE, "core", 0, 3); CORE %= CORES;
    memset(pulses, 0, sizeof(pulses)); memset(rays, 0, sizeof(rays)); memset(&engine, 0, sizeof(engine)); memset(&worker, 0, sizeof(worker)); memset(&scratch, 0, sizeof(scratch));
    pthread_mutex_init(&engine.mutex, NULL);
#endif
    engine.radarDescription = &desc; desc.pulseBufferDepth = DEPTH; desc.rayBufferDepth = RDEPTH; desc.configBufferDepth = CDEPTH; desc.pulseCapacity = 64; desc.pulseToRayRatio = RATIO;
    engine.configBuffer = cfg; engine.pulseBuffer = (RKBuffer)pulses; engine.pulseIndex = &pulseIndex; engine.rayBuffer = (RKBuffer)rays;
    engine.momentSource = source; engine.coreCount = CORES; engine.state = RKEngineStateProperlyWired | RKEngineStateActive | RKEngineStateWantActive;
    engine.useSemaphore = true; engine.noiseEstimator = noise; engine.momentProcessor = moment; engine.calibrator = calibrator;
    worker.id = CORE; worker.parent = &engine; worker.sem = (sem_t *)&worker.semaphoreName;
    for (int k = 0; k < CDEPTH; k++) { cfg[k].sweepElevation = 1.5f + k; cfg[k].sweepAzimuth = 20.5f + k; cfg[k].noise[0] = 40 + k; cfg[k].noise[1] = 50 + k; cfg[k].prt[0] = 1.0f; }
    for (int n = 0; n < DEPTH; n++) pulses[n].head.header.capacity = CAP;
    for (int n = 0; n < RDEPTH; n++) rayAt(n)->header.capacity = CAP;
    momentEngineCore(&worker);
    VP_ASSERT(rayNo == NRAY && worker.tic == 1, "every ray is made");
}
