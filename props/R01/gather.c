/* R01, gathering: consecutive pulses of one position index make one ray; its source is set before its worker is posted. */
#include <RadarKit.h>
#include "vp.h"
#undef RKMaximumPulsesPerRay
#define RKMaximumPulsesPerRay 4
#ifdef VP_NATIVE
#undef NP
#define NP 40
#define BINS 3
#else
#ifndef NP
#define NP 5
#endif
#define BINS 1
#endif
#ifdef VP_NATIVE
#define DEPTH 11
#else
#ifndef DEPTH
#define DEPTH (NP + 1)
#endif
#endif
#define CDEPTH 2
#ifdef VP_CBMC
#define RDEPTH 4
#else
#define RDEPTH 7
#endif
#define CAP 16
#ifndef CORES
#define CORES 2
#endif
static struct slot { RKPulse head __attribute__((aligned(16))); char data[CAP * 40]; } pulses[DEPTH];
#ifdef VP_CBMC
static RKRay r0, r1, r2, r3;
static RKRay *rayAt(unsigned n) { return n == 0 ? &r0 : n == 1 ? &r1 : n == 2 ? &r2 : &r3; }
static char rays[1];
#else
static struct rslot { RKRay head __attribute__((aligned(16))); char data[CAP * (RKMomentCount * 2 + RKBaseProductCount * 5)]; } rays[RDEPTH];
static RKRay *rayAt(unsigned n) { return &rays[n].head; }
#endif
static RKConfig cfg[CDEPTH];
static RKRadarDesc desc;
static RKMomentEngine engine;
static RKMomentWorker workers[CORES];
static RKModuloPath source[RDEPTH];
static sem_t sems[CORES];
static uint32_t pulseIndex, rayIndex;
static int bin[NP], mk[NP], given[NP], conf[NP];
static int np, nr;                      /* pulses acquired / ready */
static int posts, taken, finished;      /* rays handed to workers, looked at, completed */
static int origin[NP], len[NP];
static int started, opened, stalled, tics[CORES], posted[CORES];
#ifdef VP_CBMC
static const char sched[] = SCHED; static int sp;
#endif
static int order(int c) { return posts % CORES == c; }
static void post(int c) {
    if (!(engine.state & RKEngineStateWantActive)) return;      /* called to leave */
    VP_ASSERT(order(c), "rays go to the workers in turn");
    for (int q = 0; q < NP; q++) if (q == posts) { origin[q] = source[q % RDEPTH].origin; len[q] = source[q % RDEPTH].length; }
    posted[c]++; posts++;
}
static void look(void) { if (!engine.useSemaphore && started == CORES) for (int c = 0; c < CORES; c++) if (workers[c].tic > tics[c]) { VP_ASSERT(workers[c].tic == tics[c] + 1, "a worker is posted once per ray"); post(c); tics[c] = workers[c].tic; } }
static int vp_sem_post(sem_t *s) { for (int c = 0; c < CORES; c++) if (s == &sems[c]) { post(c); return 0; } VP_ASSERT(0, "a worker's semaphore"); return -1; }
static sem_t *vp_sem_open(const char *n, int f, ...) { VP_ASSUME(opened < CORES); return &sems[opened++]; }
static int vp_snprintf(char *s, size_t n, const char *f, ...) { return 0; }
static int vp_sem_unlink(const char *n) { return 0; }
static int vp_create(pthread_t *t, const void *a, void *(*f)(void *), void *arg) { VP_ASSERT(started < CORES && arg == &workers[started] && workers[started].id == started && workers[started].sem == &sems[started] && workers[started].parent == &engine, "a worker gets its number and its semaphore"); workers[started].tic = 1; tics[started] = 1; started++; return 0; }
static int vp_join(pthread_t t, void **r) { return 0; }
static void putPulse(int n) {
    RKPulse *p = &pulses[n % DEPTH].head;
    p->header.s = RKPulseStatusVacant; p->header.i = n; p->header.marker = mk[n]; p->header.configIndex = conf[n];
    p->header.positionIndex = given[n] ? 77 + bin[n] : (uint32_t)-1;
    /* bins are whole degrees */
    int m = cfg[conf[n]].startMarker & RKMarkerScanTypeMask;
    p->header.azimuthDegrees = m == RKMarkerScanTypePPI ? 77.0f + bin[n] + 0.5f : 12.25f;
    p->header.elevationDegrees = m == RKMarkerScanTypePPI ? 3.5f + n : m == RKMarkerScanTypeRHI ? 77.0f + bin[n] + 0.75f : 77.0f + bin[n];
}
/* the bin as the gatherer sees it */
static long binOf(int n) { int m = cfg[conf[n]].startMarker & RKMarkerScanTypeMask; return given[n] || m == RKMarkerScanTypePPI || m == RKMarkerScanTypeRHI ? 77 + bin[n] : (77L + bin[n]) * 360 + 12; }
static void finish(int r) { rayAt(r % RDEPTH)->header.s = RKRayStatusReady; }
static void env(void) {
    look();
#ifdef VP_NATIVE
    VP_ASSERT((unsigned)(finished + RDEPTH - rayIndex) % RDEPTH <= RDEPTH - 2, "rays are passed on once they are complete");
#endif
#ifdef VP_CBMC
    const char c = sched[sp]; if (c) sp++; else { engine.state &= ~RKEngineStateWantActive; return; }
    if (c == 'P') { putPulse(np); np++; pulseIndex = np % DEPTH; }
    if (c == 'p') { pulses[nr % DEPTH].head.header.s = RKPulseStatusReadyForMomentEngine; nr++; }
    if (c == '*') { while (np < NP) { putPulse(np); np++; } while (nr < NP) { pulses[nr % DEPTH].head.header.s = RKPulseStatusReadyForMomentEngine; nr++; } pulseIndex = np % DEPTH; }
    if (c == 'R') { if (finished < posts) { finish(finished); finished++; } }
#else
    int what; VP_DRAW_RANGE(what, "event", 0, 2);
    int can[3] = {np < NP && np == nr, nr < np, finished < posts};
    if (posts - finished >= RDEPTH - 3) what = 2;
    if (!can[what]) what = can[0] ? 0 : can[1] ? 1 : 2;
    if (!can[what]) { engine.state &= ~RKEngineStateWantActive; stalled = 1; return; }
    if (what == 0) { putPulse(np++); pulseIndex = np % DEPTH; } else if (what == 1) { pulses[nr % DEPTH].head.header.s = RKPulseStatusReadyForMomentEngine; nr++; } else finish(finished++);
#endif
}
static int vp_usleep(unsigned int t) { if (started == CORES && engine.tic) env(); return 0; }
static int vp_gettimeofday(struct timeval *t, void *z) { if (t) { t->tv_sec = 5; t->tv_usec = 0; } return 0; }
static float vp_fmodf(float a, float b) { return 0.25f; }
#define fmodf vp_fmodf
#define usleep vp_usleep
#define gettimeofday vp_gettimeofday
#define sem_post vp_sem_post
#define sem_open vp_sem_open
#define sem_unlink vp_sem_unlink
#define pthread_create vp_create
#define pthread_join vp_join
#ifdef VP_CBMC
static RKPulse *vp_pulse(RKBuffer b, const uint32_t n) { VP_ASSERT(b == (RKBuffer)pulses && n < DEPTH, "a pulse of the buffer"); return &pulses[n].head; }
static RKRay *vp_ray(RKBuffer b, const uint32_t n) { VP_ASSERT(b == (RKBuffer)rays && n < RDEPTH, "a ray of the buffer"); return rayAt(n); }
#define RKGetPulseFromBuffer vp_pulse
#define RKGetRayFromBuffer vp_ray
static float vp_floorf(float x) { return (float)(int)x; }
static float vp_log2f(float x) { return 1.0f; }
static float vp_ceilf(float x) { return x; }
#define snprintf vp_snprintf
#define floorf vp_floorf
#define log2f vp_log2f
#define ceilf vp_ceilf
#endif
#include "RKMomentEngine.c"
#undef usleep
#undef gettimeofday
#undef sem_post
#undef pthread_create
#undef pthread_join
VP_SILENT
#ifndef GATHER
#define GATHER pulseGatherer
#endif
void h_gather(void) {
    np = nr = posts = taken = finished = started = opened = stalled = 0; pulseIndex = rayIndex = 0;
#ifdef VP_NATIVE
    memset(pulses, 0, sizeof(pulses)); memset(rays, 0, sizeof(rays)); memset(&engine, 0, sizeof(engine)); memset(workers, 0, sizeof(workers)); memset(source, 0, sizeof(source)); memset(posted, 0, sizeof(posted)); memset(tics, 0, sizeof(tics));
#endif
    engine.radarDescription = &desc; desc.pulseBufferDepth = DEPTH; desc.rayBufferDepth = RDEPTH; desc.configBufferDepth = CDEPTH;
    engine.configBuffer = cfg; engine.pulseBuffer = (RKBuffer)pulses; engine.pulseIndex = &pulseIndex; engine.rayBuffer = (RKBuffer)rays; engine.rayIndex = &rayIndex;
    engine.workers = workers; engine.momentSource = source; engine.coreCount = CORES; engine.state = RKEngineStateProperlyWired | RKEngineStateActivating;
    
#ifdef VP_CBMC
    const int sem = 1;
#else
    VP_IN_RANGE(int, sem, 0, 1);
#endif
    VP_IN_RANGE(int, exclude, 0, 1); engine.useSemaphore = sem; engine.excludeBoundaryPulses = exclude;
    for (int k = 0; k < CDEPTH; k++) { int t; VP_DRAW_RANGE(t, "type", 0, 2); cfg[k].startMarker = t == 0 ? RKMarkerScanTypePPI : t == 1 ? RKMarkerScanTypeRHI : RKMarkerScanTytpePoint; }
    for (int n = 0; n < NP; n++) {
        int b, e, sw;
        VP_DRAW_RANGE(bin[n], "bin", 0, BINS); 
#if defined(VP_CBMC) && !defined(BINTEST)
        given[n] = 1; conf[n] = 0;
#else
        VP_DRAW_RANGE(given[n], "given", 0, 1); VP_DRAW_RANGE(conf[n], "config", 0, CDEPTH - 1);
#endif
        VP_DRAW_RANGE(b, "begin", 0, 3); VP_DRAW_RANGE(e, "end", 0, 3);
        mk[n] = (b == 3 ? RKMarkerSweepBegin : 0) | (e == 3 ? RKMarkerSweepEnd : 0) | RKMarkerSweepMiddle;
#ifdef VP_NATIVE
        /* longer stretches of one bin */
        VP_DRAW_RANGE(sw, "stay", 0, 3); if (n && sw) { bin[n] = bin[n - 1]; given[n] = given[n - 1]; conf[n] = conf[n - 1]; }
#endif
    }
    for (int n = 0; n < DEPTH; n++) pulses[n].head.header.capacity = CAP;
    for (int n = 0; n < RDEPTH; n++) rayAt(n)->header.capacity = CAP;
    GATHER(&engine);
    look();
    VP_ASSERT(np == NP && nr == NP, "every pulse is looked at");
    /* the rays that have to come out */
    int o = 0, r = 0;
    for (int n = 0; n < NP; n++) {
        if (mk[n] & RKMarkerSweepBegin) o = n;
        if (n > o && (binOf(n) != binOf(o) || n - o == RKMaximumPulsesPerRay - 1 || (mk[n] & RKMarkerSweepEnd))) {
            int l = n - o; if (exclude && l > 1 && !(mk[n] & RKMarkerSweepEnd)) l--;
            VP_ASSERT(r < posts, "a ray is made at every change of position, at the end of a sweep and when it has the most pulses");
            for (int q = 0; q < NP; q++) if (q == r && r < posts) VP_ASSERT(origin[q] == o % DEPTH && len[q] == l, "a ray is made of the pulses since the previous one or the begin of the sweep");
            VP_ASSERT(l + 1 <= RKMaximumPulsesPerRay, "a ray has at most the maximum number of pulses");
            o = n; r++;
        }
    }
    VP_ASSERT(r == posts, "no other rays are made");
    if (posts > 0) VP_REACH("a ray");
    VP_ASSERT(rayIndex <= finished || RDEPTH < NP, "rays are passed on in order once they are complete");
#ifdef VP_NATIVE
    if (stalled) VP_ASSERT(rayIndex == finished % RDEPTH, "complete rays are passed on");
#endif
}
