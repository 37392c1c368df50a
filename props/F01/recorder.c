/* F01: the raw data recorder writes files that consist of the file header, the
 * waveform and then complete pulses in order. Events are observed where they
 * enter the write cache (whose byte-level contract is proved in cache.c). */
#include <RadarKit.h>
#include "vp.h"
#ifdef VP_CBMC
/* the verified text sees the file header as a struct: its byte view (used only for the end-of-line mark) does not
 * overlap the members; the native runs use the real union */
typedef struct { RKName preface; uint32_t version; RKRawDataType dataType; RKRadarDesc desc; RKConfig config; RKByte bytes[sizeof(RKFileHeader)]; } vp_FileHeader;
typedef struct { uint8_t count; uint32_t depth; RKWaveformType type; RKName name; double fc, fs; uint8_t filterCounts[RKMaximumWaveformCount]; } vp_WaveHeader;
#define RKFileHeader vp_FileHeader
#define RKWaveFileGlobalHeader vp_WaveHeader
#endif
#ifdef VP_NATIVE
#undef NP
#define NP 6
#endif
#ifndef NP
#define NP 3
#endif
#define CAP 16
#define DEPTH (NP + 1)                         /* pulse buffer depth, more than NP */
static struct slot { RKPulse head __attribute__((aligned(16))); char data[CAP * 40]; } pulses[DEPTH];
static RKConfig cfg[2];
static RKWaveform w0, w1; static RKWaveform *const wave[2] = {&w0, &w1};
/* what the waveforms and pulses say, as scalars */
static struct { int count, depth, type; double fc, fs; int fn[2]; const void *a[2], *s[2], *i[2]; } G[2];
static int pc[NP], pg[NP], pd[NP];
static RKComplex smp[2][1]; static RKInt16C ismp[2][1];
static RKRadarDesc desc;
static RKRawDataRecorder engine;
static RKFileHeader FH; static RKWaveFileGlobalHeader WH;
static uint32_t pulseIndex;
static RKRawDataType type;
static int toggle(void) { int t; VP_DRAW(t, "toggle"); return t & 1; }
/* the automaton of a recording */
static int open_, st, grp, part, cur, last, count, cfgOpen, opened, typeOpen, published, recordedPulses;
static const RKConfig *cfgSrc;
static _Bool armed;                     /* a change of the configuration or the request made after start */
static void *cachePtr;
enum { S_FILE, S_WAVE, S_ANCHOR, S_SAMPLE, S_ISAMPLE, S_PULSE, S_CH0, S_CH1 };
static void event(const void *p, size_t n) {
    VP_ASSERT(open_, "nothing is recorded without a file");
    switch (st) {
    case S_FILE:
        VP_ASSERT(p == &FH && n == sizeof(RKFileHeader), "a file starts with its header");
        VP_ASSERT(FH.version == RKRawDataVersion && FH.dataType == type, "the header tells the version and the kind of data");
        VP_ASSERT(cfgSrc ? cfgSrc == &cfg[cfgOpen] : FH.config.i == 2000 + cfgOpen, "the header carries the configuration of the pulses");
        typeOpen = FH.dataType;
        st = S_WAVE; break;
    case S_WAVE:
        VP_ASSERT(p == &WH && n == sizeof(RKWaveFileGlobalHeader), "the waveform header follows");
        VP_ASSERT(WH.count == G[cfgOpen].count && WH.depth == G[cfgOpen].depth && WH.type == G[cfgOpen].type && WH.fc == G[cfgOpen].fc && WH.fs == G[cfgOpen].fs, "the waveform header describes the waveform");
        for (int k = 0; k < 2; k++) if (k < G[cfgOpen].count) VP_ASSERT(WH.filterCounts[k] == G[cfgOpen].fn[k], "and its filters");
        grp = 0; st = G[cfgOpen].count ? S_ANCHOR : S_PULSE; break;
    case S_ANCHOR:
        VP_ASSERT(p == G[cfgOpen].a[grp] && n == G[cfgOpen].fn[grp] * sizeof(RKFilterAnchor), "the filters of a group follow");
        st = S_SAMPLE; break;
    case S_SAMPLE:
        VP_ASSERT(p == G[cfgOpen].s[grp] && n == G[cfgOpen].depth * sizeof(RKComplex), "then its samples");
        st = S_ISAMPLE; break;
    case S_ISAMPLE:
        VP_ASSERT(p == G[cfgOpen].i[grp] && n == G[cfgOpen].depth * sizeof(RKInt16C), "and its transmit samples");
        st = ++grp < G[cfgOpen].count ? S_ANCHOR : S_PULSE; break;
    case S_PULSE: {
        int found = -1;
        for (int k = 0; k < NP; k++) if (p == &pulses[k].head.header) found = k;
        VP_ASSERT(found >= 0 && n == sizeof(RKPulseHeader), "then one pulse after the other");
        VP_ASSERT(found == last + 1 || count == 0, "no pulse is skipped or repeated");
        VP_ASSERT(found > last, "pulses are recorded in order");
        VP_ASSERT(found < published, "only finished pulses are recorded");
        VP_ASSERT(pc[found] == cfgOpen, "all pulses of a file share its configuration");
        VP_ASSERT(count < (int)engine.maximumRecordDepth, "a file does not exceed its maximum number of pulses");
        cur = found; count++; st = S_CH0; break;
    }
    default: {
        size_t g = typeOpen == RKRawDataTypeFromTransceiver ? pg[cur] * sizeof(RKInt16C) : pd[cur] * sizeof(RKComplex);
        const char *b = (const char *)pulses + cur * sizeof(struct slot) + offsetof(struct slot, data);
        size_t o = typeOpen == RKRawDataTypeFromTransceiver ? (st == S_CH0 ? 0 : CAP * sizeof(RKInt16C)) : 2 * CAP * sizeof(RKInt16C) + (st == S_CH0 ? 0 : CAP * sizeof(RKComplex));
        VP_ASSERT(p == b + o && n == g, "each pulse is followed by the gates of both its channels");
        if (st == S_CH1) { last = cur; recordedPulses++; st = S_PULSE; } else st = S_CH1;
    }
    }
}
/* between pulses: what must have been recorded by now */
static int doneUpTo = -1, wantedAt, prevCfg; static _Bool prevWant;
static void observe(void) {
    int k = published - 1;
    VP_ASSERT(!open_ || st == S_PULSE, "only whole pulses are recorded");
    if (k < 0 || k == doneUpTo) return;
    doneUpTo = k;
    int c = pc[k];
    if (open_) VP_ASSERT(last == k, "while a file is open every pulse goes into it");
    if (!wantedAt) VP_ASSERT(!open_, "nothing is recorded after recording is turned off");
    else if (c != prevCfg || wantedAt != prevWant) VP_ASSERT(open_ && cfgOpen == c, "a file is started when recording is turned on or the configuration changes");
    prevCfg = c; prevWant = wantedAt;
}
static int vp_usleep(unsigned int t) {
    observe();
    if (published == NP) { engine.state &= ~RKEngineStateWantActive; return 0; }
    if (toggle()) engine.record = !engine.record;
    wantedAt = engine.record;
    published++; pulseIndex = published;
    return 0;
}
static int vp_gettimeofday(struct timeval *t, void *z) { if (t) { t->tv_sec = 5; t->tv_usec = 0; } if (doneUpTo < published - 1 && (toggle())) engine.record = !engine.record; return 0; }
static int vp_open(const char *f, int fl, ...) {
    VP_ASSERT(!open_, "one file at a time");
    VP_ASSERT(engine.record || published, "files are opened on request");
    open_ = 1; st = S_FILE; count = 0; cfgOpen = pc[published - 1]; opened++;
    return 7;
}
static int flushed = 1;
static int vp_close(int fd) { VP_ASSERT(open_ && fd == 7, "the open file is closed"); VP_ASSERT(st == S_PULSE, "a file ends with a whole pulse"); VP_ASSERT(engine.cacheWriteIndex == 0, "nothing is left in the cache when a file is closed"); open_ = 0; return 0; }
static ssize_t vp_write(int fd, const void *p, size_t n) { VP_ASSERT(open_ && fd == 7 && p == cachePtr, "the cache goes to the open file"); return n; }
static int vp_remove(const char *f) { VP_ASSERT(0, "a file with pulses is not removed"); return 0; }
static void *vp_memcpy(void *d, const void *s, size_t n) {
    if (d == (void *)&FH.config) { cfgSrc = s; return d; }
    if (d == (void *)&FH.desc) return d;
    VP_ASSERT(d == (char *)cachePtr + engine.cacheWriteIndex, "recorded data goes through the cache");
    event(s, n);
    return d;
}
static void *vp_memset(void *d, int c, size_t n) { return d; }
static void *vp_malloc(size_t n) { return n == sizeof(RKFileHeader) ? (void *)&FH : (void *)&WH; }
static void vp_free(void *p) {}
static int vp_sprintf(char *s, const char *f, ...) { return 0; }
static int vp_snprintf(char *s, size_t n, const char *f, ...) { VP_ASSERT(n > 0, "room for the name"); return 1; }
static size_t vp_strftime(char *s, size_t n, const char *f, const struct tm *t) { return 8 < n - 1 ? 8 : n - 1; }
static char *vp_strcpy(char *d, const char *s) { return d; }
static size_t vp_strlen(const char *s) { return 1; }
static struct tm *vp_gmtime(const time_t *t) { static struct tm m; return &m; }
static float vp_fmodf(float a, float b) { return 0.5f; }   /* the lag is only reported */
#define fmodf vp_fmodf
#define usleep vp_usleep
#define gettimeofday vp_gettimeofday
#define open vp_open
#define close vp_close
#define write vp_write
#define remove vp_remove
#define memcpy vp_memcpy
#define memset vp_memset
#define malloc vp_malloc
#define free vp_free
#define sprintf vp_sprintf
#define snprintf vp_snprintf
#define strftime vp_strftime
#define gmtime vp_gmtime
#define strcpy vp_strcpy
#define strlen vp_strlen
#define RKPreparePath(x) (void)0
#define RKFileManagerAddFile(a, b, c) (void)0
#include "RKRawDataRecorder.c"
#undef usleep
#undef gettimeofday
#undef open
#undef close
#undef write
#undef remove
#undef memcpy
#undef memset
#undef malloc
#undef free
#undef sprintf
#undef snprintf
#undef strftime
#undef gmtime
#undef strcpy
#undef strlen
void h_recorder(void) {
    static char cache[64];
    cachePtr = cache;
    open_ = st = grp = part = cur = count = cfgOpen = opened = typeOpen = published = recordedPulses = prevCfg = 0; last = -1; doneUpTo = -1; cfgSrc = NULL;
#ifdef VP_NATIVE
    memset(&engine, 0, sizeof(engine)); memset(&FH, 0, sizeof(FH)); memset(&WH, 0, sizeof(WH)); memset(pulses, 0, sizeof(pulses));
#endif
    VP_IN_RANGE(uint32_t, maxDepth, 1, NP + 1); VP_IN_RANGE(int, rec, 0, 1); VP_IN_RANGE(int, raw, 0, 1);
    type = raw ? RKRawDataTypeFromTransceiver : RKRawDataTypeAfterMatchedFilter;
    pulseIndex = 0;
    for (int k = 0; k < 2; k++) {
        VP_DRAW_RANGE(wave[k]->count, "groups", 1, 2); wave[k]->fc = 9e9 + k; wave[k]->fs = 1e6; wave[k]->type = k + 3;
        VP_DRAW_RANGE(wave[k]->depth, "wavedepth", 1, 100000);
        for (int g = 0; g < 2; g++) { VP_DRAW_RANGE(wave[k]->filterCounts[g], "filters", 1, RKMaximumFilterCount); wave[k]->samples[g] = smp[g]; wave[k]->iSamples[g] = ismp[g];
            G[k].fn[g] = wave[k]->filterCounts[g]; G[k].a[g] = wave[k]->filterAnchors[g]; G[k].s[g] = smp[g]; G[k].i[g] = ismp[g]; }
        G[k].count = wave[k]->count; G[k].depth = wave[k]->depth; G[k].type = wave[k]->type; G[k].fc = wave[k]->fc; G[k].fs = wave[k]->fs;
        cfg[k].i = 2000 + k; cfg[k].waveform = wave[k];
    }
    for (int k = 0; k < DEPTH; k++) {
        RKPulse *p = &pulses[k].head;
        p->header.capacity = CAP;
        if (k >= NP) continue;
        VP_DRAW_RANGE(p->header.gateCount, "gateCount", 1, CAP); VP_DRAW_RANGE(p->header.downSampledGateCount, "gates", 1, CAP);
        VP_DRAW_RANGE(p->header.configIndex, "configIndex", 0, 1);
        pg[k] = p->header.gateCount; pd[k] = p->header.downSampledGateCount; pc[k] = p->header.configIndex;
        p->header.s = RKPulseStatusUsedForMoments; p->header.time.tv_sec = 1; p->header.time.tv_usec = 0;
    }
    static char name[] = "rec";
    engine.state = RKEngineStateProperlyWired | RKEngineStateActivating;
    engine.radarDescription = &desc; desc.pulseBufferDepth = DEPTH;
    engine.configBuffer = cfg; engine.pulseBuffer = (RKBuffer)pulses; engine.pulseIndex = &pulseIndex;
    engine.record = rec; engine.rawDataType = type; engine.maximumRecordDepth = maxDepth;
    engine.cache = cachePtr; engine.cacheSize = (size_t)1 << 40; engine.cacheWriteIndex = 0;
    prevWant = rec; wantedAt = rec;
    pulseRecorder(&engine);
    VP_ASSERT(!open_, "no file is left open");
    if (opened == 2) VP_REACH("two files");
    if (recordedPulses == NP - 1) VP_REACH("pulses recorded");
}
