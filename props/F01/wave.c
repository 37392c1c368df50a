/* F01: the waveform section of a recording, written and read with the same layout. */
#include <RadarKit.h>
#include "vp.h"
#ifdef VP_NATIVE
#undef GMAX
#undef FMAX
#define GMAX 3
#endif
#ifndef GMAX
#define GMAX 2                           /* groups */
#endif
#ifdef VP_CBMC
/* the byte view of the 512-byte header is not used; the native runs use the real union */
typedef struct { uint8_t count; uint32_t depth; RKWaveformType type; RKName name; double fc, fs; uint8_t filterCounts[RKMaximumWaveformCount]; } vp_WaveHeader;
#define RKWaveFileGlobalHeader vp_WaveHeader
#ifndef FMAX
#define FMAX 2
#endif
#else
#define FMAX RKMaximumFilterCount
#endif
static RKWaveFileGlobalHeader H, hbuf;
static struct { uint32_t name, origin, length, inputOrigin, outputOrigin, maxDataLength; } A[GMAX][FMAX];
static RKWaveform wbuf, *theW;
static int st, grp; static _Bool shortHeader, shortAnchors, freed, gained;
enum { S_HEAD, S_ANCHOR, S_SAMPLE, S_ISAMPLE, S_END };
static int groups;
/* the layout of the section: what comes next and how large it is */
static void layout(size_t sz, size_t n, const void *p, int writing) {
    VP_ASSERT(st != S_END, "nothing follows the last group");
    switch (st) {
    case S_HEAD: VP_ASSERT(sz * n == sizeof(RKWaveFileGlobalHeader) && n == 1, "the section starts with its header"); st = groups ? S_ANCHOR : S_END; break;
    case S_ANCHOR: VP_ASSERT(sz == sizeof(RKFilterAnchor) && n == (writing ? theW->filterCounts[grp] : H.filterCounts[grp]), "the filters of a group follow, one anchor each"); st = S_SAMPLE; break;
    case S_SAMPLE: VP_ASSERT(sz == sizeof(RKComplex) && n == (writing ? theW->depth : H.depth), "then one complex sample for each position"); st = S_ISAMPLE; break;
    case S_ISAMPLE: VP_ASSERT(sz == sizeof(RKInt16C) && n == (writing ? theW->depth : H.depth), "and one transmit sample for each position"); st = ++grp < groups ? S_ANCHOR : S_END; break;
    }
}
#ifdef VP_NATIVE
static int vp_memalign(void **p, size_t a, size_t n) { *p = (malloc)(n); return 0; }
#else
/* blocks are identified by their place; only their sizes matter */
static char blocks[4 * GMAX]; static size_t size[4 * GMAX]; static int nblocks;
static int vp_memalign(void **p, size_t a, size_t n) { VP_ASSERT(nblocks < 4 * GMAX, "one block for each array"); size[nblocks] = n; *p = blocks + nblocks++; return 0; }
static _Bool fits(const void *p, size_t n) { for (int k = 0; k < 2 * GMAX; k++) if (p == blocks + k) return k < nblocks && n <= size[k]; return (n <= sizeof(wbuf) && p == (void *)&wbuf) || (n <= sizeof(hbuf) && p == (void *)&hbuf); }
#endif
static size_t vp_fread(void *p, size_t sz, size_t n, FILE *f) {
    size_t r; int s = st, g = grp;
    VP_DRAW_RANGE(r, "r", 0, (size_t)1 << 32);
#ifdef VP_NATIVE
    if (rand() & 7) r = n;
#endif
    VP_ASSUME(r <= n);
    layout(sz, n, p, 0);
    if (s == S_HEAD) { VP_ASSERT(p == &hbuf, "the header is read apart"); if (r) hbuf = H; else { shortHeader = 1; st = S_END; } }
    else if (s == S_ANCHOR) {
        VP_ASSERT(n <= RKMaximumFilterCount, "anchors are not read past the group");
        VP_ASSERT(p == wbuf.filterAnchors[g], "into the anchors of the group");
        for (int q = 0; q < GMAX; q++) for (int j = 0; j < FMAX; j++) if (q == g && j < r) {
            RKFilterAnchor *a = &wbuf.filterAnchors[q][j];
            a->name = A[q][j].name; a->origin = A[q][j].origin; a->length = A[q][j].length; a->inputOrigin = A[q][j].inputOrigin; a->outputOrigin = A[q][j].outputOrigin; a->maxDataLength = A[q][j].maxDataLength;
        }
        if (r < n) shortAnchors = 1;
    } else {
        void *b = s == S_SAMPLE ? (void *)wbuf.samples[g] : (void *)wbuf.iSamples[g];
        VP_ASSERT(p == b, "samples are read into the group");
#ifdef VP_CBMC
        VP_ASSERT(fits(p, sz * n), "the samples fit");
#else
        for (size_t i = 0; i < sz * n; i += 64) ((char *)p)[i] = 0;
        if (sz * n) ((char *)p)[sz * n - 1] = 0;
#endif
    }
    return r;
}
static const void *wrote[1 + 3 * GMAX]; static int nw;
static size_t vp_fwrite(const void *p, size_t sz, size_t n, FILE *f) {
    VP_ASSERT(p == (st == S_HEAD ? (void *)&hbuf : st == S_ANCHOR ? (void *)theW->filterAnchors[grp] : st == S_SAMPLE ? (void *)theW->samples[grp] : (void *)theW->iSamples[grp]), "each part is the one of its group");
    if (st == S_HEAD) {
        VP_ASSERT(hbuf.count == theW->count && hbuf.depth == theW->depth && hbuf.type == theW->type && hbuf.fc == theW->fc && hbuf.fs == theW->fs, "the header describes the waveform");
        for (int g = 0; g < GMAX; g++) if (g < groups) VP_ASSERT(hbuf.filterCounts[g] == theW->filterCounts[g], "and the filters of each group");
    }
    layout(sz, n, p, 1);
    return n;
}
static void *vp_malloc(size_t n) { return n == sizeof(RKWaveform) ? (void *)&wbuf : (void *)&hbuf; }
static void vp_free(void *p) { if (p == &wbuf) freed = 1;
#ifdef VP_NATIVE
    else if (p != &hbuf) (free)(p);
#endif
}
static int vp_fclose(FILE *f) { VP_ASSERT(0, "the file of the caller stays open"); return 0; }
#ifdef VP_CBMC
static void *vp_memset(void *d, int c, size_t n) { VP_ASSERT(fits(d, n), "cleared memory is accessible"); return d; }
static char *vp_strcpy(char *d, const char *s) { return d; }
static size_t NW; static char *vp_strncpy(char *d, const char *s, size_t n) { VP_ASSERT(d == wbuf.name && n < sizeof(RKName), "the name keeps its end"); return d; }
#define memset vp_memset
#define strcpy vp_strcpy
#define strncpy vp_strncpy
#endif
static void vp_gain(RKWaveform *w, int flag) {
    VP_ASSERT(w == &wbuf, "the gain of the waveform is calculated");
    for (int g = 0; g < GMAX; g++) if (g < w->count) {
        VP_ASSERT(w->filterCounts[g] <= RKMaximumFilterCount, "the number of filters is in range");
        for (int j = 0; j < FMAX; j++) if (j < w->filterCounts[g]) VP_ASSERT((uint64_t)w->filterAnchors[g][j].origin + w->filterAnchors[g][j].length <= w->depth, "every filter lies inside the samples");
    }
    gained = 1;
}
#define fread vp_fread
#define fwrite vp_fwrite
#define malloc vp_malloc
#define free vp_free
#define posix_memalign vp_memalign
#define fclose vp_fclose
#include "RKWaveform.c"
#undef fread
#undef fwrite
#undef malloc
#undef free
#undef posix_memalign
#undef fclose
#undef memset
#undef strcpy
#undef strncpy
void vp_gain_(RKWaveform *w, RKWaveformGain flag) { vp_gain(w, flag); }
static char someFile;
static void anchors(void) {
    for (int g = 0; g < GMAX; g++) for (int j = 0; j < FMAX; j++) {
#ifdef VP_CBMC
        __typeof__(A[0][0]) x; A[g][j] = x;
#else
        VP_DRAW(A[g][j].name, "name"); VP_DRAW(A[g][j].maxDataLength, "maxDataLength");
        uint32_t d = H.depth + 2;
        A[g][j].length = rand() % d; A[g][j].origin = rand() % d; if (rand() & 7) A[g][j].origin = A[g][j].origin % (d - A[g][j].length); A[g][j].inputOrigin = rand() % 1000; A[g][j].outputOrigin = rand() % 1000;
#endif
    }
}
void h_read(void) {
    st = S_HEAD; grp = 0; shortHeader = shortAnchors = freed = gained = 0;
#ifdef VP_NATIVE
    memset(&H, 0, sizeof(H)); memset(&hbuf, 0, sizeof(hbuf)); memset(&wbuf, 0, sizeof(wbuf)); VP_FILL(H.name);
    VP_IN(uint32_t, sd); srand(sd);
    VP_DRAW_RANGE(H.depth, "depth", 0, 3000);
    VP_DRAW_RANGE(H.count, "count", 0, GMAX);
    for (int g = 0; g < GMAX; g++) VP_DRAW_RANGE(H.filterCounts[g], "filters", 0, FMAX + 1);
    H.fc = 9e9; H.fs = 1e8; H.type = 17;
#else
    vp_WaveHeader h; H = h; H.fc = 9e9; H.fs = 1e8;
    VP_ASSUME(H.count <= GMAX);
    for (int g = 0; g < GMAX; g++) VP_ASSUME(H.filterCounts[g] <= FMAX || H.filterCounts[g] > RKMaximumFilterCount);
#endif
    anchors();
    groups = H.count;
    RKWaveform *w = RKWaveformReadFromReference((FILE *)&someFile);
    _Bool bad = 0;                                    /* anything that makes the section invalid */
    for (int g = 0; g < GMAX; g++) if (g < H.count) {
        if (H.filterCounts[g] > RKMaximumFilterCount) bad = 1;
        else for (int j = 0; j < FMAX; j++) if (j < H.filterCounts[g]) {
            if ((uint64_t)A[g][j].origin + A[g][j].length > H.depth || A[g][j].inputOrigin > RKMaximumGateCount || A[g][j].outputOrigin > RKMaximumGateCount) bad = 1;
        }
        if (H.filterCounts[g] == 0) bad = 1;
    }
    if (w) {
        VP_ASSERT(!shortHeader && (!bad || shortAnchors), "an invalid section is refused");
        VP_ASSERT(w == &wbuf && !freed, "the waveform is handed out");
        VP_ASSERT(st == S_END, "the whole section is read");
        VP_ASSERT(w->count == H.count && w->depth == H.depth && w->type == H.type && w->fc == H.fc && w->fs == H.fs, "the waveform is the one of the file");
        for (int g = 0; g < GMAX; g++) if (g < H.count) {
            VP_ASSERT(w->filterCounts[g] == H.filterCounts[g], "it has the filters of the file");
            for (int j = 0; j < FMAX; j++) if (j < H.filterCounts[g] && !shortAnchors) {
                RKFilterAnchor *a = &w->filterAnchors[g][j]; __typeof__(&A[g][j]) b = &A[g][j];
                VP_ASSERT(a->name == b->name && a->origin == b->origin && a->length == b->length && a->inputOrigin == b->inputOrigin && a->outputOrigin == b->outputOrigin, "and their places");
                VP_ASSERT(a->maxDataLength == (j ? b->maxDataLength : RKMaximumGateCount), "the first filter may produce data up to the maximum");
            }
        }
#ifdef VP_NATIVE
        VP_ASSERT(memchr(w->name, 0, sizeof(w->name)) && !strncmp(w->name, H.name, RKNameLength - 1), "the name is that of the file");
        for (int g = 0; g < w->count; g++) { free(w->samples[g]); free(w->iSamples[g]); }
#else
        VP_ASSERT(gained, "the gains are calculated");
#endif
        VP_REACH("waveform");
    } else {
        VP_ASSERT(shortHeader || shortAnchors || bad, "a valid section is accepted");
        if (!shortHeader && !shortAnchors) VP_REACH("refused");
    }
}
void h_write(void) {
    static RKWaveform w; static RKComplex s[GMAX]; static RKInt16C is[GMAX];
    st = S_HEAD; grp = 0; theW = &w;
    VP_IN_RANGE(int, count, 0, GMAX);
#ifdef VP_NATIVE
    memset(&hbuf, 0, sizeof(hbuf));
#endif
    w.count = count; groups = count; w.fc = 9e9; w.fs = 2e6;
    VP_DRAW(w.depth, "depth"); VP_DRAW(w.type, "type");
    uint64_t total = sizeof(RKWaveFileGlobalHeader);
    for (int g = 0; g < GMAX; g++) { VP_DRAW_RANGE(w.filterCounts[g], "filters", 0, RKMaximumFilterCount); w.samples[g] = s; w.iSamples[g] = is; if (g < count) total += w.filterCounts[g] * sizeof(RKFilterAnchor) + (uint64_t)w.depth * 12; }
    size_t n = RKWaveformWriteToReference(&w, (FILE *)&someFile);
    VP_ASSERT(st == S_END, "the whole section is written");
    VP_ASSERT(n == total, "its size is reported");
    if (count) VP_REACH("written");
}
