/* F01: reading one pulse of a recording, for every header the file may carry. */
#include <RadarKit.h>
#include "vp.h"
#ifdef VP_NATIVE
#define CAP 240
#else
#define CAP 16
#endif
static struct slot { RKPulse head __attribute__((aligned(16))); char data[CAP * 40]; } P;
static RKPulseHeader H, buf7; static RKPulseHeaderV1 H1, buf6;
static int reads, version; static RKRawDataType type; static size_t asked[3], got[3];
static size_t W;                                    /* witness gate */
static RKComplex zc[2]; static RKInt16C zs[2];      /* what the file carries there, per channel */
static char *const D = P.data;
static size_t vp_fread(void *p, size_t sz, size_t n, FILE *f) {
    size_t r; int j = reads++ - 1;
    VP_DRAW_RANGE(r, "r", 0, (size_t)1 << 32); VP_ASSUME(r <= n);
    VP_ASSERT(j < 2, "one header and two channels are read");
    if (j < 0) {
        VP_ASSERT(n == 1 && sz == (version > 6 ? sizeof(RKPulseHeader) : sizeof(RKPulseHeaderV1)), "the header of the version of the file is read first");
        if (r) { if (version > 6) *(RKPulseHeader *)p = H; else *(RKPulseHeaderV1 *)p = H1; }
        got[0] = r; return r;
    }
    VP_ASSERT(got[0], "data follow a header");
    asked[j + 1] = n; got[j + 1] = r;
    int raw = type == RKRawDataTypeFromTransceiver;
    size_t o = (size_t)((char *)p - D);
    VP_ASSERT(sz == (raw ? sizeof(RKInt16C) : sizeof(RKComplex)), "gates have the size of the kind of data");
    VP_ASSERT(o == (raw ? j * CAP * sizeof(RKInt16C) : 2 * CAP * sizeof(RKInt16C) + j * CAP * sizeof(RKComplex)), "each channel is read into its own data");
    VP_ASSERT(n <= CAP, "no gate is read past the capacity of the pulse");
#ifdef VP_NATIVE
    if (raw) for (size_t i = 0; i < r; i++) ((RKInt16C *)p)[i] = i == W ? zs[j] : (RKInt16C){(int16_t)i, (int16_t)~i};
    else for (size_t i = 0; i < r; i++) ((RKComplex *)p)[i] = i == W ? zc[j] : (RKComplex){(float)i, -(float)i};
#else
    if (W < r) { if (raw) ((RKInt16C *)p)[W] = zs[j]; else ((RKComplex *)p)[W] = zc[j]; }
#endif
    return r;
}
#ifdef VP_CBMC
static void *vp_malloc(size_t n) { return n == sizeof(RKPulseHeader) ? (void *)&buf7 : (void *)&buf6; }
static void vp_free(void *p) {}
#define malloc vp_malloc
#define free vp_free
#endif
#define fread vp_fread
#include "RKFoundation.c"
#undef malloc
#undef free
#undef fread
VP_SILENT
#ifdef VP_CBMC
/* contracts of the accessors (proved in B01): the regions of a pulse of capacity CAP */
#define AT(p) VP_ASSERT((p) == &P.head && (p)->header.capacity == CAP, "data are located with the capacity of the pulse")
RKInt16C *vp_int16(RKPulse *p, const uint32_t c) { AT(p); return (RKInt16C *)D + c * CAP; }
RKComplex *vp_complex(RKPulse *p, const uint32_t c) { AT(p); return (RKComplex *)(D + 2 * CAP * sizeof(RKInt16C)) + c * CAP; }
RKIQZ vp_split(RKPulse *p, const uint32_t c) { AT(p); RKIQZ z; z.i = (float *)(D + 2 * CAP * (sizeof(RKInt16C) + sizeof(RKComplex))) + 2 * c * CAP; z.q = z.i + CAP; return z; }
#endif
#ifndef RAWTYPE
#define RAWTYPE RKRawDataTypeAfterMatchedFilter
#endif
#define EQ_(a, b) ((a) == (b) || ((a) != (a) && (b) != (b)))
#define SAME(f) VP_ASSERT(EQ_(P.head.header.f, (V7 ? H.f : H1.f)), "the header of the pulse carries the " #f " of the file")
void h_pulse(void) {
    static RKFileHeader fh; static char some;
    reads = 0; got[0] = 0;
    VP_IN_RANGE(uint32_t, ver, 0, 9); VP_IN_RANGE(int, kind, 0, 3); VP_IN_RANGE(size_t, w, 0, CAP - 1);
    version = ver;
#ifdef VERSION
    VP_ASSUME(VERSION == 7 ? ver > 6 : ver <= 6);
#endif
    const int V7 = ver > 6;
    type = kind; W = w;
    fh.version = ver; fh.dataType = kind;
#ifdef VP_CBMC
    RKPulseHeader h; RKPulseHeaderV1 h1; H = h; H1 = h1;
#else
    VP_FILL(((char (*)[sizeof(H)])&H)[0]); VP_FILL(((char (*)[sizeof(H1)])&H1)[0]);
    VP_IN_RANGE(uint32_t, g, 0, CAP + 3); VP_IN_RANGE(uint32_t, dg, 0, CAP + 3);
    H.gateCount = H1.gateCount = g; H.downSampledGateCount = H1.downSampledGateCount = dg;
#endif
    for (int j = 0; j < 2; j++) { VP_DRAW(zc[j].i, "zi"); VP_DRAW(zc[j].q, "zq"); VP_DRAW(zs[j].i, "si"); VP_DRAW(zs[j].q, "sq"); VP_ASSUME(zc[j].i == zc[j].i && zc[j].q == zc[j].q); }
    P.head.header.capacity = CAP; P.head.header.s = RKPulseStatusVacant; P.head.header.configIndex = 3;
    int r = RKReadPulseFromFileReference(&P.head, &fh, (FILE *)&some);
    VP_ASSERT(P.head.header.capacity == CAP, "the capacity of the pulse is kept");
    VP_ASSERT(P.head.header.s == RKPulseStatusVacant, "the status of the pulse is left to the caller");
    if (ver <= 4) { VP_ASSERT(r == RKResultNothingToRead && reads == 0, "unsupported versions are refused"); return; }
    if (got[0] == 0) { VP_ASSERT(r == RKResultNothingToRead, "the end of the file is reported"); return; }
    SAME(i); SAME(n); SAME(t); SAME(gateCount); SAME(pulseWidthSampleCount); SAME(marker); SAME(time.tv_sec); SAME(time.tv_usec); SAME(timeDouble); SAME(gateSizeMeters); SAME(elevationDegrees); SAME(azimuthDegrees); SAME(elevationVelocityDegreesPerSecond); SAME(azimuthVelocityDegreesPerSecond);
    uint32_t fg = kind == RKRawDataTypeFromTransceiver ? (V7 ? H.gateCount : H1.gateCount) : V7 ? H.downSampledGateCount : H1.downSampledGateCount;
    _Bool known = kind == RKRawDataTypeFromTransceiver || kind == RKRawDataTypeAfterMatchedFilter;
    if (!known) { VP_ASSERT(r == RKResultRawDataTypeUndefined && reads == 1, "an unknown kind of data is refused"); return; }
    VP_ASSERT(P.head.header.downSampledGateCount == (kind == RKRawDataTypeFromTransceiver ? 0 : fg), "the number of compressed gates is that of the file");
    if (fg > CAP) { VP_ASSERT(r != RKResultSuccess && reads == 1, "a pulse that does not fit is refused"); VP_REACH("too big"); return; }
    if (r == RKResultSuccess) {
        VP_ASSERT(reads == 3 && asked[1] == fg && asked[2] == fg && got[1] == fg && got[2] == fg, "success means that both channels were read completely");
        if (W < fg) for (int j = 0; j < 2; j++) {
            if (kind == RKRawDataTypeFromTransceiver) {
                RKInt16C x = ((RKInt16C *)D)[j * CAP + W];
                VP_ASSERT(x.i == zs[j].i && x.q == zs[j].q, "every gate of both channels is that of the file");
            } else {
                RKComplex x = ((RKComplex *)(D + 2 * CAP * sizeof(RKInt16C)))[j * CAP + W];
                float *z = (float *)(D + 2 * CAP * (sizeof(RKInt16C) + sizeof(RKComplex))) + 2 * j * CAP;
                VP_ASSERT(x.i == zc[j].i && x.q == zc[j].q, "every gate of both channels is that of the file");
                VP_ASSERT(z[W] == x.i && z[CAP + W] == x.q, "the split copy of every gate is the same");
            }
            VP_REACH("gate");
        }
    } else VP_ASSERT(got[1] < fg || (reads == 3 && got[2] < fg), "a complete pulse is not refused");
}
