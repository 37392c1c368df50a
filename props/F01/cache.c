/* F01: the write cache of the raw data recorder. The recorded file followed by
 * the cache is the concatenation of everything written, byte for byte. */
#include <RadarKit.h>
#include "vp.h"
static size_t P, F;                    /* witness position in the recording; bytes in the file */
static unsigned char B;                /* the byte expected there */
static RKRawDataRecorder *E;
static unsigned writes;
#ifdef VP_NATIVE
#define CMAX 64
#define SMAX 200
#else
#define CMAX (1u << 30)
#define SMAX (1u << 30)
#endif
static ssize_t vp_write(int fd, const void *p, size_t n) {
    const unsigned char *b = p;
    VP_ASSERT(fd == E->fd, "bytes go to the file being recorded");
#ifdef VP_CBMC
    VP_ASSERT(__CPROVER_r_ok(b, n), "only accessible bytes are written");
#else
    for (size_t i = 0; i < n; i++) { volatile unsigned char c = b[i]; (void)c; }
#endif
    if (P >= F && P - F < n) VP_ASSERT(b[P - F] == B, "the file carries every byte at its place");
    F += n; writes++;
    return n;
}
#ifdef VP_CBMC
/* contract of memcpy, observed at the witness byte */
static void *vp_memcpy(void *d, const void *s, size_t n) {
    VP_ASSERT(n == 0 || (__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n)), "copied range is accessible");
    if (n > 0 && __CPROVER_same_object(d, E->cache) && P >= F) {
        size_t o = __CPROVER_POINTER_OFFSET(d);
        if (P - F >= o && P - F - o < n) ((unsigned char *)E->cache)[P - F] = ((const unsigned char *)s)[P - F - o];
    }
    return d;
}
#define memcpy vp_memcpy
#endif
#define write vp_write
#include "RKRawDataRecorder.c"
#undef write
#undef memcpy
#ifdef VP_CBMC
static RKRawDataRecorder engine;
static void setup(size_t c, size_t idx) { engine.cache = malloc(c); }
#else
static RKRawDataRecorder engine;
static void setup(size_t c, size_t idx) { free(engine.cache); engine.cache = malloc(c); for (size_t i = 0; i < c; i++) ((unsigned char *)engine.cache)[i] = (unsigned char)(i * 7 + 3); }
#endif
static size_t begin(size_t *f0) {
    VP_IN_RANGE(size_t, c, 1, CMAX); VP_IN_RANGE(size_t, idx, 0, CMAX); VP_IN_RANGE(size_t, f, 0, (size_t)1 << 44);
    VP_ASSUME(idx <= c);
    E = &engine; F = f; *f0 = f; writes = 0;
    setup(c, idx);
    engine.cacheSize = c; engine.cacheWriteIndex = idx; engine.fd = 5;
    VP_IN(uint64_t, fc); VP_IN(uint64_t, wc);
    engine.cacheFlushCount = fc; engine.fileWriteCount = wc;
    return idx;
}
void h_write(void) {
    size_t f0, idx = begin(&f0);
    VP_IN_RANGE(size_t, size, 0, SMAX); VP_IN_RANGE(size_t, at, 0, (size_t)CMAX + SMAX);
    VP_ASSUME(at < idx + size);
    P = f0 + at;
    unsigned char *payload = malloc(size ? size : 1);
#ifdef VP_NATIVE
    for (size_t i = 0; i < size; i++) payload[i] = (unsigned char)(i * 13 + 101);
#endif
    B = at < idx ? ((unsigned char *)engine.cache)[at] : payload[at - idx];
    uint64_t wc = engine.fileWriteCount;
    size_t r = RKRawDataRecorderCacheWrite(&engine, payload, size);
    VP_ASSERT(F + engine.cacheWriteIndex == f0 + idx + size, "file and cache together grow by exactly the payload");
    VP_ASSERT(engine.cacheWriteIndex <= engine.cacheSize, "the cache never overflows");
    VP_ASSERT(r == F - f0, "the size that went to the file is reported");
    VP_ASSERT((engine.fileWriteCount != wc) == (writes > 0), "writes to the file are counted");
    if (P >= F) VP_ASSERT(((unsigned char *)engine.cache)[P - F] == B, "the cache carries every byte that is not in the file");
    if (size) VP_REACH("written");
    if (F > f0 + engine.cacheSize) VP_REACH("long payload");
#ifdef VP_NATIVE
    free(payload);
#endif
}
void h_flush(void) {
    size_t f0, idx = begin(&f0);
    VP_IN_RANGE(size_t, at, 0, CMAX);
    VP_ASSUME(idx == 0 || at < idx);
    P = f0 + at;
    B = idx ? ((unsigned char *)engine.cache)[at] : 0;
    if (!idx) P = (size_t)-1;
    uint64_t wc = engine.fileWriteCount;
    size_t r = RKRawDataRecorderCacheFlush(&engine);
    VP_ASSERT(F == f0 + idx && engine.cacheWriteIndex == 0, "a flush brings everything into the file");
    VP_ASSERT(r == idx, "the size that went to the file is reported");
    VP_ASSERT((engine.fileWriteCount != wc) == (writes > 0), "writes to the file are counted");
    VP_REACH("flushed");
}
