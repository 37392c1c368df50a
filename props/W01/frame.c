/* W01: one WebSocket frame, encoded and decoded, for every payload length. */
#include <RadarKit.h>
#include "vp.h"
static unsigned char hdr[16]; static int hdrn;          /* frame header at the time the payload is placed */
static unsigned char *B;                                /* the frame buffer */
static size_t w; static unsigned char marker;           /* witness offset in the payload, and the byte there */
static const char *theSrc; static size_t theLen;
#ifdef VP_CBMC
int fprintf(FILE *f, const char *s, ...) { return 0; }
int printf(const char *s, ...) { return 0; }
static uint32_t K;
static int vp_rand(void) { return (int)K; }
#define rand vp_rand
#define U(c) (unsigned char)(c)
#define HB(i) (i >= hdrn || B[i] == hdr[i])
#define SNAP(i) if (i < hdrn) hdr[i] = B[i];
#define SNAPALL SNAP(0) SNAP(1) SNAP(2) SNAP(3) SNAP(4) SNAP(5) SNAP(6) SNAP(7) SNAP(8) SNAP(9) SNAP(10) SNAP(11) SNAP(12) SNAP(13)
#define RK_GHOST_MASK_HEADER(p) (HB(0) && HB(1) && HB(2) && HB(3) && HB(4) && HB(5) && HB(6) && HB(7) && HB(8) && HB(9) && HB(10) && HB(11) && HB(12) && HB(13))
#define RK_GHOST_MASKED(p, k, i) (w >= theLen || U((p)[w]) == (unsigned char)((size_t)(i) > w ? marker ^ (k)[w % 4] : marker))
static void *vp_memcpy(void *d, const void *s, size_t n) {
    if (n == theLen && s == theSrc) {
        VP_ASSERT(__CPROVER_w_ok(d, n), "the payload fits the frame buffer");
        if (w < n) ((unsigned char *)d)[w] = marker;
        hdrn = (int)((unsigned char *)d - B); VP_AUX(hdrn >= 0 && hdrn <= 14, "header before payload"); SNAPALL
    } else VP_AUX(0, "unexpected copy");
    return d;
}
static size_t vp_strlen(const char *s) { VP_ASSERT(s == theSrc, "the message is measured"); return theLen; }
#define memcpy vp_memcpy
#define strlen vp_strlen
#define memset(d, c, n) (((unsigned char *)(d))[0] = ((unsigned char *)(d))[1] = 0)
#endif
#include "RKWebSocket.c"
#undef memcpy
#undef strlen
#undef memset
#undef rand
#ifdef VP_NATIVE
#ifndef LMAX
#define LMAX 70000
#endif
#else
#ifndef LMAX
#define LMAX 0x200000
#endif
#endif
static size_t be(const unsigned char *p, int n) { size_t v = 0; for (int i = 0; i < n; i++) v = v << 8 | p[i]; return v; }
void h_encode(void) {
    VP_IN_RANGE(size_t, len, 0, LMAX); VP_IN_RANGE(size_t, wit, 0, LMAX); VP_IN(unsigned char, mk); VP_IN(uint32_t, key); VP_IN_RANGE(uint8_t, op, 0, 15); VP_IN_RANGE(uint8_t, null, 0, 3); VP_IN_RANGE(uint8_t, cls, 0, 3);
    w = wit; marker = mk;
#ifdef VP_NATIVE
    if (cls == 0) len %= 130; if (cls == 1) len = RKWebSocketFrameSize - 20 + len % 40;
    char *src = malloc(len + 1); for (size_t i = 0; i < len; i++) src[i] = 1 + (mk + 13 * i) % 250; src[len] = 0;
    size_t cap = RKWebSocketFrameSize;
    w %= len + 1;
#else
    K = key;
    VP_IN_RANGE(size_t, c1, 1, RKWebSocketFrameSize); VP_IN_RANGE(size_t, c2, 1, RKWebSocketFrameSize); VP_ASSUME(c1 + c2 == RKWebSocketFrameSize); const size_t cap = c1 + c2;   /* symbolic: keeps the buffer an array */
    char *src = malloc(len + 1);
#endif
    B = malloc(cap);
    theSrc = null == 0 ? NULL : src; theLen = len;
    size_t size = null == 2 ? 0 : len;               /* 2: the length is left to strlen() */
    if (null == 0) theLen = 0;
    size_t real = null == 0 ? 0 : len, lim = RKWebSocketFrameSize - 15;
    size_t sent = real > lim ? lim : real;
#ifdef VP_CBMC
    theLen = sent;
    if (null == 2) VP_ASSUME(len <= lim);
#else
    marker = (unsigned char)src[w]; srand(key);
#endif
    size_t r = RKWebSocketFrameEncode(B, op, theSrc, size);
    int ext = sent > 65535 ? 8 : sent > 125 ? 2 : 0;
    VP_ASSERT(r == 2 + ext + 4 + sent, "the frame is header, masking key and payload, nothing else");
    VP_ASSERT(r < RKWebSocketFrameSize, "the frame fits the frame buffer");
    VP_ASSERT(B[0] == (0x80 | op), "final frame with the given opcode");
    VP_ASSERT(B[1] == (0x80 | (ext == 8 ? 127 : ext == 2 ? 126 : (int)sent)), "masked, with the short length or its escape");
    if (ext) VP_ASSERT(be(B + 2, ext) == sent, "the extended length is big-endian");
    if (w < sent) {
        VP_ASSERT((unsigned char)(B[2 + ext + 4 + w] ^ B[2 + ext + w % 4]) == marker, "unmasking with the transmitted key gives the payload byte");
        VP_REACH("payload byte");
    }
    if (ext == 8) VP_REACH("long frame");
    VP_ASSERT(RKWebSocketFrameGetTargetSize(B) == r, "the announced frame size is the frame size");
    free(B); free(src);
}
void h_decode(void) {
    VP_IN_RANGE(size_t, len, 0, LMAX); VP_IN_RANGE(size_t, wit, 0, LMAX); VP_IN(unsigned char, mk); VP_IN(uint32_t, key); VP_IN_RANGE(uint8_t, op, 0, 15); VP_IN_RANGE(uint8_t, mask, 0, 1); VP_IN_RANGE(int, form, 0, 2); VP_IN_RANGE(uint8_t, cls, 0, 3);
#ifdef VP_NATIVE
    if (cls == 0) { len %= 130; form = 0; } if (cls == 1) form = 1;
    if (form == 0 && len > 125) len %= 126; if (form == 1 && len > 65535) len %= 65536;
    size_t cap = RKWebSocketFrameSize;
    wit %= len + 1;
#else
    VP_IN_RANGE(size_t, c1, 1, RKWebSocketFrameSize); VP_IN_RANGE(size_t, c2, 1, RKWebSocketFrameSize); VP_ASSUME(c1 + c2 == RKWebSocketFrameSize); const size_t cap = c1 + c2;
#endif
    VP_ASSUME(form == 0 ? len <= 125 : form == 1 ? len <= 65535 : 1);
    w = wit; marker = mk; theLen = len;
    B = malloc(cap);
    int ext = form == 2 ? 8 : form == 1 ? 2 : 0, off = 2 + ext + 4 * mask;
    VP_ASSUME(off + len <= RKWebSocketFrameSize - 1);   /* the reader refuses anything longer, see h_target */
    B[0] = 0x80 | op; B[1] = mask << 7 | (form == 2 ? 127 : form == 1 ? 126 : (int)len);
    if (ext == 2) { B[2] = len >> 8; B[3] = len; }
    if (ext == 8) { B[2] = B[3] = B[4] = B[5] = 0; B[6] = len >> 24; B[7] = len >> 16; B[8] = len >> 8; B[9] = len; }
    unsigned char k[4] = {key, key >> 8, key >> 16, key >> 24};
    if (mask) { B[off - 4] = k[0]; B[off - 3] = k[1]; B[off - 2] = k[2]; B[off - 1] = k[3]; }
#ifdef VP_NATIVE
    for (size_t i = 0; i < len; i++) B[off + i] = 5 * i + mk;
    marker = B[off + (w < len ? w : 0)];
#else
    if (w < len) B[off + w] = marker;
    hdrn = off; SNAPALL
#endif
    unsigned char b0 = B[0], b1 = B[1];
    VP_ASSERT(RKWebSocketFrameGetTargetSize(B) == off + len, "the announced frame size covers header, key and payload");
    void *dst = NULL;
    size_t r = RKWebSocketFrameDecode(&dst, B);
    VP_ASSERT(r == len, "the decoded size is the announced payload size");
    VP_ASSERT(dst == (void *)(B + off), "the payload starts after header and key");
    VP_ASSERT(((char *)dst)[len] == '\0', "the payload is terminated");
    VP_ASSERT(B[0] == b0 && B[1] == b1, "the frame header survives decoding");
    if (w < len) { VP_ASSERT(((unsigned char *)dst)[w] == (unsigned char)(mask ? marker ^ k[w % 4] : marker), "every payload byte is unmasked"); VP_REACH("payload byte"); }
    if (mask) VP_REACH("masked");
    free(B);
}
void h_target(void) {
    unsigned char *f = malloc(14);
    VP_IN(uint8_t, b0); VP_IN(uint8_t, b1); VP_IN(uint64_t, len);
    f[0] = b0; f[1] = b1;
    for (int i = 0; i < 8; i++) f[2 + i] = len >> (56 - 8 * i);
    size_t r = RKWebSocketFrameGetTargetSize(f);
    int n = b1 & 127; size_t m = n == 127 ? len : n == 126 ? len >> 48 : n; size_t off = 2 + (n == 127 ? 8 : n == 126 ? 2 : 0) + (b1 >> 7) * 4;
    if (m <= RKWebSocketFrameSize) VP_ASSERT(r == off + m, "the announced frame size covers header, key and payload");
    else VP_ASSERT(r > RKWebSocketFrameSize - 1, "an oversized announcement is recognised as such");
    VP_REACH("target size");
    free(f);
}
