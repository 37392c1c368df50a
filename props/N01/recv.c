/* N01: reading one framed payload, under every schedule of partial and empty reads. */
#include <RadarKit.h>
#include "vp.h"
static RKNetDelimiter H;               /* the header the peer sends */
static size_t pos, w, total;           /* bytes consumed; witness offset in the payload; bytes the peer sends */
static unsigned char marker;           /* payload byte at w */
static int theSd;
static unsigned char *B;
static const unsigned char *P;         /* native: payload bytes */
static int vp_errno, coop, stalls;
#define BYTE(i) if (i >= pos && i < pos + r) t.bytes[i] = H.bytes[i];
static RKOperator *theO;
static ssize_t vp_read(int sd, void *dst, size_t len) {
    ssize_t r; int e; unsigned char *d = dst;
    VP_ASSERT(sd == theSd, "bytes are taken from the operator's socket");
    VP_DRAW_RANGE(r, "r", -1, (ssize_t)(1 << 30));
    VP_DRAW_RANGE(e, "e", 1, 120);
    VP_ASSUME(r <= (ssize_t)len && (r < 0 || (size_t)r <= total - pos));
    if (coop) VP_ASSUME(r > 0 ? (size_t)r == (len < total - pos ? len : total - pos) : (r < 0 && e == EAGAIN && stalls-- > 0));
    if (r < 0) vp_errno = e;
    if (r > 0) {
#ifdef VP_CBMC
        VP_ASSERT(__CPROVER_w_ok(d, r), "no byte is stored outside the destination");
#else
        for (ssize_t i = 0; i < r; i++) d[i] = pos + i < 16 ? H.bytes[pos + i] : P[pos + i - 16];
#endif
#ifdef VP_CBMC
        if (pos < 16) {
            VP_AUX(d == theO->delimRx.bytes + pos, "the header is assembled in the operator's delimiter");
            VP_AUX(r <= 16 - (ssize_t)pos, "header and payload are read apart");
            RKNetDelimiter t = theO->delimRx;
            BYTE(0) BYTE(1) BYTE(2) BYTE(3) BYTE(4) BYTE(5) BYTE(6) BYTE(7) BYTE(8) BYTE(9) BYTE(10) BYTE(11) BYTE(12) BYTE(13) BYTE(14) BYTE(15)
            theO->delimRx = t;
        } else if (w + 16 >= pos && w + 16 - pos < (size_t)r) d[w + 16 - pos] = marker;
#endif
        pos += r;
    }
    return r;
}
static int vp_usleep(unsigned int t) { return 0; }
#define Q(i, b, k) ((k) <= i || (b)[i] == H.bytes[i])
#define RK_GHOST_RECEIVE_FRAME pos, vp_errno
#define RK_GHOST_RECEIVED pos
#define RK_GHOST_DELIMITER_PREFIX(b, k) (Q(0, b, k) && Q(1, b, k) && Q(2, b, k) && Q(3, b, k) && Q(4, b, k) && Q(5, b, k) && Q(6, b, k) && Q(7, b, k) && Q(8, b, k) && Q(9, b, k) && Q(10, b, k) && Q(11, b, k) && Q(12, b, k) && Q(13, b, k) && Q(14, b, k) && Q(15, b, k))
#define RK_GHOST_PAYLOAD_PREFIX(b, k) (w >= (size_t)(k) || ((unsigned char *)(b))[w] == marker)
#define RK_GHOST_SENT grandTotalSentSize + totalSentSize
#define RK_GHOST_SEND_FRAME pos
#define usleep vp_usleep
#define read vp_read
#undef errno
#define errno vp_errno
#include "RKServer.c"
#undef read
#undef errno
#ifdef VP_NATIVE
#define SMAX 200
#define TMAX 3
#elif defined(VP_BOUNDED)
#define SMAX (1u << 24)
#define TMAX 0
#else
#define SMAX 0xffffffffu
#define TMAX 1000
#endif
#define MAXPKT (16 * 1024 * 1024)
#ifndef COOP
#define COOP 0
#endif
void h_receive(void) {
    coop = COOP; stalls = 2;
    static RKServer M; static char om[offsetof(RKOperator, cmd)]; RKOperator *O = (RKOperator *)om;
    VP_IN_RANGE(uint32_t, size, 0, SMAX);
    VP_IN_RANGE(size_t, wit, 0, MAXPKT);
    VP_IN(unsigned char, mk);
    VP_IN_RANGE(uint16_t, type, 0, 65535);
    VP_IN_RANGE(uint16_t, subtype, 0, 65535);
    VP_IN_RANGE(int, tmO, 0, TMAX);
    VP_IN_RANGE(int, tmM, 0, TMAX);
    VP_IN_RANGE(int, sd, 3, 900);
    VP_IN_RANGE(uint32_t, extra, 0, 64);
    H.type = type; H.subtype = subtype; H.size = size; H.decodedSize = 0;
    theO = O; O->M = &M; O->sid = theSd = sd; O->timeoutSeconds = tmO; M.timeoutSeconds = tmM; M.verbose = 0; O->name[0] = 0; M.name[0] = 0;
    marker = mk; w = wit; pos = 0; total = 16 + (size_t)size + extra; vp_errno = 0;
    VP_IN_RANGE(size_t, cap, size < MAXPKT ? size + 1 : MAXPKT, MAXPKT);   /* the smallest buffer that must do */
#ifdef VP_NATIVE
    w %= size + 1;
    unsigned char *p = malloc(size + extra + 1);
    for (size_t i = 0; i < size + extra; i++) p[i] = 7 * i + mk;
    P = p; marker = p[w]; cap = size + 1;
#endif
    B = malloc(cap);
    ssize_t ret = RKServerReceiveUserPayload(O, B, RKNetworkMessageFormatHeaderDefinedSize);
    VP_ASSERT(pos <= 16 + (size_t)size, "bytes after the framed payload stay in the socket");
    if (size == 0) VP_ASSERT(pos <= 16, "an empty frame consumes its header only");
    if (size > MAXPKT) VP_ASSERT(ret < 0 && pos <= 16, "an oversized payload is refused unread");
    if (ret >= 0 && size > 0) {
        VP_ASSERT(ret == (ssize_t)size, "the returned size is the announced size");
        VP_ASSERT(pos == 16 + (size_t)size, "success means the whole frame was consumed");
        if (w < size) VP_ASSERT(B[w] == marker, "every payload byte arrives at its place");
        VP_ASSERT(O->delimRx.type == type && O->delimRx.subtype == subtype && O->delimRx.size == size, "the header arrives unaltered");
        VP_REACH("payload received");
    }
#if !COOP
    if (ret < 0) VP_REACH("failed");
#endif
    /* a live peer: everything arrives, after at most two pauses */
#if COOP
    if (COOP && tmO > 0 && tmM > 0 && size > 0 && size <= MAXPKT) { VP_ASSERT(ret == (ssize_t)size, "a complete frame of any admissible size is received"); VP_REACH("live peer"); }
#endif
    free(B);
#ifdef VP_NATIVE
    free((void *)P);
#endif
}
