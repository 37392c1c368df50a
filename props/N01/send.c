/* N01: what a packet-send call puts on the wire, under every schedule of
 * partial, refused and failed send() calls.  The socket is the trusted
 * contract vp_send(): it accepts any part of the buffer, or fails. */
#include <RadarKit.h>
#include "vp.h"
#define NP 3
static const unsigned char *P[NP];
static size_t N[NP];
static int np, theSd, locked, lockErr;
static size_t pos, total, w, lastLen;          /* ledger: bytes accepted; witness position */

#ifndef COOP
#define COOP 0
#endif
#ifndef STALLS
#define STALLS 2
#endif
static int stalls;
static unsigned char marker;             /* content of the byte at the witness position */
static ssize_t vp_send(int sd, const void *buf, size_t len, int flags) {
    ssize_t r;
    VP_ASSERT(sd == theSd, "bytes go to the given socket");
    VP_ASSUME(len <= (1ul << 40));
#ifdef VP_CBMC
    VP_ASSERT(__CPROVER_r_ok(buf, len), "only memory of the payload is handed to the socket");
#endif
    VP_DRAW_RANGE(r, "r", -1, (ssize_t)len);
    if (COOP) VP_ASSUME(r == (ssize_t)len || (r <= 0 && stalls-- > 0));
    if (r > 0) {
        VP_ASSERT((size_t)r <= total - pos, "nothing beyond the given payloads is transmitted");
        if (w >= pos && w - pos < (size_t)r) VP_ASSERT(((const unsigned char *)buf)[w - pos] == marker, "each transmitted byte is the next byte of the payloads, once, in order");
        pos += r;
    }
    return r;
}
static const char *theString; static size_t theLen;
static size_t vp_strlen(const char *x) { return x == theString ? theLen : 0; }
static int vp_usleep(unsigned int t) { return 0; }
static int vp_lock(pthread_mutex_t *m) { if (locked) lockErr = 1; locked = 1; return 0; }
static int vp_unlock(pthread_mutex_t *m) { if (!locked) lockErr = 1; locked = 0; return 0; }
#define RK_GHOST_SENT pos
#define RK_GHOST_SEND_FRAME pos
#define send vp_send
#define usleep vp_usleep
#define pthread_mutex_lock vp_lock
#define pthread_mutex_unlock vp_unlock
#include "RKNetwork.c"
#define RK_GHOST_RECEIVE_FRAME pos
#define RK_GHOST_RECEIVED pos
#define RK_GHOST_DELIMITER_PREFIX(b, k) 1
#define RK_GHOST_PAYLOAD_PREFIX(b, k) 1
#define strlen vp_strlen
#include "RKServer.c"
#undef send
#undef strlen
#undef usleep
#undef pthread_mutex_lock
#undef pthread_mutex_unlock

static void setup(int n, size_t cap) {
    VP_IN_RANGE(size_t, n0, 0, cap);
    VP_IN_RANGE(size_t, n1, 0, cap);
    VP_IN_RANGE(size_t, n2, 0, cap);
    VP_IN_RANGE(size_t, wit, 0, 3 * cap);
    VP_IN(unsigned char, mk);
    VP_IN_RANGE(int, sd, 3, 1000);
    np = n; N[0] = n > 0 ? n0 : 0; N[1] = n > 1 ? n1 : 0; N[2] = n > 2 ? n2 : 0;
    stalls = STALLS; total = N[0] + N[1] + N[2]; pos = 0; w = wit; theSd = sd; locked = lockErr = 0;
    VP_ASSUME(total == 0 || w < total);
    size_t k = w;
    for (int i = 0; i < n; i++) {
        unsigned char *m = malloc(N[i] ? N[i] : 1);
#ifdef VP_NATIVE
        for (size_t j = 0; j < N[i]; j++) m[j] = 31 * j + 101 * i + (j >> 8);
#endif
        if (k < N[i]) { m[k] = mk; k = ~0ul; } else if (k != ~0ul) k -= N[i];
        P[i] = m;
    }
    marker = mk;
}
static void teardown(void) { for (int i = 0; i < np; i++) free((void *)P[i]); }
static void judge(ssize_t ret) {
    VP_ASSERT(pos <= total, "no more than the payloads is transmitted");
    VP_ASSERT((ret >= 0) == (pos == total), "success is reported exactly when everything was accepted");
    VP_ASSERT(ret < 0 || (size_t)ret == total, "the reported size is the total size");
    if (COOP) VP_ASSERT(ret == (ssize_t)total, "a peer that takes the bytes, after at most two pauses, gets them all");
#if COOP
    VP_REACH("live peer");
#elif COUNT > 0
    if (ret >= 0 && total > 5) VP_REACH("complete transmission");
    if (ret < 0) VP_REACH("failed transmission");
#else
    VP_REACH("end");
#endif
}
#ifdef VP_NATIVE
#define CAP 300
#elif defined(VPCAP)
#define CAP VPCAP
#else
#define CAP 0x1000000
#endif
#define CALL(f, x) (np == 0 ? f(x, NULL) : np == 1 ? f(x, P[0], (ssize_t)N[0], NULL) \
    : np == 2 ? f(x, P[0], (ssize_t)N[0], P[1], (ssize_t)N[1], NULL) \
    : f(x, P[0], (ssize_t)N[0], P[1], (ssize_t)N[1], P[2], (ssize_t)N[2], NULL))
void h_network(void) {
    setup(COUNT, CAP);
    judge(CALL(RKNetworkSendPackets, theSd));
    teardown();
}
void h_operator(void) {
    static RKOperator O;
    setup(COUNT, CAP);
    O.sid = theSd;
    judge(CALL(RKOperatorSendPackets, &O));
    VP_ASSERT(!locked && !lockErr, "the operator is unlocked afterwards, on success and on failure");
    teardown();
}

/* a text frame is a header announcing exactly the bytes that follow */
void h_strings(void) {
    static RKOperator O; RKNetDelimiter e; ssize_t ret;
    VP_IN_RANGE(size_t, len, 0, CAP);
    VP_IN_RANGE(size_t, wit, 0, CAP + 16);
    VP_IN(unsigned char, mk);
    VP_IN_RANGE(int, sd, 3, 1000);
    VP_IN_RANGE(int, which, 0, 3);
    VP_IN_RANGE(uint32_t, old, 0, 100);
    char *s = malloc(len + 1);
#ifdef VP_NATIVE
    for (size_t k = 0; k < len; k++) s[k] = 'a' + k % 26;
#endif
    VP_ASSUME(mk != 0);
    s[len] = 0;
    pos = 0; w = wit; theSd = sd; locked = lockErr = 0; theString = s; theLen = len;
    O.sid = sd; O.delimString.type = 5; O.delimString.subtype = 0; O.delimString.size = old; O.delimString.decodedSize = 0x20200d00;
    O.beacon.type = RKNetworkPacketTypeBeacon; O.beacon.subtype = 3; O.beacon.size = 0; O.beacon.decodedSize = 0;
    e = which == 3 ? O.beacon : O.delimString;
    if (which < 2) { e.type = which == 0 ? RKNetworkPacketTypePlainText : RKNetworkPacketTypeCommandResponse; e.size = len; }
    size_t head = which == 2 ? 0 : 16;
    total = head + (which == 3 ? 0 : len);
    VP_ASSUME(w < total || total == 0);
    if (w < head) marker = e.bytes[w & 15]; else if (w < total) { s[w - head] = mk; marker = mk; }
    if (which == 0) ret = RKOperatorSendDelimitedString(&O, s);
    else if (which == 1) ret = RKOperatorSendCommandResponse(&O, s);
    else if (which == 2) ret = RKOperatorSendString(&O, s);
    else ret = RKOperatorSendBeacon(&O);
    judge(ret);
    VP_ASSERT(!locked && !lockErr, "the operator is unlocked afterwards");
    free(s);
}
