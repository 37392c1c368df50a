/* Native runtime of the harness interface: replay of a verifier trace, or a
 * seeded generator biased to boundary values. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <setjmp.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <math.h>
extern void VP_ENTRY(void);
__attribute__((weak)) void vp_init(void) {}
static jmp_buf vp_jmp;
static int replay = 0, hitReach = 0, quietlog = 1;
static uint64_t s[2];
static uint64_t rnd(void) { uint64_t a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return s[1] + b; }
static void seed(uint64_t x, uint64_t y) { s[0] = x * 0x9E3779B97F4A7C15ull + 1; s[1] = y * 0xBF58476D1CE4E5B9ull + 0x94D049BB133111EBull; for (int i = 0; i < 8; i++) rnd(); }
struct ent { char label[64]; unsigned char *b; size_t n; int used; };
static struct ent *ents; static int nent;
static void load(const char *f) {
    FILE *fp = fopen(f, "r"); char lab[64]; static char hex[1 << 22];
    if (!fp) { fprintf(stderr, "no replay file\n"); exit(3); }
    ents = calloc(100000, sizeof(*ents));
    while (fscanf(fp, "%63s %4194303s", lab, hex) == 2 && nent < 100000) {
        struct ent *e = &ents[nent++]; strcpy(e->label, lab); e->n = strlen(hex) / 2; e->b = malloc(e->n + 1);
        for (size_t i = 0; i < e->n; i++) { unsigned v; sscanf(hex + 2 * i, "%2x", &v); e->b[i] = v; }
    }
    fclose(fp);
}
static int fromreplay(const char *label, void *p, size_t n) {
    for (int i = 0; i < nent; i++) if (!ents[i].used && !strcmp(ents[i].label, label)) { ents[i].used = 1; memcpy(p, ents[i].b, n < ents[i].n ? n : ents[i].n); return 1; }
    return 0;
}
static int64_t pick(double lo, double hi) {
    int64_t l = (int64_t)lo, h = (int64_t)hi; uint64_t w = (uint64_t)(h - l) + 1;
    switch (rnd() % 6) {
        case 0: return l + (int64_t)(rnd() % (w < 3 ? w : 3));
        case 1: return h - (int64_t)(rnd() % (w < 3 ? w : 3));
        case 2: { int b = rnd() % 63; uint64_t v = (1ull << b); v += (rnd() % 3) - 1; return w ? l + (int64_t)(v % w) : (int64_t)v; }
        case 3: return w ? l + (int64_t)(rnd() % (w < 64 ? w : 64)) : (int64_t)rnd();
        default: return w ? l + (int64_t)(rnd() % w) : (int64_t)rnd();
    }
}
void vp_draw(const char *label, void *p, size_t n, int kind, double lo, double hi, int ranged) {
    if (replay) { memset(p, 0, n); fromreplay(label, p, n); return; }
    if (kind == 3 || (kind <= 1 && !ranged)) {
        if (kind == 3 || n > 8) { for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = rnd(); return; }
        uint64_t v; switch (rnd() % 5) { case 0: v = rnd() % 5; break; case 1: v = (uint64_t)-(int64_t)(rnd() % 5); break; case 2: v = (1ull << (rnd() % 64)) + (rnd() % 3) - 1; break; case 3: v = rnd() % 1024; break; default: v = rnd(); }
        memcpy(p, &v, n); return;
    }
    if (kind <= 1) { int64_t v = pick(lo, hi); memcpy(p, &v, n); return; }
    double d; static const double sp[] = {0, -0.0, 1, -1, 0.5, 90, 180, 270, 360, -90, -180, -360, 179.999, 359.9999, 720, 1e-7, 1e7, 45};
    if (ranged) {
        switch (rnd() % 6) { case 0: d = lo; break; case 1: d = hi; break; case 2: d = sp[rnd() % (sizeof(sp) / sizeof(*sp))]; if (d < lo || d > hi) d = lo; break;
            case 3: d = floor(lo + (hi - lo) * (rnd() >> 11) / 9007199254740992.0); if (d < lo) d = lo; break;
            default: d = lo + (hi - lo) * ((rnd() >> 11) / 9007199254740992.0); }
    } else {
        switch (rnd() % 5) { case 0: d = sp[rnd() % (sizeof(sp) / sizeof(*sp))]; break; case 1: { uint32_t u = rnd(); float f; memcpy(&f, &u, 4); d = f; break; } case 2: d = ((rnd() >> 11) / 9007199254740992.0 - 0.5) * 1440; break; default: d = ((rnd() >> 11) / 9007199254740992.0 - 0.5) * 1000; }
    }
    if (n == 4) { float f = d; memcpy(p, &f, 4); } else memcpy(p, &d, 8);
}
void vp_fill(const char *label, void *p, size_t n) {
    if (replay) { memset(p, 0, n); fromreplay(label, p, n); return; }
    unsigned char *c = p; int mode = rnd() % 4;
    for (size_t i = 0; i < n; i++) c[i] = mode == 0 ? rnd() : mode == 1 ? (rnd() & 7) : mode == 2 ? 0 : 32 + rnd() % 95;
}
void vp_assume(int c) { if (!c) { if (replay) { printf("VP-ASSUME-FALSE\n"); fflush(stdout); _exit(77); } longjmp(vp_jmp, 1); } }
static volatile uint64_t *ctr;
void vp_assert(int c, const char *msg) { if (!c) { printf("VP-FAIL %s\n", msg); if (ctr) printf("VP-ITER %llu\n", (unsigned long long)ctr[0]); fflush(stdout); _exit(42); } }
void vp_reach(const char *msg) { hitReach = 1; }
int main(int argc, char **argv) {
    vp_init();
    /* usage: replay FILE | fuzz SEED FIRST COUNT SECS CTRFILE */
    if (argc > 2 && !strcmp(argv[1], "replay")) {
        replay = 1; load(argv[2]);
        if (setjmp(vp_jmp)) return 77;
        VP_ENTRY(); printf("VP-PASS\n"); return 0;
    }
    uint64_t sd = strtoull(argv[2], 0, 0), first = strtoull(argv[3], 0, 0), count = strtoull(argv[4], 0, 0); double secs = atof(argv[5]);
    if (argc > 6) { int fd = open(argv[6], O_RDWR | O_CREAT, 0644); if (ftruncate(fd, 64)) return 3; ctr = mmap(0, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); }
    static volatile uint64_t done, ok, k; struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    for (k = first; k < first + count; k++) {
        if (ctr) ctr[0] = k;
        seed(sd, k); hitReach = 0;
        if (!setjmp(vp_jmp)) { VP_ENTRY(); done++; ok += hitReach; }
        if ((k & 15) == 0) { clock_gettime(CLOCK_MONOTONIC, &t1); if ((t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec) > secs) break; }
    }
    printf("VP-DONE %llu %llu\n", (unsigned long long)done, (unsigned long long)ok); fflush(stdout);
    _exit(0);
}
