/* Semantic model of the Intel intrinsics RadarKit uses (trusted): a vector is
 * an array of floats and every operation is the scalar one on each lane. */
#ifndef VP_X86
#define VP_X86
#include <math.h>
typedef float __m256 __attribute__((vector_size(32)));
typedef float __m128 __attribute__((vector_size(16)));
#define _MM_SHUFFLE(z, y, x, w) (((z) << 6) | ((y) << 4) | ((x) << 2) | (w))
static inline __m256 _mm256_set1_ps(float a) { __m256 r; for (int i = 0; i < 8; i++) r[i] = a; return r; }
static inline __m256 _mm256_load_ps(const float *a) { __m256 r; for (int i = 0; i < 8; i++) r[i] = a[i]; return r; }
#define VPOP(n, e) static inline __m256 n(__m256 a, __m256 b) { __m256 r; for (int i = 0; i < 8; i++) r[i] = e; return r; }
VPOP(_mm256_add_ps, a[i] + b[i])
VPOP(_mm256_sub_ps, a[i] - b[i])
VPOP(_mm256_mul_ps, a[i] * b[i])
VPOP(_mm256_div_ps, a[i] / b[i])
VPOP(_mm256_min_ps, (a[i] < b[i] ? a[i] : b[i]))
VPOP(_mm256_max_ps, (a[i] > b[i] ? a[i] : b[i]))
static inline __m256 _mm256_shuffle_ps(__m256 a, __m256 b, int s) {
    __m256 r;
    for (int h = 0; h < 8; h += 4) { r[h] = a[h + (s & 3)]; r[h + 1] = a[h + ((s >> 2) & 3)]; r[h + 2] = b[h + ((s >> 4) & 3)]; r[h + 3] = b[h + ((s >> 6) & 3)]; }
    return r;
}
static inline __m256 _mm256_movehdup_ps(__m256 a) { __m256 r; for (int i = 0; i < 8; i++) r[i] = a[i | 1]; return r; }
static inline __m256 _mm256_moveldup_ps(__m256 a) { __m256 r; for (int i = 0; i < 8; i++) r[i] = a[i & ~1]; return r; }
static inline __m256 _mm256_fmadd_ps(__m256 a, __m256 b, __m256 c) { __m256 r; for (int i = 0; i < 8; i++) r[i] = a[i] * b[i] + c[i]; return r; }
static inline __m256 _mm256_fmaddsub_ps(__m256 a, __m256 b, __m256 c) { __m256 r; for (int i = 0; i < 8; i++) r[i] = (i & 1) ? a[i] * b[i] + c[i] : a[i] * b[i] - c[i]; return r; }
static inline __m256 _mm256_fmsubadd_ps(__m256 a, __m256 b, __m256 c) { __m256 r; for (int i = 0; i < 8; i++) r[i] = (i & 1) ? a[i] * b[i] - c[i] : a[i] * b[i] + c[i]; return r; }
static inline __m256 _mm256_sqrt_ps(__m256 a) { __m256 r; for (int i = 0; i < 8; i++) r[i] = sqrtf(a[i]); return r; }
static inline __m256 _mm256_rcp_ps(__m256 a) { __m256 r; for (int i = 0; i < 8; i++) r[i] = 1.0f / a[i]; return r; }
#endif
