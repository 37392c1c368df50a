/* Harness interface shared by the deductive (CBMC) run and the native run of
 * one and the same harness.
 *   VP_IN(type, name)            an arbitrary value of the type
 *   VP_IN_RANGE(type,name,lo,hi) an arbitrary value in [lo,hi]
 *   VP_FILL(ptr, n)              n arbitrary bytes at ptr
 *   VP_ASSUME / VP_ASSERT        precondition / obligation
 *   VP_REACH(name)               vacuity guard: must be reachable
 * Under CBMC the values are unconstrained symbols; natively they come from a
 * replay file made from the verifier's counterexample or from a seeded
 * generator, and the code called is the compiled code of /repo. */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#ifdef __CPROVER__
#define VP_CBMC 1
void *malloc(__CPROVER_size_t);
#define VP_STR_(x) #x
#define VP_IN(type, name) type name; __CPROVER_input(VP_STR_(name), name)
#define VP_IN_RANGE(type, name, lo, hi) type name; __CPROVER_assume(name >= (lo) && name <= (hi)); __CPROVER_input(VP_STR_(name), name)
#define VP_DRAW(var, label) if (1) { __typeof__(var) vp_n; var = vp_n; __CPROVER_input(label, var); } else (void)0
#define VP_DRAW_RANGE(var, label, lo, hi) if (1) { __typeof__(var) vp_n; var = vp_n; __CPROVER_assume((var) >= (lo) && (var) <= (hi)); __CPROVER_input(label, var); } else (void)0
#define VP_FILL(arr) if (1) { __CPROVER_havoc_object((void *)(arr)); } else (void)0
#define VP_ASSUME(c) __CPROVER_assume(c)
#define VP_ASSERT(c, msg) if (1) { _Bool vp_c = (c); __CPROVER_assert(vp_c, "OBL " msg); __CPROVER_assume(vp_c); } else (void)0
/* proof-script obligation: where it fails the proof is lost, the property need not be broken */
#define VP_AUX(c, msg) if (1) { _Bool vp_c = (c); __CPROVER_assert(vp_c, "AUX " msg); __CPROVER_assume(vp_c); } else (void)0
#define VP_REACH(msg) __CPROVER_assert(0, "VPREACH " msg)
#define VP_SILENT
#else
#define VP_NATIVE 1
#ifdef __cplusplus
extern "C" {
#endif
void vp_draw(const char *label, void *p, size_t n, int kind, double lo, double hi, int ranged);
void vp_fill(const char *label, void *p, size_t n);
void vp_assume(int c);
void vp_assert(int c, const char *msg);
void vp_reach(const char *msg);
#ifdef __cplusplus
}
#endif
/* kind: 0 signed int, 1 unsigned int, 2 float, 3 bytes */
#define VP_KIND(x) _Generic((x), float: 2, double: 2, \
    char: 0, signed char: 0, short: 0, int: 0, long: 0, long long: 0, \
    unsigned char: 1, unsigned short: 1, unsigned int: 1, unsigned long: 1, unsigned long long: 1, _Bool: 1, default: 3)
#define VP_STR_(x) #x
#define VP_IN(type, name) type name; vp_draw(VP_STR_(name), &name, sizeof(name), VP_KIND(name), 0, 0, 0)
#define VP_IN_RANGE(type, name, lo, hi) type name; vp_draw(VP_STR_(name), &name, sizeof(name), VP_KIND(name), (double)(lo), (double)(hi), 1); vp_assume(name >= (lo) && name <= (hi))
#define VP_DRAW(var, label) vp_draw(label, &(var), sizeof(var), VP_KIND(var), 0, 0, 0)
#define VP_DRAW_RANGE(var, label, lo, hi) if (1) { vp_draw(label, &(var), sizeof(var), VP_KIND(var), (double)(lo), (double)(hi), 1); vp_assume((var) >= (lo) && (var) <= (hi)); } else (void)0
#define VP_FILL(arr) vp_fill(VP_STR_(arr), (void *)(arr), sizeof(arr))
#define VP_ASSUME(c) vp_assume(!!(c))
#define VP_ASSERT(c, msg) vp_assert(!!(c), msg)
#define VP_AUX(c, msg) (void)0
#define VP_REACH(msg) vp_reach(msg)
/* no log output from a harness that contains the real logger */
#define VP_SILENT void vp_init(void) { rkGlobalParameters.stream = NULL; rkGlobalParameters.logfile[0] = 0; }
#endif
/* loop and function contracts written in /repo behind the guard */
#endif
