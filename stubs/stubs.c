/* Contracts assumed for functions outside the verified code (trusted).
 * Logging has no effect on the program state. */
#include <stddef.h>
#include <stdarg.h>
int RKLog(const char *f, ...) { return 0; }
int RKExit(int c) { __CPROVER_assume(0); return 0; }
char *RKIntegerToCommaStyleString(const long n) { static char s[32]; return s; }
