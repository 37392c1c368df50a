#include <stdio.h>
#include <stdarg.h>
int RKLog(const char *f, ...) { return 0; }
int RKSimpleEngineLog(const char *f, ...) { return 0; }
