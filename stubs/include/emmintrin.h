#include "x86intrin.h"
