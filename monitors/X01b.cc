// X01 without the solver libraries (these leak at exit): leaks are looked for
#define WF_DENSE
#include "X01.h"
