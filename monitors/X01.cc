// X01 with the solver libraries
#include "X01.h"
