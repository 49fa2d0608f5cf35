#include "hwy/ops/set_macros-inl.h"
