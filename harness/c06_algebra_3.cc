#define VF_C06_PART 3
#include "c06_algebra.cc"
