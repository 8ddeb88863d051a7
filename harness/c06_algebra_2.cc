#define VF_C06_PART 2
#include "c06_algebra.cc"
