#define VF_C06_PART 1
#include "c06_algebra.cc"
