#define VF_C06_PART 6
#include "c06_algebra.cc"
