#define VF_C06_PART 7
#include "c06_algebra.cc"
