#define VF_C06_PART 4
#include "c06_algebra.cc"
