#define VF_C06_PART 5
#include "c06_algebra.cc"
