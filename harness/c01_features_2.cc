#define PART 2
#include "c01_features.cc"
