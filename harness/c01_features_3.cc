#define PART 3
#include "c01_features.cc"
