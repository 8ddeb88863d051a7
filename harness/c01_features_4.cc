#define PART 4
#include "c01_features.cc"
