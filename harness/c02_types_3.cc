#define PART 3
#include "c02_types.cc"
