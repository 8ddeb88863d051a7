#define PART 2
#include "c02_types.cc"
