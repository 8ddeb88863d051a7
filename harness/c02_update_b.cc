#define PART b
#include "c02_update.cc"
