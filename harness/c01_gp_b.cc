#define PART b
#include "c01_gp.cc"
