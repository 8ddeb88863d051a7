#define PART c
#include "c01_gp.cc"
