#define PART c
#include "c03_gp.cc"
