#define PART b
#include "c03_gp.cc"
