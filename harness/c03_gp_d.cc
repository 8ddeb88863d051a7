#define PART d
#include "c03_gp.cc"
