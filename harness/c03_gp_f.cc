#define PART f
#include "c03_gp.cc"
