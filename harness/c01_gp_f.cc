#define PART f
#include "c01_gp.cc"
