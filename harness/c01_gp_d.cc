#define PART d
#include "c01_gp.cc"
