#define PART e
#include "c01_gp.cc"
