#define PART e
#include "c03_gp.cc"
