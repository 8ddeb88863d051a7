#define PART c
#include "c02_update.cc"
