#define PART f
#include "c02_update.cc"
