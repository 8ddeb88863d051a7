#define PART d
#include "c02_update.cc"
