#define PART e
#include "c02_update.cc"
