#define PART c
#include "c04_sparse.cc"
