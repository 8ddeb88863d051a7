#define PART e
#include "c04_sparse.cc"
