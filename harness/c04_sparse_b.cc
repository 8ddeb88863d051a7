#define C04_QR albatross::SPQRImplementation
#define PART b
#include "c04_sparse.cc"
