#define C04_QR albatross::SPQRImplementation
#define PART d
#include "c04_sparse.cc"
