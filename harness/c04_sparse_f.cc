#define C04_QR albatross::SPQRImplementation
#define PART f
#include "c04_sparse.cc"
