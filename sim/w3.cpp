#include "world_matrix.h"
IWorld* mk_w3(int t) { return new MatWorld<std::complex<double>, std::allocator<std::complex<double>>>(t); }
