#include "world_matrix.h"
IWorld* mk_w0(int t) { return new MatWorld<double, std::allocator<double>>(t); }
