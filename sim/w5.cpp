#include "world_matrix.h"
IWorld* mk_w5(int t) { return new MatWorld<float, std::allocator<float>>(t); }
