#include "world_matrix.h"
IWorld* mk_w2(int t) { return new MatWorld<uint8_t, std::allocator<uint8_t>>(t); }
