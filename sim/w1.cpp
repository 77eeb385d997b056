#include "world_matrix.h"
IWorld* mk_w1(int t) { return new MatWorld<int, susa::allocator_log<int>>(t); }
