#include "world_matrix.h"
IWorld* mk_w4(int t) { return new MatWorld<double, susa::allocator_log<double>>(t); }
