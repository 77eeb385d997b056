#include "world_array.h"
IWorld* mk_w11(int t) { return new ArrWorld<int, susa::allocator_log<int>>(t); }
