#include "world_array.h"
IWorld* mk_w10(int t) { return new ArrWorld<double, std::allocator<double>>(t); }
