#include "world_bitset.h"
IWorld* mk_w20(int t) { return new BitWorld(t); }
