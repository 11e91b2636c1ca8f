#define VH_NS mc_level5
#define VH_LEVEL 10
#define VH_INDEX 5
#include "c28_level.inc"
