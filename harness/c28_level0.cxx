#define VH_NS mc_level0
#define VH_LEVEL LoggingLevel::DEBUG
#define VH_INDEX 0
#include "c28_level.inc"
