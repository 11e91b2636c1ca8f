#define VH_NS mc_level3
#define VH_LEVEL LoggingLevel::ERROR
#define VH_INDEX 3
#include "c28_level.inc"
