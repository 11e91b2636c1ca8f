#define VH_NS mc_level1
#define VH_LEVEL LoggingLevel::INFO
#define VH_INDEX 1
#include "c28_level.inc"
