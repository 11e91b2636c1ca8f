#define VH_NS mc_level2
#define VH_LEVEL LoggingLevel::WARN
#define VH_INDEX 2
#include "c28_level.inc"
