#define VH_NS mc_level4
#define VH_LEVEL LoggingLevel::FATAL
#define VH_INDEX 4
#include "c28_level.inc"
