// the second source file of the generated program (see h_proc.cpp)
#define UNIT unit_b
#include "vp_proc_tu.h"
FNLog::Logger named_logger;
