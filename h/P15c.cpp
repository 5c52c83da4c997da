#include "sortcase.h"
PBT_SUB(strings, 1200, 12000, 30, F_NONE) { sc::sort_case<std::string>(g, g.thorough ? 100000 : 25000); }
