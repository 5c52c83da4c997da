#include "sortcase.h"
PBT_SUB(int64, 2500, 25000, 30, F_NONE) { sc::sort_case<int64_t>(g, g.thorough ? 300000 : 60000); }
PBT_SUB(pair8, 2500, 25000, 30, F_NONE) { sc::sort_case<vt::Small>(g, g.thorough ? 300000 : 60000); }
