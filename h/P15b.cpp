#include "sortcase.h"
PBT_SUB(struct64, 2500, 25000, 30, F_NONE) { sc::sort_case<vt::Big>(g, g.thorough ? 200000 : 40000); }
