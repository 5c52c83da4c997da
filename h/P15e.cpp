#include "sortcase.h"
PBT_SUB(move_only, 1200, 12000, 30, F_NONE) { sc::sort_case<vt::MoveOnly>(g, g.thorough ? 100000 : 25000); }
