#include "P16.h"
PBT_SUB(counting_small, 1000, 10000, 30, F_NONE) { is::counting_case<vt::Small>(g); }
PBT_SUB(counting_big, 500, 5000, 30, F_NONE) { is::counting_case<vt::Big>(g); }
PBT_SUB(counting_strings, 500, 5000, 30, F_NONE) { is::counting_case<std::string>(g); }
