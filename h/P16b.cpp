#include "P16.h"
PBT_SUB(struct64_u32, 700, 7000, 30, F_NONE) { is::key_case<vt::Big, uint32_t>(g, 32); }
PBT_SUB(move_only_u16, 500, 5000, 30, F_NONE) { is::key_case<vt::MoveOnly, unsigned short>(g, 16); }
