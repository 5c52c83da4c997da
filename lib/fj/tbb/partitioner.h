#include "../fj.h"
