#include "vp_fmt.h"
