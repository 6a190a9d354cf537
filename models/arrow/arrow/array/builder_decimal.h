#include "arrow/vp_arrow.h"
