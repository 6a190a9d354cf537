// Forced into every translation unit: instantiate library templates instead of expecting libstdc++.so to hold them.
#pragma once
#ifdef __cplusplus
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
