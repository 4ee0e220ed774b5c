// force-included in the symbolic build: no precompiled library templates, so that all code is in the bitcode
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
