// rt.cpp instantiates the stream templates itself: switch the extern declarations off
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
