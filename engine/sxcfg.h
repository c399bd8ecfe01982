// forced include of the instrumented build: string templates are instantiated (and so
// instrumented) in our objects instead of being taken from libstdc++.so
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
