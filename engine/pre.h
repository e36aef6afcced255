// Force-included in every instrumented translation unit: library templates are
// instantiated (and therefore instrumented) in the unit instead of being taken
// from the prebuilt library.
#pragma once
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
