// Included before everything else where the code is instrumented for C17: the templates of
// the standard library are then compiled here, and hence instrumented, too.
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
