// forced before everything else when harnesses are translated: libstdc++'s class templates are instantiated here rather than
// taken from the shared library, so that their code is part of the IR that is executed. Only basic_ios and the locale
// facets stay outside: their construction is modelled.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#include <streambuf>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 1
#include <ios>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
