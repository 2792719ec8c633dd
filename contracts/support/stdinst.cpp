// explicit instantiations of libstdc++ templates whose code otherwise lives in libstdc++.so
#define _GLIBCXX_EXTERN_TEMPLATE_OFF
#include <string>
#include <vector>
#include <algorithm>
template class std::basic_string<char>;
