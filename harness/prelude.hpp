// As /opt/vp/cmake/prelude.hpp, without gtest: the project's own Optional is used.
#pragma GCC system_header
#include <bits/stdc++.h>
#undef __has_include
