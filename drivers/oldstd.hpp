// Force-included: the library's own versions of the metafunctions that came with C++17
// are used in place of the standard ones.
#include <bits/stdc++.h>
#undef __cplusplus
#define __cplusplus 201402L
#include <libcommute/metafunctions.hpp>
#undef __cplusplus
#define __cplusplus 201703L
