// Force-included: everything the drivers need from elsewhere first, then the library is
// made to believe that the compiler has no built-in bit operations.
#include <bits/stdc++.h>
#ifdef __BMI2__
#include <immintrin.h>
#endif
#if __has_include(<Eigen/Core>)
#include <Eigen/Core>
#include <Eigen/SparseCore>
#endif
#undef __GNUC__
#undef __clang__
#undef __BMI2__
