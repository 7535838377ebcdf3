// Shared pieces of the trace recording drivers: JSON output, exact conversion
// of scalars, script reading.
#ifndef VERIF_COMMON_HPP_
#define VERIF_COMMON_HPP_

#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#ifdef WITH_BOOST_RATIONAL
#include <boost/rational.hpp>
#endif
#ifdef WITH_GMP
#include <gmpxx.h>
#endif

using i64 = long long;

// TLC integers are 32 bits wide. Values beyond this limit are logged as invalid
// coefficients, which no specification accepts.
static constexpr i64 INT_LIM = (i64(1) << 30);

// A Gaussian rational (re + i*im)/den, den = 0 means "cannot be represented"
struct cq {
  i64 re = 0, im = 0, den = 1;
};

inline cq bad() { return {0, 0, 0}; }

inline i64 gcd_(i64 a, i64 b) {
  a = a < 0 ? -a : a;
  b = b < 0 ? -b : b;
  while(b) {
    i64 t = a % b;
    a = b;
    b = t;
  }
  return a;
}

inline cq mk(i64 re, i64 im, i64 den) {
  if(den < 0) {
    re = -re;
    im = -im;
    den = -den;
  }
  if(den == 0) return bad();
  i64 g = gcd_(gcd_(re, im), den);
  if(g > 1) {
    re /= g;
    im /= g;
    den /= g;
  }
  if(re > INT_LIM || re < -INT_LIM || im > INT_LIM || im < -INT_LIM ||
     den > INT_LIM)
    return bad();
  return {re, im, den};
}

// Exact conversion of a floating point number to a dyadic rational
template <typename T> inline bool dyadic(T x, i64& num, i64& den) {
  if(!std::isfinite(x)) return false;
  if(x == 0) {
    num = 0;
    den = 1;
    return true;
  }
  for(int q = 0; q <= 30; ++q) {
    T y = std::ldexp(x, q);
    if(std::abs(y) > T(INT_LIM)) return false;
    if(y == std::floor(y)) {
      num = i64(y);
      den = i64(1) << q;
      return true;
    }
  }
  return false;
}

template <typename T, typename = void> struct to_cq;
template <typename T>
struct to_cq<T, typename std::enable_if<std::is_integral<T>::value>::type> {
  static cq conv(T x) { return mk(i64(x), 0, 1); }
};
template <typename T>
struct to_cq<T,
             typename std::enable_if<std::is_floating_point<T>::value>::type> {
  static cq conv(T x) {
    i64 n = 0, d = 1;
    if(!dyadic(x, n, d)) return bad();
    return mk(n, 0, d);
  }
};
template <typename T> struct to_cq<std::complex<T>, void> {
  static cq conv(std::complex<T> const& z) {
    i64 n1 = 0, d1 = 1, n2 = 0, d2 = 1;
    if(!dyadic(z.real(), n1, d1) || !dyadic(z.imag(), n2, d2)) return bad();
    i64 d = std::max(d1, d2);
    return mk(n1 * (d / d1), n2 * (d / d2), d);
  }
};
#ifdef WITH_BOOST_RATIONAL
template <typename I> struct to_cq<boost::rational<I>, void> {
  static cq conv(boost::rational<I> const& r) {
    return mk(i64(r.numerator()), 0, i64(r.denominator()));
  }
};
#endif
#ifdef WITH_GMP
template <> struct to_cq<mpz_class, void> {
  static cq conv(mpz_class const& x) {
    if(!x.fits_slong_p()) return bad();
    return mk(x.get_si(), 0, 1);
  }
};
template <> struct to_cq<mpq_class, void> {
  static cq conv(mpq_class const& y) {
    // comparisons need canonical numbers
    mpq_class x(y);
    x.canonicalize();
    if(x.get_num() != y.get_num() || x.get_den() != y.get_den()) return bad();
    if(!x.get_num().fits_slong_p() || !x.get_den().fits_slong_p()) return bad();
    return mk(x.get_num().get_si(), 0, x.get_den().get_si());
  }
};
template <> struct to_cq<mpf_class, void> {
  static cq conv(mpf_class const& x) {
    mpq_class q(x);
    return to_cq<mpq_class>::conv(q);
  }
};
#endif

// A user-defined scalar type: integers modulo M, a ring with zero divisors and
// without compound assignments
template <int M> struct zmod {
  int v = 0;
  zmod() = default;
  explicit zmod(int x) : v(((x % M) + M) % M) {}
  friend zmod operator+(zmod a, zmod b) { return zmod(a.v + b.v); }
  friend zmod operator-(zmod a, zmod b) { return zmod(a.v - b.v); }
  friend zmod operator*(zmod a, zmod b) { return zmod(a.v * b.v); }
  friend zmod operator-(zmod a) { return zmod(-a.v); }
  friend bool operator==(zmod a, zmod b) { return a.v == b.v; }
  friend bool operator!=(zmod a, zmod b) { return a.v != b.v; }
  friend std::ostream& operator<<(std::ostream& os, zmod a) {
    return os << a.v;
  }
};
template <int M> struct to_cq<zmod<M>, void> {
  static cq conv(zmod<M> x) { return mk(x.v, 0, 1); }
};

template <typename T> inline cq conv(T const& x) { return to_cq<T>::conv(x); }

// Make a scalar from a Gaussian rational
template <typename T, typename = void> struct from_cq;
template <typename T>
struct from_cq<T, typename std::enable_if<std::is_integral<T>::value>::type> {
  static T make(cq c) { return T(c.re / c.den); }
};
template <typename T>
struct from_cq<T,
               typename std::enable_if<std::is_floating_point<T>::value>::type> {
  static T make(cq c) { return T(c.re) / T(c.den); }
};
template <typename T> struct from_cq<std::complex<T>, void> {
  static std::complex<T> make(cq c) {
    return {T(c.re) / T(c.den), T(c.im) / T(c.den)};
  }
};
template <int M> struct from_cq<zmod<M>, void> {
  static zmod<M> make(cq c) { return zmod<M>(int(c.re / c.den)); }
};
#ifdef WITH_BOOST_RATIONAL
template <typename I> struct from_cq<boost::rational<I>, void> {
  static boost::rational<I> make(cq c) { return {I(c.re), I(c.den)}; }
};
#endif
#ifdef WITH_GMP
template <> struct from_cq<mpz_class, void> {
  static mpz_class make(cq c) { return mpz_class(long(c.re / c.den)); }
};
template <> struct from_cq<mpq_class, void> {
  static mpq_class make(cq c) {
    mpq_class q(long(c.re), long(c.den));
    q.canonicalize();
    return q;
  }
};
template <> struct from_cq<mpf_class, void> {
  static mpf_class make(cq c) {
    return mpf_class(double(c.re) / double(c.den));
  }
};
#endif

inline std::string js(cq const& c) {
  return "[" + std::to_string(c.re) + "," + std::to_string(c.im) + "," +
         std::to_string(c.den) + "]";
}

template <typename V> inline std::string jvec(V const& v) {
  std::string s = "[";
  bool first = true;
  for(auto const& x : v) {
    if(!first) s += ",";
    first = false;
    s += std::to_string(x);
  }
  return s + "]";
}
inline std::string jstrs(std::vector<std::string> const& v) {
  std::string s = "[";
  for(std::size_t i = 0; i < v.size(); ++i)
    s += (i ? "," : "") + v[i];
  return s + "]";
}

// Saturating output of wide integers
inline i64 clampi(i64 x) {
  return x > INT_LIM ? INT_LIM + 7 : (x < -INT_LIM ? -INT_LIM - 7 : x);
}
inline std::string jnum(std::uint64_t x) {
  return std::to_string(x > std::uint64_t(INT_LIM) ? std::uint64_t(INT_LIM) + 7
                                                   : x);
}
// A 64 bit natural number as a sequence of limbs of 15 bits, lowest first, with
// no leading zeros
inline std::string jwide(std::uint64_t x) {
  std::string s = "[";
  bool first = true;
  while(x) {
    if(!first) s += ",";
    first = false;
    s += std::to_string(x & 0x7fff);
    x >>= 15;
  }
  return s + "]";
}
// Set of bit positions
inline std::string jbits(std::uint64_t x) {
  std::string s = "[";
  bool first = true;
  for(int b = 0; b < 64; ++b) {
    if((x >> b) & 1) {
      if(!first) s += ",";
      first = false;
      s += std::to_string(b);
    }
  }
  return s + "]";
}

// Script: lines of tokens
struct script {
  std::istream& in;
  std::vector<std::string> tok;
  std::size_t pos = 0;
  explicit script(std::istream& in_) : in(in_) {}
  bool next() {
    std::string line;
    while(std::getline(in, line)) {
      std::istringstream ss(line);
      tok.clear();
      pos = 0;
      std::string t;
      while(ss >> t)
        tok.push_back(t);
      if(!tok.empty()) return true;
    }
    return false;
  }
  bool more() const { return pos < tok.size(); }
  std::string const& str() {
    if(pos >= tok.size()) {
      std::cerr << "script error: token expected\n";
      std::exit(3);
    }
    return tok[pos++];
  }
  i64 num() { return std::stoll(str()); }
  std::uint64_t unum() { return std::stoull(str()); }
  // coefficient "re,im,den"
  cq coef() {
    std::string const& s = str();
    cq c;
    if(std::sscanf(s.c_str(), "%lld,%lld,%lld", &c.re, &c.im, &c.den) != 3) {
      std::cerr << "script error: bad coefficient " << s << "\n";
      std::exit(3);
    }
    return c;
  }
};

// Trace output: one line per event, flushed, so that a crash leaves the events
// which preceded it
inline void emit(std::string const& line) {
  std::fputs(line.c_str(), stdout);
  std::fputc('\n', stdout);
  std::fflush(stdout);
}

#endif
