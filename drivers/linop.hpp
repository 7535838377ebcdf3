// Hilbert space, basis states as occupation numbers, amplitudes in the
// unnormalised basis of spec/LinOp.tla, operators made from expressions.
#ifndef VERIF_LINOP_HPP_
#define VERIF_LINOP_HPP_

#ifdef EIGEN
// functions for Eigen's types have to be declared before operators are
#include <libcommute/loperator/state_vector_eigen3.hpp>
#endif
#include "hilbert.hpp"
#ifdef WITH_BOOST_RATIONAL
#include <libcommute/scalars/boost_rational.hpp>
#endif

#ifndef CFG
#define CFG idx_cfg<int>
#endif
#ifndef SCALAR
#define SCALAR double
#endif
#ifndef ELEMENT
#define ELEMENT SCALAR
#endif

using cfg = CFG;
using S = SCALAR;   // of operators
using V = ELEMENT;  // of state vectors
using hspace = spaces_of<cfg>::hspace;
using base = spaces_of<cfg>::base;
using gen_t = cfg::gen_t;
using expr_t = cfg::expr_t<S>;
using libcommute::sv_index_type;
using digits_t = std::vector<i64>;

inline universe<cfg>& uni() {
  static universe<cfg> u;
  return u;
}
inline es_universe<cfg>& eu() {
  static es_universe<cfg> u;
  return u;
}

// Actions of the generators of the user-defined algebra 1: state -> state, factor
struct uact_t {
  int to;
  i64 re, im;
};
inline std::map<int, std::vector<uact_t>>& uacts() {
  static std::map<int, std::vector<uact_t>> m;
  return m;
}

namespace libcommute {
template <> class monomial_action<1> {
  struct step {
    int lo;
    sv_index_type mask;
    std::vector<uact_t> const* table;
  };
  std::vector<step> steps;

public:
  template <typename... IndexTypes>
  monomial_action(detail::monomial_range_t<IndexTypes...> const& range,
                  hilbert_space<IndexTypes...> const& h) {
    for(auto it = range.first; it != range.second; ++it) {
      bool ok = false;
      if(it->algebra_id() == 1)
        for(auto const& e : eu().es)
          if(!ok && e->algebra_id() == 1 && e->indices() == it->indices() && h.has(*e)) {
            auto br = h.bit_range(*e);
            int nb = br.second - br.first + 1;
            steps.push_back({br.first, (sv_index_type(1) << nb) - 1,
                             &uacts()[uni().id(*it)]});
            ok = true;
          }
      if(!ok) throw unknown_generator<IndexTypes...>(*it);
    }
  }
  template <typename T> bool act(sv_index_type& index, T& coeff) const {
    for(std::size_t k = steps.size(); k-- > 0;) {
      auto const& s = steps[k];
      sv_index_type n = (index >> s.lo) & s.mask;
      uact_t const& a = (*s.table)[n];
      if(a.re == 0 && a.im == 0) return false;
      coeff *= from_cq<T>::make(cq{a.re, a.im, 1});
      index = (index & ~(s.mask << s.lo)) | (sv_index_type(a.to) << s.lo);
    }
    return true;
  }
};
} // namespace libcommute

// The current space
struct layout_t {
  hspace hs;
  std::vector<int> order;      // elementary spaces as they are stored
  std::vector<int> given;      // position in `order` of the j-th space given
  std::vector<int> lo, nb, alg;
  std::vector<i64> dim;

  static int nbits(std::uint64_t d) {
    int n = 0;
    while(n < 64 && ((d - 1) >> n) != 0)
      ++n;
    return n;
  }
  void set(std::vector<int> const& l) {
    std::vector<std::shared_ptr<base>> v;
    hs = hspace();
    for(int k : l)
      hs.add(*eu().es.at(k - 1));
    order.clear();
    lo.clear();
    nb.clear();
    alg.clear();
    dim.clear();
    hs.foreach_elementary_space([&](base const& e) { order.push_back(eu().id(e)); });
    int b = 0;
    for(int k : order) {
      lo.push_back(b);
      auto d = k ? eu().es.at(k - 1)->dim() : 1;
      dim.push_back(i64(d));
      nb.push_back(nbits(d));
      alg.push_back(k ? eu().es.at(k - 1)->algebra_id() : 99);
      b += nb.back();
    }
    given.clear();
    for(int k : l)
      given.push_back(int(std::find(order.begin(), order.end(), k) - order.begin()));
  }
  int total() const { return lo.empty() ? 0 : lo.back() + nb.back(); }
  sv_index_type encode(digits_t const& d) const {
    sv_index_type i = 0;
    for(std::size_t q = 0; q < lo.size(); ++q)
      i |= sv_index_type(d[q]) << lo[q];
    return i;
  }
  digits_t decode(sv_index_type i) const {
    digits_t d;
    for(std::size_t q = 0; q < lo.size(); ++q)
      d.push_back(i64((i >> lo[q]) & ((sv_index_type(1) << nb[q]) - 1)));
    // excess bits give states that are not in the space
    if(!d.empty() && total() < 64 && (i >> total()) != 0) d.back() += dim.back();
    if(d.empty() && i != 0) d.push_back(i64(std::min<sv_index_type>(i, 1000)));
    return d;
  }
  bool physical(digits_t const& d) const {
    for(std::size_t q = 0; q < lo.size(); ++q)
      if(d[q] >= dim[q]) return false;
    return true;
  }
  // all physical states (small spaces)
  std::vector<digits_t> all() const {
    std::vector<digits_t> r;
    digits_t d(lo.size(), 0);
    while(true) {
      r.push_back(d);
      std::size_t q = 0;
      while(q < d.size() && ++d[q] == dim[q])
        d[q++] = 0;
      if(q == d.size()) break;
    }
    return r;
  }
  // norm of the state d relative to that of r
  long double norm(digits_t const& d, digits_t const& r) const {
    long double x = 1;
    for(std::size_t q = 0; q < lo.size() && q < d.size() && q < r.size(); ++q) {
      if(alg[q] != libcommute::boson && alg[q] != libcommute::spin) continue;
      i64 a = std::min(d[q], r[q]), b = std::max(d[q], r[q]);
      long double f = 1;
      for(i64 k = a + 1; k <= b; ++k)
        f *= std::sqrt((long double)(alg[q] == libcommute::boson ? k : k * (dim[q] - k)));
      x = d[q] > r[q] ? x * f : x / f;
    }
    return x;
  }
};
inline layout_t& lay() {
  static layout_t l;
  return l;
}

// An amplitude in the unnormalised basis
struct amp {
  digits_t d;
  cq c;
};
using state_t = std::vector<amp>;

template <typename T> struct is_exact : std::true_type {};
template <> struct is_exact<double> : std::false_type {};
template <> struct is_exact<float> : std::false_type {};
template <> struct is_exact<std::complex<double>> : std::false_type {};

inline double part(double x, int) { return x; }
inline double part(std::complex<double> const& z, int k) { return k ? z.imag() : z.real(); }

// Units: operators are multiplied by 2^scales().first and states by
// 2^scales().second when they are given to the library, what the library
// returns is divided by the same factors. The outcome is the same as without
// them, because floating point numbers are scaled exactly
inline std::pair<int, int>& scales() {
  static std::pair<int, int> s{0, 0};
  return s;
}
template <typename T> inline T scaled(T const& x, int k) {
  if constexpr(is_exact<T>::value)
    return x;
  else
    return k == 0 ? x : T(x * decltype(part(x, 0))(std::ldexp(1.0, k)));
}

template <typename V> inline V amplitude_(cq c, long double w) {
  if constexpr(is_exact<V>::value)
    return from_cq<V>::make(c);
  else if constexpr(std::is_same<V, std::complex<double>>::value)
    return {double(c.re * w / c.den), double(c.im * w / c.den)};
  else
    return V(c.re * w / c.den);
}
inline V amplitude(cq c, long double w) {
  return scaled(amplitude_<V>(c, w), scales().second);
}
// x / w as a rational number whose denominator divides 2^12; a real number is
// recognised if it is as close as rounding errors allow
template <typename V> inline cq recognise(V const& x, long double w) {
  if constexpr(is_exact<V>::value)
    return conv(x);
  else {
    i64 n[2] = {0, 0};
    for(int k = 0; k < 2; ++k) {
      if(k == 1 && !std::is_same<V, std::complex<double>>::value) break;
      long double y = (long double)(part(x, k)) / w * 4096.0L;
      long double r = std::nearbyint(y);
      if(!(std::abs(y - r) <= 1e-6L + 1e-11L * std::abs(y)) ||
         std::abs(r) > 4e18L)
        return bad();
      n[k] = i64(r);
    }
    return mk(n[0], n[1], 4096);
  }
}
inline bool is_exact_zero(V const& x) { return x == V(0); }

inline std::string jstate(state_t const& s) {
  std::vector<std::string> v;
  for(auto const& a : s)
    v.push_back("[" + jvec(a.d) + "," + js(a.c) + "]");
  return jstrs(v);
}
// Result of an action relative to the state `ref`. What is not zero but
// vanishes within rounding errors is left out
struct collector {
  digits_t const& ref;
  state_t out;
  void operator()(sv_index_type i, V const& x) {
    digits_t d = lay().decode(i);
    cq c = recognise(scaled(x, -scales().first - scales().second), lay().norm(d, ref));
    if(c.den == 1 && c.re == 0 && c.im == 0 && !is_exact_zero(x)) return;
    out.push_back({d, c});
  }
};

using libcommute::boson;
using libcommute::fermion;
using libcommute::spin;

// Sum of products of generators; in products generators are multiplied one by
// one, so that the expression is in the form the library gives to it
template <typename T> inline cfg::expr_t<T> product(T c, std::vector<int> const& w) {
  cfg::expr_t<T> e(c);
  for(int g : w) {
    cfg::expr_t<T> x(libcommute::scalar_traits<T>::make_const(1), uni().mono({g}));
    e *= x;
  }
  return e;
}
struct term_t {
  cq c;
  std::vector<int> w;
};
// "+ c g g g + c g g ..."
inline std::vector<term_t> read_terms(script& sc) {
  std::vector<term_t> r;
  while(sc.more()) {
    if(sc.tok[sc.pos] == ";") break;
    std::string t = sc.str();
    if(t == "+") {
      r.push_back({sc.coef(), {}});
    } else
      r.back().w.push_back(std::stoi(t));
  }
  return r;
}
template <typename T> inline cfg::expr_t<T> make_expr(std::vector<term_t> const& ts) {
  cfg::expr_t<T> e;
  for(auto const& t : ts)
    e += product<T>(scaled(from_cq<T>::make(t.c), scales().first), t.w);
  return e;
}
template <typename E> inline std::string jop(E const& e) {
  return uni().jexpr(e, [](typename E::scalar_type const& c) { return scaled(c, -scales().first); });
}

// Superposition: tokens "c:d.d.d" up to ";" or the end, occupation numbers in
// the order of the spaces given by "hs"
inline state_t read_state(script& sc) {
  state_t r;
  while(sc.more()) {
    std::string t = sc.str();
    if(t == ";") break;
    amp a;
    std::size_t c = t.find(':');
    if(std::sscanf(t.c_str(), "%lld,%lld,%lld", &a.c.re, &a.c.im, &a.c.den) != 3 ||
       c == std::string::npos) {
      std::cerr << "script error: bad state " << t << "\n";
      std::exit(3);
    }
    a.c = mk(a.c.re, a.c.im, a.c.den);
    std::istringstream ss(t.substr(c + 1));
    std::string x;
    a.d.assign(lay().order.size(), 0);
    std::size_t j = 0;
    while(std::getline(ss, x, '.'))
      a.d.at(lay().given.at(j++)) = std::stoll(x);
    r.push_back(a);
  }
  return r;
}

// Lines common to all drivers: declarations, header
struct session {
  bool header = false;
  std::string kind = "linop", more;
  void put_header() {
    if(header) return;
    header = true;
    std::vector<std::string> a;
    for(std::size_t g = 1; g <= uni().gens.size(); ++g) {
      std::vector<std::string> t;
      for(auto const& x : uacts()[int(g)])
        t.push_back("[" + std::to_string(x.to) + "," + std::to_string(x.re) + "," +
                    std::to_string(x.im) + "]");
      a.push_back(jstrs(t));
    }
    emit("{\"e\":\"" + kind + "\",\"es\":" + eu().header() + ",\"gens\":" + uni().header() +
         ",\"acts\":" + jstrs(a) + more + "}");
  }
  // handles declarations and "hs"
  bool common(script& sc, std::string const& op) {
    if(op == "es") {
      eu().read(sc);
    } else if(op == "gen") {
      uni().read(sc);
    } else if(op == "rule") {
      uni().read_rule(sc);
    } else if(op == "scale") {
      // scale k l: from the next operators and states on
      scales().first = int(sc.num());
      scales().second = int(sc.num());
    } else if(op == "uact") {
      int g = int(sc.num());
      while(sc.more()) {
        uact_t a;
        a.to = int(sc.num());
        a.re = sc.num();
        a.im = sc.num();
        uacts()[g].push_back(a);
      }
    } else if(op == "hs") {
      put_header();
      std::vector<int> l;
      while(sc.more())
        l.push_back(int(sc.num()));
      lay().set(l);
      emit("{\"e\":\"hs\",\"l\":" + jvec(l) + ",\"es\":" + jvec(lay().order) + "}");
    } else {
      put_header();
      return false;
    }
    return true;
  }
};

#endif
