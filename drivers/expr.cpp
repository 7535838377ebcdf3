// Register machine over expressions: executes a script of public API calls and
// records one event per call.
//
//   -DCFG=idx_cfg<int>          index types
//   -DBANKS=double,int          scalar types, one bank of registers for each
#include "algebra.hpp"

#ifdef WITH_BOOST_RATIONAL
#include <libcommute/scalars/boost_rational.hpp>
#endif
#ifdef WITH_GMP
#include <libcommute/scalars/gmpxx.hpp>
#endif

#ifndef CFG
#define CFG idx_cfg<int>
#endif
#ifndef BANKS
#define BANKS double
#endif

namespace libcommute {
template <int M> struct scalar_traits<zmod<M>> {
  static bool is_zero(zmod<M> const& x) { return x.v == 0; }
  static zmod<M> make_const(double x) { return zmod<M>(int(x)); }
  static zmod<M> make_const(var_number const& vn) {
    if(vn.number_type != var_number::integer)
      throw std::runtime_error("not an integer");
    return zmod<M>(int(vn));
  }
  static zmod<M> conj(zmod<M> const& x) { return x; }
};
} // namespace libcommute

using cfg = CFG;
using banks_list = std::tuple<BANKS>;
static constexpr int NB = std::tuple_size<banks_list>::value;
static constexpr int NR = 5; // registers per bank
template <int B> using bank_t = typename std::tuple_element<B, banks_list>::type;
template <typename T> using ex = typename cfg::template expr_t<T>;

template <typename T> struct is_cplx : std::false_type {};
template <typename T> struct is_cplx<std::complex<T>> : std::true_type {};
template <typename T> struct is_rat : std::false_type {};
template <typename T> struct rat_int {
  using type = void;
};
#ifdef WITH_BOOST_RATIONAL
template <typename T> struct is_rat<boost::rational<T>> : std::true_type {};
template <typename T> struct rat_int<boost::rational<T>> {
  using type = T;
};
#endif
template <typename T> struct is_zmod : std::false_type {};
template <int M> struct is_zmod<zmod<M>> : std::true_type {};
template <typename T> struct real_of {
  using type = void;
};
template <typename T> struct real_of<std::complex<T>> {
  using type = T;
};

// Can the two scalar types be mixed in arithmetic expressions
template <typename A, typename B> constexpr bool compat() {
  if constexpr(std::is_same<A, B>::value)
    return true;
  else if constexpr(std::is_arithmetic<A>::value &&
                    std::is_arithmetic<B>::value)
    return true;
  else
    return std::is_same<typename real_of<A>::type, B>::value ||
           std::is_same<typename real_of<B>::type, A>::value ||
           std::is_same<typename rat_int<A>::type, B>::value ||
           std::is_same<typename rat_int<B>::type, A>::value;
}

template <typename T, int B = 0> constexpr int bank_of() {
  if constexpr(B == NB)
    return -1;
  else if constexpr(std::is_same<T, bank_t<B>>::value)
    return B;
  else
    return bank_of<T, B + 1>();
}

template <typename T> std::string tname() {
  if constexpr(std::is_same<T, short>::value)
    return "short";
  else if constexpr(std::is_same<T, signed char>::value)
    return "schar";
  else if constexpr(std::is_same<T, unsigned short>::value)
    return "ushort";
  else if constexpr(std::is_same<T, int>::value)
    return "int";
  else if constexpr(std::is_same<T, unsigned>::value)
    return "unsigned";
  else if constexpr(std::is_same<T, long>::value)
    return "long";
  else if constexpr(std::is_same<T, float>::value)
    return "float";
  else if constexpr(std::is_same<T, double>::value)
    return "double";
  else if constexpr(std::is_same<T, long double>::value)
    return "ldouble";
  else if constexpr(is_cplx<T>::value)
    return "c" + tname<typename T::value_type>();
#ifdef WITH_BOOST_RATIONAL
  else if constexpr(is_rat<T>::value)
    return "r" + tname<typename T::int_type>();
#endif
#ifdef WITH_GMP
  else if constexpr(std::is_same<T, mpz_class>::value)
    return "mpz";
  else if constexpr(std::is_same<T, mpq_class>::value)
    return "mpq";
  else if constexpr(std::is_same<T, mpf_class>::value)
    return "mpf";
#endif
  else if constexpr(is_zmod<T>::value)
    return "z12";
  else
    return "other";
}

template <typename L> struct regs_of;
template <typename... T> struct regs_of<std::tuple<T...>> {
  using type = std::tuple<std::vector<ex<T>>...>;
};

universe<cfg> uni;
regs_of<banks_list>::type banks;
std::vector<std::string> dumps; // last known contents of all registers
i64 cap_b = i64(1) << 14;       // bound on coefficients
i64 cap_add = i64(1) << 16;     // bound on numerators of sums
std::size_t cap_terms = 24, cap_len = 6;

template <int B = 0, typename F> void with_bank(int b, F&& f) {
  if constexpr(B < NB) {
    if(b == B)
      f(std::integral_constant<int, B>{});
    else
      with_bank<B + 1>(b, std::forward<F>(f));
  }
}
template <typename F> void with_reg(int r, F&& f) {
  with_bank((r - 1) / NR, [&](auto B) {
    f(std::get<decltype(B)::value>(banks)[(r - 1) % NR], B);
  });
}

template <typename E> std::string dump(E const& e) { return uni.jexpr(e); }

std::string codes(std::string const& s) {
  std::vector<int> v;
  for(unsigned char c : s)
    v.push_back(int(c));
  return jvec(v);
}
template <typename M, typename C> std::string jterm(M const& m, C const& c) {
  return "[" + js(conv(c)) + "," + uni.jmon(m) + "]";
}
// Terms met by iterators going in one direction, or by zigzag
template <typename E> std::string forward(E const& e) {
  std::vector<std::string> v;
  for(auto it = e.cbegin(); it != e.cend(); it++)
    v.push_back(jterm((*it).monomial, it->coeff));
  return jstrs(v);
}
template <typename E> std::string backward(E const& e) {
  std::vector<std::string> v;
  for(auto it = e.end(); it != e.begin();) {
    if(v.size() % 2) {
      auto old = it--;
      if(old == it) v.push_back("\"stuck\"");
    } else
      --it;
    v.push_back(jterm(it->monomial, (*it).coeff));
  }
  return jstrs(v);
}
template <typename E> std::string zigzag(E const& e) {
  std::vector<std::string> v;
  auto it = e.begin();
  auto const n = e.size();
  for(std::size_t k = 0; k < n; ++k) {
    v.push_back(jterm(it->monomial, it->coeff));
    ++it;
    if(k % 2 == 0) {
      --it;
      v.push_back(jterm(it->monomial, it->coeff));
      it++;
    }
  }
  if(it != e.end()) v.push_back("\"not at the end\"");
  return jstrs(v);
}

// Iteration interfaces agree with each other
template <typename E> bool iter_ok(E const& e) {
  auto const& m = e.get_monomials();
  if(m.size() != e.size()) return false;
  if(std::size_t(std::distance(e.begin(), e.end())) != m.size()) return false;
  auto it = e.cbegin();
  for(auto const& p : m) {
    if(!((*it).monomial == p.first) || !(it->coeff == p.second)) return false;
    auto old = it++;
    if(old == it || !((*old).monomial == p.first)) return false;
  }
  if(it != e.cend()) return false;
  for(auto p = m.rbegin(); p != m.rend(); ++p) {
    --it;
    if(!((*it).monomial == p->first) || !((*it).coeff == p->second))
      return false;
  }
  return it == e.cbegin();
}

i64 lcm(i64 a, i64 b) {
  return std::min(i64(1) << 30, a / gcd_(a, b) * b);
}
struct bound_t {
  i64 b = 1;        // bound on numerators times denominators
  i64 v = 1, d = 1; // bound on values, common denominator
  std::size_t terms = 0, len = 0;
};
template <typename E> bound_t bound(E const& e) {
  bound_t r;
  for(auto const& t : e) {
    cq c = conv(t.coeff);
    i64 v = c.den == 0 ? INT_LIM
                       : std::max({std::abs(c.re), std::abs(c.im), i64(1)}) *
                             c.den;
    r.b = std::max(r.b, v);
    r.v = std::max(r.v, c.den == 0 ? INT_LIM : v / c.den / c.den + 1);
    r.d = lcm(r.d, c.den == 0 ? 1 : c.den);
    r.len = std::max(r.len, t.monomial.size());
    ++r.terms;
  }
  return r;
}
i64 cq_bound(cq const& c) {
  return c.den == 0 ? INT_LIM
                    : std::max({std::abs(c.re), std::abs(c.im), i64(1)}) * c.den;
}

bool pair_ok(bound_t const& a, bound_t const& b, bool mul) {
  using ld = long double;
  if(mul ? ld(a.b) * b.b > cap_b : (ld(a.v) + b.v) * lcm(a.d, b.d) > cap_add) return false;
  if(mul) {
    if(a.terms * b.terms > 40 || a.len + b.len > cap_len) return false;
    // estimate of the number of terms summed up in one coefficient
    if(ld(a.b) * b.b * i64(std::max(std::size_t(1), std::min(a.terms, b.terms))) >
       4 * cap_b)
      return false;
  } else if(a.terms + b.terms > cap_terms)
    return false;
  return true;
}

// Finish an event: report all registers whose contents have changed
void finish(std::string const& head, int t, std::string const& err) {
  std::string ch = "[";
  bool first = true;
  int r = 0;
  bool it = true;
  auto visit = [&](auto const& v) {
    for(auto const& e : v) {
      ++r;
      std::string d = dump(e);
      if(r == t) it = iter_ok(e);
      if(d != dumps[r - 1]) {
        ch += std::string(first ? "" : ",") + "[" + std::to_string(r) + "," + d +
              "]";
        first = false;
        dumps[r - 1] = d;
      }
    }
  };
  std::apply([&](auto const&... v) { (visit(v), ...); }, banks);
  emit("{" + head + ",\"t\":" + std::to_string(t) + ",\"x\":\"" + err +
       "\",\"it\":" + (it ? "true" : "false") + ",\"ch\":" + ch + "]}");
}

template <typename F> std::string guarded(F&& f) {
  try {
    f();
  } catch(std::runtime_error const&) { return "runtime_error"; } catch(...) {
    return "other";
  }
  return "";
}

std::string ev(std::string const& op) { return "\"e\":\"" + op + "\""; }
std::string ab(int a, int b) {
  return ",\"a\":" + std::to_string(a) + ",\"b\":" + std::to_string(b);
}

// Store the result of an operation in the bank of its scalar type; returns the
// register's number, or 0 if there is no such bank
template <typename E> int store(E&& e, int slot) {
  using S = typename std::decay<E>::type::scalar_type;
  constexpr int B = bank_of<S>();
  if constexpr(B < 0)
    return 0;
  else {
    std::get<B>(banks)[slot] = std::forward<E>(e);
    return B * NR + slot + 1;
  }
}

template <typename A, typename B>
using prod_t = decltype(std::declval<ex<A>>() * std::declval<ex<B>>());

void binary(std::string const& op, int slot, int a, int b) {
  with_reg(a, [&](auto& x, auto) {
    with_reg(b, [&](auto& y, auto) {
      using A = typename std::decay<decltype(x)>::type::scalar_type;
      using B = typename std::decay<decltype(y)>::type::scalar_type;
      if constexpr(compat<A, B>()) {
        if(!pair_ok(bound(x), bound(y), op == "mul")) return;
        int t = 0;
        using R = typename prod_t<A, B>::scalar_type;
        constexpr int RB = bank_of<R>();
        if constexpr(RB >= 0) {
          t = RB * NR + slot + 1;
          auto err = guarded([&]() {
            if(op == "add")
              store(x + y, slot);
            else if(op == "sub")
              store(x - y, slot);
            else
              store(x * y, slot);
          });
          finish(ev(op) + ab(a, b), t, err);
        }
      }
    });
  });
}

// t op= a
void compound(std::string const& op, int t, int a) {
  with_reg(t, [&](auto& x, auto) {
    with_reg(a, [&](auto& y, auto) {
      using A = typename std::decay<decltype(x)>::type::scalar_type;
      using B = typename std::decay<decltype(y)>::type::scalar_type;
      if constexpr(compat<A, B>()) {
        using R = typename prod_t<A, B>::scalar_type;
        constexpr bool same = std::is_same<R, A>::value;
        // sums can also be narrowed
        if constexpr(same || (std::is_arithmetic<A>::value && std::is_arithmetic<B>::value)) {
          if(!pair_ok(bound(x), bound(y), op == "imul")) return;
          if(!same && op == "imul") return;
          auto err = guarded([&]() {
            if(op == "iadd")
              x += y;
            else if(op == "isub")
              x -= y;
            else if constexpr(same)
              x *= y;
          });
          finish(ev(op) + ab(t, a), t, err);
        }
      }
    });
  });
}

// Operations with a scalar operand: a literal, or a reference to a coefficient
// stored in register b (number k in the order of storage)
template <typename S>
void scalar_op(std::string const& op,
               int slot,
               int a,
               S const& c,
               std::string const& src) {
  std::string tail = ab(a, a) + ",\"c\":" + js(conv(c)) + ",\"tc\":\"" +
                     tname<S>() + "\"," + src;
  with_reg(a, [&](auto& x, auto) {
    using A = typename std::decay<decltype(x)>::type::scalar_type;
    if constexpr(compat<A, S>()) {
      bound_t bx = bound(x), bc;
      cq const q = conv(c);
      bc.b = cq_bound(q);
      bc.v = q.den == 0 ? INT_LIM : bc.b / q.den / q.den + 1;
      bc.d = q.den == 0 ? 1 : q.den;
      if(op.find("mul") != std::string::npos ?
             (long double)(bx.b) * bc.b > cap_b : !pair_ok(bx, bc, false)) return;
      using R = decltype(std::declval<A>() * std::declval<S>());
      using RR = typename std::conditional<
          std::is_same<A, S>::value,
          A,
          typename std::decay<R>::type>::type;
      constexpr bool small_int =
          std::is_integral<A>::value && sizeof(A) < sizeof(int);
      using RT = typename std::conditional<small_int, int, RR>::type;
      if(op[0] == 'i') {
        constexpr bool arith = std::is_arithmetic<A>::value && std::is_arithmetic<S>::value;
        if constexpr(std::is_same<RT, A>::value || small_int || arith) {
          if constexpr(std::is_same<S, A>::value || !small_int || arith) {
            auto err = guarded([&]() {
              if(op == "iadds")
                x += c;
              else if(op == "isubs")
                x -= c;
              else
                x *= c;
            });
            finish(ev(op) + tail, a, err);
          }
        }
      } else {
        constexpr int RB = bank_of<RT>();
        if constexpr(RB >= 0) {
          int t = RB * NR + slot + 1;
          auto err = guarded([&]() {
            if(op == "smul")
              store(c * x, slot);
            else if(op == "muls")
              store(x * c, slot);
            else if(op == "adds")
              store(x + c, slot);
            else if(op == "sadd")
              store(c + x, slot);
            else if(op == "subs")
              store(x - c, slot);
            else
              store(c - x, slot);
          });
          finish(ev(op) + tail, t, err);
        }
      }
    }
  });
}

// Product of the generators of a word with the given grouping
template <typename T>
ex<T> word_product(std::vector<int> const& w,
                   std::size_t lo,
                   std::size_t hi,
                   std::string const& kind,
                   unsigned& rnd) {
  if(hi == lo) return ex<T>(T(1));
  if(hi - lo == 1)
    return ex<T>(T(1), uni.mono({w[lo]}));
  std::size_t mid = 0;
  if(kind == "L")
    mid = hi - 1;
  else if(kind == "R")
    mid = lo + 1;
  else {
    rnd = rnd * 1103515245u + 12345u;
    mid = lo + 1 + (rnd >> 16) % (hi - lo - 1);
  }
  auto l = word_product<T>(w, lo, mid, kind, rnd);
  auto r = word_product<T>(w, mid, hi, kind, rnd);
  if(kind == "C") { // compound multiplication
    l *= r;
    return l;
  }
  return l * r;
}

#ifdef FACTORIES
#include "factory.hpp"
#endif

int main() {
  script sc(std::cin);
  std::apply([](auto&... v) { (v.resize(NR), ...); }, banks);
  dumps.assign(NB * NR, "[]");
  bool header = false;
  auto put_header = [&]() {
    if(header) return;
    header = true;
    std::string tys;
    std::apply(
        [&](auto const&... v) {
          ((tys += (tys.empty() ? "\"" : ",\"") +
                   tname<typename std::decay<
                       decltype(v[0])>::type::scalar_type>() +
                   "\""),
           ...);
        },
        banks);
    emit("{\"e\":\"universe\",\"gens\":" + uni.header() + "," +
         uni.rules_header() + ",\"types\":[" + tys +
         "],\"nr\":" + std::to_string(NR) + "}");
  };
  using T0 = bank_t<0>;

  while(sc.next()) {
    std::string op = sc.str();
    if(op == "gen") {
      uni.read(sc);
      continue;
    }
    if(op == "rule") {
      uni.read_rule(sc);
      continue;
    }
    put_header();
    if(op == "cap") {
      cap_b = sc.num();
      cap_add = cap_b;
      cap_terms = std::size_t(sc.num());
      cap_len = std::size_t(sc.num());
    } else if(op == "capadd") {
      cap_add = sc.num();
    } else if(op == "word") {
      // word <kind> <seed> g...
      std::string kind = sc.str();
      unsigned rnd = unsigned(sc.num());
      std::vector<int> w;
      while(sc.more())
        w.push_back(int(sc.num()));
      std::string d = "[]";
      auto err = guarded([&]() {
        if(kind == "M") {
          d = dump(ex<T0>(T0(1), uni.mono(w)));
        } else
          d = dump(word_product<T0>(w, 0, w.size(), kind, rnd));
      });
      emit("{\"e\":\"word\",\"w\":" + jvec(w) + ",\"x\":\"" + err +
           "\",\"r\":" + d + "}");
    } else if(op == "mono") {
      // mono t coef g...
      int t = int(sc.num());
      cq c = sc.coef();
      std::vector<int> w;
      while(sc.more())
        w.push_back(int(sc.num()));
      with_reg(t, [&](auto& x, auto) {
        using A = typename std::decay<decltype(x)>::type::scalar_type;
        A v = from_cq<A>::make(c);
        auto err = guarded([&]() { x = ex<A>(v, uni.mono(w)); });
        finish(ev("mono") + ",\"c\":" + js(conv(v)) + ",\"w\":" + jvec(w),
               t,
               err);
      });
    } else if(op == "xconst" || op == "xmono") {
      // From a scalar of bank b: xconst t b coef | xmono t b coef g...
      int t = int(sc.num()), b = int(sc.num());
      cq c = sc.coef();
      std::vector<int> w;
      while(sc.more())
        w.push_back(int(sc.num()));
      with_reg(t, [&](auto& x, auto) {
        using A = typename std::decay<decltype(x)>::type::scalar_type;
        with_bank(b, [&](auto B) {
          using S = bank_t<decltype(B)::value>;
          if constexpr(compat<A, S>() && std::is_convertible<S, A>::value) {
            S v = from_cq<S>::make(c);
            A u = A(v);
            auto err = guarded([&]() {
              if(op == "xconst")
                x = ex<A>(v);
              else
                x = ex<A>(v, uni.mono(w));
            });
            finish(ev(op == "xconst" ? "const" : "mono") + ",\"c\":" + js(conv(u)) + ",\"w\":" +
                       jvec(w),
                   t,
                   err);
          }
        });
      });
    } else if(op == "num") {
      // A constant, by the way it is given (d, i, r or f), as each of the scalar types
      // num <way> numerator denominator
      std::string way = sc.str();
      i64 n = sc.num(), d = sc.num();
      std::apply(
          [&](auto const&... v) {
            auto one = [&](auto const& bank) {
              using A = typename std::decay<decltype(bank[0])>::type::scalar_type;
              using st = libcommute::scalar_traits<A>;
              using libcommute::var_number;
              if constexpr(is_zmod<A>::value) return;
              std::string r = "[]";
              auto err = guarded([&]() {
                A x = way == "d" ? st::make_const(double(n) / double(d)) :
                      way == "i" ? st::make_const(var_number(int(n))) :
                      way == "r" ? st::make_const(var_number(int(n), int(d))) :
                                   st::make_const(var_number(double(n) / double(d)));
                r = js(conv(x));
                if(st::is_zero(x) != (n == 0)) r = js(bad());
                if(!(st::conj(x) == x)) r = js(bad());
              });
              emit("{\"e\":\"num\",\"way\":\"" + way + "\",\"ty\":\"" + tname<A>() +
                   "\",\"c\":" + js(mk(d < 0 ? -n : n, 0, std::abs(d))) + ",\"x\":\"" + err +
                   "\",\"r\":" + r + "}");
            };
            (one(v), ...);
          },
          banks);
#ifdef FACTORIES
    } else if(op == "fac") {
      // fac <slot> <name> <scalar> <mult> <mode> idx...
      int slot = int(sc.num());
      std::string name = sc.str(), scalar = sc.str();
      int mult = int(sc.num()), mode = int(sc.num());
      std::vector<comp> v;
      std::string ji = "[";
      while(sc.more()) {
        comp k = read_comp(sc.str());
        ji += (v.empty() ? "" : ",") + (k.is_str ? jcomp(k.s) : jcomp(k.i));
        v.push_back(k);
      }
      int t = 0;
      std::string ty;
      auto err = guarded([&]() {
        factory(name, scalar, mult, v, mode, [&](auto&& e) {
          ty = tname<typename std::decay<decltype(e)>::type::scalar_type>();
          t = store(e, slot);
        });
      });
      finish(ev("fac") + ",\"f\":\"" + name + "\",\"s\":\"" + scalar +
                 "\",\"ty\":\"" + ty + "\",\"m\":" + std::to_string(mult) +
                 ",\"ix\":" + ji + "]",
             t,
             err);
    } else if(op == "mkc") {
      // make_complex
      int t = int(sc.num()), a = int(sc.num());
      with_reg(t, [&](auto& x, auto) {
        with_reg(a, [&](auto& y, auto) {
          using A = typename std::decay<decltype(x)>::type::scalar_type;
          using B = typename std::decay<decltype(y)>::type::scalar_type;
          if constexpr(std::is_same<A, std::complex<double>>::value &&
                       std::is_same<B, double>::value) {
            auto err = guarded([&]() { x = FACNS::make_complex(y); });
            finish(ev("copy") + ab(a, a), t, err);
          }
        });
      });
#endif
    } else if(op == "const") {
      int t = int(sc.num());
      cq c = sc.coef();
      with_reg(t, [&](auto& x, auto) {
        using A = typename std::decay<decltype(x)>::type::scalar_type;
        A v = from_cq<A>::make(c);
        auto err = guarded([&]() { x = ex<A>(v); });
        finish(ev("const") + ",\"c\":" + js(conv(v)), t, err);
      });
    } else if(op == "copy" || op == "conv" || op == "cctor" || op == "move" ||
              op == "swap") {
      int t = int(sc.num()), a = int(sc.num());
      with_reg(t, [&](auto& x, auto) {
        with_reg(a, [&](auto& y, auto) {
          using A = typename std::decay<decltype(x)>::type::scalar_type;
          using B = typename std::decay<decltype(y)>::type::scalar_type;
          if constexpr(compat<A, B>()) {
            using R = typename prod_t<A, B>::scalar_type;
            if constexpr(std::is_same<A, B>::value) {
              if(op == "move") {
                if(t == a) return;
                auto err = guarded([&]() {
                  x = std::move(y);
                  y = ex<B>(); // a moved-from expression can be assigned to
                });
                finish(ev("move") + ab(a, a), t, err);
                return;
              } else if(op == "swap") {
                auto err = guarded([&]() { std::swap(x, y); });
                finish(ev("swap") + ab(a, a), t, err);
                return;
              }
            }
            if constexpr(std::is_same<R, A>::value ||
                         std::is_same<A, B>::value) {
              auto err = guarded([&]() {
                if(op == "cctor") {
                  ex<A> z(y);
                  x = std::move(z);
                } else
                  x = y;
              });
              finish(ev("copy") + ab(a, a), t, err);
            } else if constexpr(std::is_arithmetic<A>::value &&
                                std::is_arithmetic<B>::value) {
              // Narrowing conversion
              if(bound(y).b > 16000) return;
              auto err = guarded([&]() {
                if(op == "cctor") {
                  ex<A> z(y);
                  x = std::move(z);
                } else
                  x = y;
              });
              finish(ev("conv") + ab(a, a), t, err);
            }
          }
        });
      });
    } else if(op == "clear") {
      int t = int(sc.num());
      with_reg(t, [&](auto& x, auto) {
        auto err = guarded([&]() { x.clear(); });
        finish(ev("clear"), t, err);
      });
    } else if(op == "add" || op == "sub" || op == "mul") {
      int t = int(sc.num()), a = int(sc.num()), b = int(sc.num());
      binary(op, (t - 1) % NR, a, b);
    } else if(op == "iadd" || op == "isub" || op == "imul") {
      int t = int(sc.num()), a = int(sc.num());
      compound(op, t, a);
    } else if(op == "neg") {
      int t = int(sc.num()), a = int(sc.num());
      with_reg(a, [&](auto& x, auto) {
        using A = typename std::decay<decltype(x)>::type::scalar_type;
        constexpr bool small_int =
            std::is_integral<A>::value && sizeof(A) < sizeof(int);
        using R = typename std::conditional<small_int, int, A>::type;
        constexpr int B = bank_of<R>();
        if constexpr(B >= 0) {
          auto err = guarded([&]() { store(-x, (t - 1) % NR); });
          finish(ev("neg") + ab(a, a), B * NR + (t - 1) % NR + 1, err);
        }
      });
    } else if(op == "smul" || op == "muls" || op == "adds" || op == "sadd" ||
              op == "subs" || op == "ssub" || op == "iadds" || op == "isubs" ||
              op == "imuls") {
      // <op> t a lit <bank> coef     |  <op> t a ref <reg> <k>
      int t = int(sc.num()), a = int(sc.num());
      std::string kind = sc.str();
      if(kind == "lit") {
        int b = int(sc.num());
        cq c = sc.coef();
        with_bank(b, [&](auto B) {
          using S = bank_t<decltype(B)::value>;
          S v = from_cq<S>::make(c);
          scalar_op(op, (t - 1) % NR, a, v, "\"sr\":0,\"sm\":[]");
        });
      } else {
        int b = int(sc.num());
        std::size_t k = std::size_t(sc.num());
        with_reg(b, [&](auto& y, auto) {
          if(y.size() == 0) return;
          auto it = y.get_monomials().begin();
          std::advance(it, k % y.size());
          scalar_op(op,
                    (t - 1) % NR,
                    a,
                    it->second,
                    "\"sr\":" + std::to_string(b) +
                        ",\"sm\":" + uni.jmon(it->first));
        });
      }
    } else if(op == "conj" || op == "hcadd" || op == "hcsub") {
      int t = int(sc.num()), a = int(sc.num());
      with_reg(a, [&](auto& x, auto) {
        using A = typename std::decay<decltype(x)>::type::scalar_type;
        if constexpr(std::is_integral<A>::value && sizeof(A) < sizeof(int))
          return;
        else {
          bound_t b = bound(x);
          if(b.len > cap_len || 2 * b.terms > cap_terms) return;
          with_reg(t, [&](auto& z, auto) {
            using Z = typename std::decay<decltype(z)>::type::scalar_type;
            if constexpr(std::is_same<A, Z>::value) {
              auto err = guarded([&]() {
                if(op == "conj")
                  z = conj(x);
                else if(op == "hcadd")
                  z = x + libcommute::hc;
                else
                  z = x - libcommute::hc;
              });
              finish(ev(op) + ab(a, a), t, err);
            }
          });
        }
      });
    } else if(op == "tr") {
      // kinds 0 .. 2: functions of the term; 3 .. 5: the type of the target is chosen freely
      int t = int(sc.num()), a = int(sc.num()), kind = int(sc.num());
      with_reg(a, [&](auto& x, auto) {
        using A = typename std::decay<decltype(x)>::type::scalar_type;
        with_reg(t, [&](auto& z, auto) {
          using Z = typename std::decay<decltype(z)>::type::scalar_type;
          if(bound(x).b * 2 > cap_b) return;
          std::vector<std::string> calls;
          using mon_t = typename cfg::monomial_t;
          std::string err;
          if(kind < 3) {
            if constexpr(std::is_same<A, Z>::value)
              err = guarded([&]() {
                z = transform(x, [&](mon_t const& m, A const& c) {
                  calls.push_back(jterm(m, c));
                  if(kind == 0) return A(c + c);
                  if(kind == 1) return m.size() % 2 == 1 ? A(c - c) : c;
                  return libcommute::scalar_traits<A>::conj(c);
                });
              });
            else
              return;
          } else {
            auto mk = [](int n) { return from_cq<Z>::make({n, 0, 1}); };
            err = guarded([&]() {
              auto f = [&](mon_t const& m, A const& c) {
                calls.push_back(jterm(m, c));
                return kind == 3   ? mk(0)
                       : kind == 4 ? mk(int(m.size()) + 1)
                                   : mk(int(calls.size()) % 3);
              };
              if(kind == 5)
                z = transform(x, f); // the function is not to be copied
              else
                z = transform(x, std::move(f));
            });
          }
          finish(ev("tr") + ab(a, a) + ",\"k\":" + std::to_string(kind) + ",\"calls\":" +
                     jstrs(calls),
                 t,
                 err);
        });
      });
    } else if(op == "show") {
      int a = int(sc.num());
      with_reg(a, [&](auto& x, auto) {
        std::string f, b, z, s;
        auto err = guarded([&]() {
          f = forward(x);
          b = backward(x);
          z = zigzag(x);
          std::ostringstream os;
          os << x;
          s = codes(os.str());
        });
        finish(ev("show") + ab(a, a) + ",\"f\":" + f + ",\"b\":" + b + ",\"z\":" + z +
                   ",\"n\":" + std::to_string(x.size()) + ",\"s\":" + s,
               0,
               err);
      });
    } else if(op == "eq") {
      int a = int(sc.num()), b = int(sc.num());
      with_reg(a, [&](auto& x, auto) {
        with_reg(b, [&](auto& y, auto) {
          using A = typename std::decay<decltype(x)>::type::scalar_type;
          using B = typename std::decay<decltype(y)>::type::scalar_type;
          if constexpr(std::is_same<A, B>::value) {
            bool v = false, nv = false;
            auto err = guarded([&]() {
              v = (x == y);
              nv = (x != y);
            });
            finish(ev("eq") + ab(a, b) + ",\"v\":" + (v ? "true" : "false") +
                       ",\"nv\":" + (nv ? "true" : "false"),
                   0,
                   err);
          }
        });
      });
    } else {
      std::cerr << "script error: unknown operation " << op << "\n";
      return 3;
    }
  }
  put_header();
  return 0;
}
