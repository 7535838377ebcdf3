// Expressions whose coefficients belong to a non-commutative ring: quaternions
// with integer components, or 2x2 matrices of integers (a ring with zero
// divisors, conj() being the transposition).
//
//   -DKIND=0 (quaternions) or 1 (matrices)
//   -DCOMPOUND=1: the scalar type provides +=, -=, *=
//
// Bank 1 of registers: expressions with ring coefficients, bank 2: integers.
#include "algebra.hpp"

#ifndef KIND
#define KIND 0
#endif
#ifndef COMPOUND
#define COMPOUND 1
#endif

struct elem {
  long v[4] = {0, 0, 0, 0};
  elem() = default;
  elem(long x) {
    v[0] = x;
    if(KIND == 1) v[3] = x;
  }
  friend elem operator+(elem a, elem const& b) {
    for(int k = 0; k < 4; ++k)
      a.v[k] += b.v[k];
    return a;
  }
  friend elem operator-(elem a, elem const& b) {
    for(int k = 0; k < 4; ++k)
      a.v[k] -= b.v[k];
    return a;
  }
  friend elem operator-(elem a) {
    for(int k = 0; k < 4; ++k)
      a.v[k] = -a.v[k];
    return a;
  }
  friend elem operator*(elem const& a, elem const& b) {
    elem r;
    auto const* x = a.v;
    auto const* y = b.v;
    if(KIND == 0) {
      r.v[0] = x[0] * y[0] - x[1] * y[1] - x[2] * y[2] - x[3] * y[3];
      r.v[1] = x[0] * y[1] + x[1] * y[0] + x[2] * y[3] - x[3] * y[2];
      r.v[2] = x[0] * y[2] - x[1] * y[3] + x[2] * y[0] + x[3] * y[1];
      r.v[3] = x[0] * y[3] + x[1] * y[2] - x[2] * y[1] + x[3] * y[0];
    } else {
      r.v[0] = x[0] * y[0] + x[1] * y[2];
      r.v[1] = x[0] * y[1] + x[1] * y[3];
      r.v[2] = x[2] * y[0] + x[3] * y[2];
      r.v[3] = x[2] * y[1] + x[3] * y[3];
    }
    return r;
  }
#define MIXED(OP)                                                              \
  friend elem operator OP(elem const& a, long b) { return a OP elem(b); }      \
  friend elem operator OP(long a, elem const& b) { return elem(a) OP b; }
  MIXED(+)
  MIXED(-)
  MIXED(*)
#undef MIXED
#if COMPOUND
  template <typename T> elem& operator+=(T const& b) { return *this = *this + b; }
  template <typename T> elem& operator-=(T const& b) { return *this = *this - b; }
  template <typename T> elem& operator*=(T const& b) { return *this = *this * b; }
#endif
  friend bool operator==(elem const& a, elem const& b) {
    return std::equal(a.v, a.v + 4, b.v);
  }
  friend bool operator!=(elem const& a, elem const& b) { return !(a == b); }
  friend std::ostream& operator<<(std::ostream& os, elem const& a) {
    return os << a.v[0] << "," << a.v[1] << "," << a.v[2] << "," << a.v[3];
  }
};

// Coefficients that depend on an argument: x -> c * (x + d)
struct elfun {
  elem c;
  long d = 0;
  elem operator()(long x) const { return c * (x + d); }
};

namespace libcommute {
template <> struct scalar_traits<elem> {
  static bool is_zero(elem const& x) { return x == elem(); }
  static elem make_const(double x) { return elem(long(x)); }
  static elem make_const(var_number const& vn) {
    if(vn.number_type != var_number::integer)
      throw std::runtime_error("not an integer");
    return elem(int(vn));
  }
  static elem conj(elem x) {
    if(KIND == 0) {
      for(int k = 1; k < 4; ++k)
        x.v[k] = -x.v[k];
    } else
      std::swap(x.v[1], x.v[2]);
    return x;
  }
};
template <> struct scalar_traits<elfun> {
  static bool is_zero(elfun const& x) { return x.c == elem(); }
};
} // namespace libcommute

using cfg = idx_cfg<int>;
static constexpr int NR = 5;
using xr = cfg::expr_t<elem>;
using xl = cfg::expr_t<long>;

universe<cfg> uni;
int unit[4] = {0, 0, 0, 0}; // generators standing for the units of the ring
xr rr[NR];
xl rl[NR];
std::vector<std::string> dumps(2 * NR, "[]");
i64 cap_mul = i64(1) << 24, cap_add = i64(1) << 26;

std::string val(elem const& x) {
  std::vector<std::string> v;
  for(int k = 0; k < 4; ++k)
    if(x.v[k])
      v.push_back("[" + std::to_string(clampi(x.v[k])) + "," +
                  std::to_string(unit[k]) + "]");
  return jstrs(v);
}
std::string val(long x) {
  return x ? "[[" + std::to_string(clampi(x)) + ",0]]" : "[]";
}
i64 mag(long x) { return std::abs(x); }
i64 mag(elem const& x) {
  i64 m = 0;
  for(auto y : x.v)
    m = std::max(m, mag(y));
  return m;
}
struct bound_t {
  i64 b = 0;
  std::size_t terms = 0, len = 0;
};
template <typename E> bound_t bound(E const& e) {
  bound_t r;
  for(auto const& t : e) {
    r.b = std::max(r.b, mag(t.coeff));
    r.len = std::max(r.len, t.monomial.size());
    ++r.terms;
  }
  return r;
}
bool mul_ok(bound_t const& a, bound_t const& b) {
  return a.b * b.b * 4 * i64(std::min(a.terms, b.terms) + 1) < cap_mul &&
         a.terms * b.terms <= 40 && a.len + b.len <= 6;
}
bool add_ok(bound_t const& a, bound_t const& b) {
  return a.b + b.b < cap_add && a.terms + b.terms <= 30;
}
template <typename E> std::string dump(E const& e) {
  std::vector<std::string> v;
  for(auto const& t : e.get_monomials())
    v.push_back("[" + val(t.second) + "," + uni.jmon(t.first) + "]");
  return jstrs(v);
}

template <typename F> void with_reg(int r, F&& f) {
  if(r <= NR)
    f(rr[r - 1]);
  else
    f(rl[r - NR - 1]);
}
template <typename E> using scal = typename std::decay<E>::type::scalar_type;

int store(xr&& e, int slot) {
  rr[slot] = std::move(e);
  return slot + 1;
}
int store(xl&& e, int slot) {
  rl[slot] = std::move(e);
  return NR + slot + 1;
}

void finish(std::string const& op, std::string const& args, int t, std::string const& err) {
  std::string ch;
  for(int r = 1; r <= 2 * NR; ++r)
    with_reg(r, [&](auto const& e) {
      std::string d = dump(e);
      if(d != dumps[r - 1]) {
        ch += (ch.empty() ? "[" : ",[") + std::to_string(r) + "," + d + "]";
        dumps[r - 1] = d;
      }
    });
  emit("{\"e\":\"" + op + "\",\"t\":" + std::to_string(t) + args + ",\"x\":\"" + err +
       "\",\"ch\":[" + ch + "]}");
}
template <typename F> std::string guarded(F&& f) {
  try {
    f();
  } catch(std::exception const& x) { return "exception"; } catch(...) {
    return "other";
  }
  return "";
}
std::string ab(int a, int b) {
  return ",\"a\":" + std::to_string(a) + ",\"b\":" + std::to_string(b);
}

elem read_elem(script& sc) {
  elem e;
  for(auto& x : e.v)
    x = long(sc.num());
  return e;
}
std::vector<int> rest(script& sc) {
  std::vector<int> w;
  while(sc.more())
    w.push_back(int(sc.num()));
  return w;
}

template <typename S>
void scalar_op(std::string const& op, int t, int a, S const& c, std::string const& src) {
  std::string tail = ab(a, a) + ",\"c\":" + val(c) + "," + src;
  int slot = (t - 1) % NR;
  with_reg(a, [&](auto& x) {
    using A = scal<decltype(x)>;
    bound_t bx = bound(x), bc;
    bc.b = mag(c);
    bc.terms = 1;
    if(op.find("mul") != std::string::npos ? !mul_ok(bx, bc) : !add_ok(bx, bc)) return;
    if(op[0] == 'i') {
      if constexpr(std::is_same<A, elem>::value || std::is_same<S, long>::value) {
        auto err = guarded([&]() {
          if(op == "iadds")
            x += c;
          else if(op == "isubs")
            x -= c;
          else
            x *= c;
        });
        finish(op, tail, a, err);
      }
      return;
    }
    int r = 0;
    auto err = guarded([&]() {
      if(op == "smul")
        r = store(c * x, slot);
      else if(op == "muls")
        r = store(x * c, slot);
      else if(op == "adds")
        r = store(x + c, slot);
      else if(op == "sadd")
        r = store(c + x, slot);
      else if(op == "subs")
        r = store(x - c, slot);
      else
        r = store(c - x, slot);
    });
    finish(op, tail, r, err);
  });
}

// A vector of ring elements: amplitudes by basis state
using amps = std::vector<std::pair<std::uint64_t, elem>>;
std::string jamps(std::vector<elem> const& v) {
  std::vector<std::string> r;
  for(std::size_t n = 0; n < v.size(); ++n)
    if(v[n] != elem()) r.push_back("[" + std::to_string(n) + "," + val(v[n]) + "]");
  return jstrs(r);
}

int main() {
  script sc(std::cin);
  bool header = false;
  libcommute::hilbert_space<int> hs;
  auto put_header = [&]() {
    if(header) return;
    header = true;
    for(std::size_t k = 0; k < uni.gens.size(); ++k)
      if(uni.gens[k]->algebra_id() == libcommute::fermion) {
        auto es = libcommute::static_indices::make_space_fermion(std::get<0>(uni.gens[k]->indices()));
        if(!hs.has(es)) hs.add(es);
      }
    emit("{\"e\":\"universe\",\"gens\":" + uni.header() + "," + uni.rules_header() +
         ",\"one\":" + val(elem(1)) + ",\"nr\":" + std::to_string(NR) +
         ",\"units\":" + jvec(std::vector<int>(unit, unit + 4)) + "}");
  };
  while(sc.next()) {
    std::string op = sc.str();
    if(op == "gen") {
      uni.read(sc);
      continue;
    }
    if(op == "rule") {
      uni.read_rule(sc);
      continue;
    }
    if(op == "units") {
      for(auto& u : unit)
        u = int(sc.num());
      continue;
    }
    put_header();
    if(op == "mono" || op == "const") {
      // mono t x x x x g...
      int t = int(sc.num());
      elem c = read_elem(sc);
      auto w = rest(sc);
      with_reg(t, [&](auto& x) {
        using E = typename std::decay<decltype(x)>::type;
        auto set = [&](auto const& v) {
          auto err = guarded([&]() {
            if(op == "mono")
              x = E(v, uni.mono(w));
            else
              x = E(v);
          });
          finish(op, ",\"c\":" + val(v) + ",\"w\":" + jvec(w), t, err);
        };
        if constexpr(std::is_same<E, xr>::value) {
          // integers are converted
          if(c.v[1] == 0 && c.v[2] == 0 && c.v[3] == 0)
            set(c.v[0]);
          else
            set(c);
        } else
          set(c.v[0]);
      });
    } else if(op == "clear") {
      int t = int(sc.num());
      with_reg(t, [&](auto& x) { x.clear(); });
      finish(op, "", t, "");
    } else if(op == "copy" || op == "cctor") {
      int t = int(sc.num()), a = int(sc.num());
      with_reg(t, [&](auto& x) {
        with_reg(a, [&](auto& y) {
          using E = typename std::decay<decltype(x)>::type;
          if constexpr(std::is_same<E, xr>::value ||
                       std::is_same<E, typename std::decay<decltype(y)>::type>::value) {
            auto err = guarded([&]() {
              if(op == "copy")
                x = y;
              else {
                E z(y);
                x = std::move(z);
              }
            });
            finish("copy", ab(a, a), t, err);
          }
        });
      });
    } else if(op == "add" || op == "sub" || op == "mul") {
      int t = int(sc.num()), a = int(sc.num()), b = int(sc.num());
      int slot = (t - 1) % NR;
      with_reg(a, [&](auto& x) {
        with_reg(b, [&](auto& y) {
          if(op == "mul" ? !mul_ok(bound(x), bound(y)) : !add_ok(bound(x), bound(y))) return;
          int r = 0;
          auto err = guarded([&]() {
            if(op == "add")
              r = store(x + y, slot);
            else if(op == "sub")
              r = store(x - y, slot);
            else
              r = store(x * y, slot);
          });
          finish(op, ab(a, b), r, err);
        });
      });
    } else if(op == "iadd" || op == "isub" || op == "imul") {
      int t = int(sc.num()), a = int(sc.num());
      with_reg(t, [&](auto& x) {
        with_reg(a, [&](auto& y) {
          using X = scal<decltype(x)>;
          using Y = scal<decltype(y)>;
          if constexpr(std::is_same<X, elem>::value || std::is_same<Y, long>::value) {
            if(op == "imul" ? !mul_ok(bound(x), bound(y)) : !add_ok(bound(x), bound(y))) return;
            auto err = guarded([&]() {
              if(op == "iadd")
                x += y;
              else if(op == "isub")
                x -= y;
              else
                x *= y;
            });
            finish(op, ab(t, a), t, err);
          }
        });
      });
    } else if(op == "neg") {
      int t = int(sc.num()), a = int(sc.num()), r = 0;
      with_reg(a, [&](auto& x) {
        auto err = guarded([&]() { r = store(-x, (t - 1) % NR); });
        finish(op, ab(a, a), r, err);
      });
    } else if(op == "conj" || op == "hcadd" || op == "hcsub") {
      int t = int(sc.num()), a = int(sc.num()), r = 0;
      with_reg(a, [&](auto& x) {
        bound_t b = bound(x);
        if(!add_ok(b, b)) return;
        int slot = (t - 1) % NR;
        auto err = guarded([&]() {
          if(op == "conj")
            r = store(conj(x), slot);
          else if(op == "hcadd")
            r = store(x + libcommute::hc, slot);
          else
            r = store(x - libcommute::hc, slot);
        });
        finish(op, ab(a, a), r, err);
      });
    } else if(op == "eq") {
      int a = int(sc.num()), b = int(sc.num());
      with_reg(a, [&](auto& x) {
        with_reg(b, [&](auto& y) {
          if constexpr(std::is_same<decltype(x), decltype(y)>::value) {
            bool v = (x == y), nv = (x != y);
            finish(op,
                   ab(a, b) + ",\"v\":" + (v ? "true" : "false") + ",\"nv\":" +
                       (nv ? "true" : "false"),
                   0,
                   "");
          }
        });
      });
    } else if(op == "tr") {
      // coefficients are replaced with c x (k = 0) or x c (k = 1)
      int t = int(sc.num()), a = int(sc.num()), k = int(sc.num());
      elem c = read_elem(sc);
      int slot = (t - 1) % NR, r = 0;
      with_reg(a, [&](auto& x) {
        bound_t bc;
        bc.b = mag(c);
        bc.terms = 1;
        if(!mul_ok(bound(x), bc)) return;
        using X = scal<decltype(x)>;
        auto err = guarded([&]() {
          r = store(transform(x,
                              [&](cfg::monomial_t const&, X const& y) -> elem {
                                return k == 0 ? c * y : y * c;
                              }),
                    slot);
        });
        finish(op, ab(a, a) + ",\"c\":" + val(c) + ",\"k\":" + std::to_string(k), r, err);
      });
    } else if(op == "act") {
      // act <form> <register> n x x x x n x x x x ...
      // forms: 0 - 2 dense vectors, 3 sparse vectors, 4 parametric operator
      int form = int(sc.num()), a = int(sc.num());
      std::vector<elem> in(hs.dim()), out;
      i64 m = 0;
      while(sc.more()) {
        std::size_t n = std::size_t(sc.num()) % in.size();
        in[n] = read_elem(sc);
        m = std::max(m, mag(in[n]));
      }
      long par = 1;
      with_reg(a, [&](auto& x) {
        for(auto const& t : x.get_monomials())
          for(auto const& g : t.first)
            if(g.algebra_id() != libcommute::fermion) return;
        bound_t b = bound(x);
        if(b.b * m * 4 * i64(b.terms + 1) * 3 > (i64(1) << 28)) return;
        using namespace libcommute;
        auto err = guarded([&]() {
          auto before = in;
          if(form == 4) {
            auto e = transform(x, [&](cfg::monomial_t const&, auto const& y) {
              return elfun{elem(1) * y, 2};
            });
            parametric_loperator<elfun, fermion> o(e, hs);
            out = o(in, par);
          } else {
            loperator<scal<decltype(x)>, fermion> o(x, hs);
            if(form == 0)
              out = o(in);
            else if(form == 1)
              out = o * in;
            else if(form == 2) {
              out.assign(in.size(), elem(7));
              o(in, out);
            } else {
#if COMPOUND // which sparse_state_vector requires
              sparse_state_vector<elem> si(in.size());
              for(std::size_t n = 0; n < in.size(); ++n)
                if(in[n] != elem()) si[n] = in[n];
              auto so = o(si);
              out.assign(in.size(), elem());
              foreach(so, [&](sv_index_type n, elem const& y) { out.at(n) = y; });
#else
              out = o * in;
#endif
            }
          }
          if(in != before) throw 1;
        });
        finish(op,
               ab(a, a) + ",\"p\":" + std::to_string(form == 4 ? par + 2 : 1) + ",\"v\":" +
                   jamps(in) + ",\"r\":" + jamps(out),
               0,
               err);
      });
    } else {
      // <op> t a lit x x x x | <op> t a int n | <op> t a ref r k
      int t = int(sc.num()), a = int(sc.num());
      std::string kind = sc.str();
      static char const* const known[] = {
          "smul", "muls", "adds", "sadd", "subs", "ssub", "imuls", "iadds", "isubs"};
      if(std::find(std::begin(known), std::end(known), op) == std::end(known)) {
        std::cerr << "script error: unknown operation " << op << "\n";
        return 3;
      }
      if(kind == "lit")
        scalar_op(op, t, a, read_elem(sc), "\"sr\":0,\"sm\":[]");
      else if(kind == "int")
        scalar_op(op, t, a, long(sc.num()), "\"sr\":0,\"sm\":[]");
      else {
        int b = int(sc.num());
        std::size_t k = std::size_t(sc.num());
        with_reg(b, [&](auto& y) {
          if(y.size() == 0) return;
          auto it = y.get_monomials().begin();
          std::advance(it, k % y.size());
          scalar_op(op, t, a, it->second,
                    "\"sr\":" + std::to_string(b) + ",\"sm\":" + uni.jmon(it->first));
        });
      }
    }
  }
  put_header();
  return 0;
}
