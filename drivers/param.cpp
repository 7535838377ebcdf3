// Parametric operators: coefficients are polynomials of two arguments, which
// can be given separately or as one object.
#include "linop.hpp"
#include <functional>

using namespace libcommute;

// Two numbers in one object that can be moved from
struct pack {
  std::vector<double> v;
};
// Numbers of calls and the arguments' integrity are watched
struct poly2 {
  std::map<std::pair<int, int>, S> t; // x^a y^b -> factor
  poly2() = default;
  explicit poly2(S c) {
    if(c != S(0)) t[{0, 0}] = c;
  }
  S at(double x, double y) const {
    S r(0);
    for(auto const& p : t) {
      S v = p.second;
      for(int k = 0; k < p.first.first; ++k)
        v *= x;
      for(int k = 0; k < p.first.second; ++k)
        v *= y;
      r += v;
    }
    return r;
  }
  S operator()(double x, double y) const { return at(x, y); }
  // takes the argument over: a moved-from vector is empty
  S operator()(pack p) const { return p.v.size() == 2 ? at(p.v[0], p.v[1]) : S(1000); }
  // arguments of a type that can be moved only
  S operator()(std::unique_ptr<std::pair<double, double>> const& p) const {
    return p ? at(p->first, p->second) : S(1000);
  }
  // refers to variables that the caller may change between calls
  S operator()(std::pair<double const*, double const*> p) const { return at(*p.first, *p.second); }
  poly2& operator+=(poly2 const& o) {
    for(auto const& p : o.t) {
      t[p.first] += p.second;
      if(t[p.first] == S(0)) t.erase(p.first);
    }
    return *this;
  }
  poly2& operator-=(poly2 const& o) {
    for(auto const& p : o.t) {
      t[p.first] -= p.second;
      if(t[p.first] == S(0)) t.erase(p.first);
    }
    return *this;
  }
  friend poly2 operator+(poly2 a, poly2 const& b) { return a += b; }
  friend poly2 operator-(poly2 a, poly2 const& b) { return a -= b; }
  friend poly2 operator-(poly2 const& a) { return poly2() - a; }
  friend poly2 operator*(poly2 const& a, poly2 const& b) {
    poly2 r;
    for(auto const& p : a.t)
      for(auto const& q : b.t) {
        poly2 m;
        m.t[{p.first.first + q.first.first, p.first.second + q.first.second}] = p.second * q.second;
        r += m;
      }
    return r;
  }
  friend poly2 operator*(poly2 a, double x) {
    for(auto& p : a.t)
      p.second *= x;
    if(x == 0) a.t.clear();
    return a;
  }
  friend poly2 operator*(double x, poly2 const& a) { return a * x; }
};

namespace libcommute {
template <> struct scalar_traits<poly2> {
  static bool is_zero(poly2 const& p) { return p.t.empty(); }
  static poly2 make_const(double x) { return poly2(S(x)); }
  static poly2 make_const(var_number const& x) { return poly2(S(double(x))); }
};
} // namespace libcommute

using pexpr_t = cfg::expr_t<poly2>;
using pop_t = parametric_loperator<poly2, fermion, boson, spin>;
using dense = std::vector<V>;
using sparse = sparse_state_vector<V>;

std::string jpoly(poly2 const& p) {
  std::vector<std::string> v;
  for(auto const& x : p.t)
    v.push_back("[" + js(conv(scaled(x.second, -scales().first))) + "," + std::to_string(x.first.first) + "," +
                std::to_string(x.first.second) + "]");
  return jstrs(v);
}
std::string jpexpr(pexpr_t const& e) {
  std::vector<std::string> v;
  for(auto const& t : e)
    v.push_back("[" + jpoly(t.coeff) + "," + uni().jmon(t.monomial) + "]");
  return jstrs(v);
}

template <typename SV> SV blank() {
  auto n = sv_index_type(1) << lay().total();
  if constexpr(std::is_same<SV, dense>::value)
    return dense(n, V(0));
  else
    return SV(n);
}
template <typename SV>
state_t act(pop_t const& l, int form, state_t const& s, double x, double y, int how,
            std::vector<S>& store, bool& stored) {
  SV src = blank<SV>();
  digits_t ref = s.empty() ? digits_t(lay().order.size(), 0) : s[0].d;
  for(auto const& a : s)
    src[lay().encode(a.d)] = amplitude(a.c, lay().norm(a.d, ref));
  collector out{ref, {}};
  auto show = [&](SV const& v) {
    foreach(v, [&](sv_index_type i, V const& a) { out(i, a); });
  };
  // the arguments in one of their guises
  auto call = [&](auto&& f) {
    double const p = x, q = y;
    pack v{{x, y}};
    if(how == 0)
      f(x, y);
    else if(how == 1)
      f(p, 1 * y);
    else if(how == 2)
      f(pack{{x, y}});
    else if(how == 3) {
      f(v);
      if(v.v != std::vector<double>{x, y}) out.out.push_back({ref, bad()});
    } else if(how == 4)
      f(std::unique_ptr<std::pair<double, double>>(new std::pair<double, double>(x, y)));
    else
      f(std::pair<double const*, double const*>(&x, &y));
  };
  SV dst = blank<SV>();
  dst[0] = V(5);
  if(!s.empty()) dst[lay().encode(s[0].d)] = V(-7);
  if(form == 0)
    call([&](auto&&... a) { show(l(src, std::forward<decltype(a)>(a)...)); });
  else if(form == 1) {
    call([&](auto&&... a) { l(src, dst, std::forward<decltype(a)>(a)...); });
    show(dst);
  } else if(form == 2) {
    call([&](auto&&... a) { l.act_and_store_coeffs(src, dst, store, std::forward<decltype(a)>(a)...); });
    stored = true;
    show(dst);
  } else if(form == 3)
    call([&](auto&&... a) {
      auto o = l.at(std::forward<decltype(a)>(a)...);
      show(o(src));
    });
  else if(form == 4)
    call([&](auto&&... a) {
      auto o = l.at(std::forward<decltype(a)>(a)...);
      auto o2 = o;
      o2(src, dst);
      show(dst);
    });
  else {
    pop_t m(l);
    pop_t n(std::move(m));
    call([&](auto&&... a) { show(n(src, std::forward<decltype(a)>(a)...)); });
  }
  return out.out;
}

int main() {
  script sc(std::cin);
  session se;
  std::map<int, pop_t> ops;
  std::vector<S> store(3, S(77)); // used by all calls one after another
  while(sc.next()) {
    std::string op = sc.str();
    if(op == "hs") ops.clear();
    if(se.common(sc, op)) continue;
    if(op == "pop") {
      // pop t + c,a,b/c,a,b.. g g + ...  coefficients are sums of c x^a y^b, with
      // c written as "re,im,den,a,b"
      int t = int(sc.num());
      pexpr_t e;
      while(sc.more()) {
        sc.str();
        poly2 p;
        std::istringstream ss(sc.str());
        std::string m;
        while(std::getline(ss, m, '/')) {
          cq c;
          int a = 0, b = 0;
          std::sscanf(m.c_str(), "%lld,%lld,%lld,%d,%d", &c.re, &c.im, &c.den, &a, &b);
          poly2 q;
          q.t[{a, b}] = scaled(from_cq<S>::make(c), scales().first);
          p += q;
        }
        pexpr_t x(p);
        while(sc.more() && sc.tok[sc.pos] != "+")
          x *= pexpr_t(poly2(S(1)), uni().mono({int(sc.num())}));
        e += x;
      }
      ops.erase(t);
      if(t % 2)
        ops.emplace(t, make_param_loperator(e, lay().hs));
      else
        ops.emplace(t, pop_t(e, lay().hs));
      emit("{\"e\":\"pop\",\"t\":" + std::to_string(t) + ",\"p\":" + jpexpr(e) + "}");
    } else if(op == "pcopy") {
      int t = int(sc.num()), a = int(sc.num());
      if(!ops.count(t) || !ops.count(a)) continue;
      ops.at(t) = ops.at(a);
      emit("{\"e\":\"copyop\",\"t\":" + std::to_string(t) + ",\"a\":" + std::to_string(a) + "}");
    } else if(op == "pact") {
      // pact t <storage><form><guise of arguments> x y state ; state ...
      int t = int(sc.num());
      std::string f = sc.str();
      cq cx = sc.coef(), cy = sc.coef();
      cx = mk(cx.re, 0, cx.den);
      cy = mk(cy.re, 0, cy.den);
      double x = from_cq<double>::make(cx), y = from_cq<double>::make(cy);
      if(!ops.count(t)) continue;
      while(sc.more()) {
        state_t s = read_state(sc);
        bool stored = false;
        state_t r = f[0] == 'd' ? act<dense>(ops.at(t), f[1] - '0', s, x, y, f[2] - '0', store, stored) :
                                  act<sparse>(ops.at(t), f[1] - '0', s, x, y, f[2] - '0', store, stored);
        std::vector<std::string> st;
        if(stored)
          for(auto const& c : store)
            st.push_back(js(conv(scaled(c, -scales().first))));
        emit("{\"e\":\"pact\",\"t\":" + std::to_string(t) + ",\"f\":\"" + f + "\",\"x\":" + js(cx) +
             ",\"y\":" + js(cy) + ",\"s\":" + jstate(s) + ",\"r\":" + jstate(r) +
             ",\"sd\":" + (stored ? "true" : "false") + ",\"st\":" + jstrs(st) + "}");
      }
    } else {
      std::cerr << "script error: unknown operation " << op << "\n";
      return 3;
    }
  }
  se.put_header();
  return 0;
}
