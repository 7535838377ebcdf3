// Operators with all kinds of lists of supported algebras act on basis states
// and superpositions.
#include "linop.hpp"
#include <functional>

using dense = std::vector<V>;
using sparse = libcommute::sparse_state_vector<V>;

template <typename SV> struct calls {
  std::function<SV(SV const&)> ret, mul;
  std::function<void(SV const&, SV&)> into;
};
struct anyop {
  virtual ~anyop() {}
  virtual std::string al() const = 0;
  virtual calls<dense> d() const = 0;
  virtual calls<sparse> s() const = 0;
  virtual std::unique_ptr<anyop> copy(int how) = 0;
  virtual bool assign(anyop& o, bool move) = 0;
};
template <int... A> struct opof : anyop {
  using L = libcommute::loperator<S, A...>;
  L l;
  explicit opof(L const& l_) : l(l_) {}
  explicit opof(L&& l_) : l(std::move(l_)) {}
  opof(expr_t const& e, hspace const& h) : l(e, h) {}
  std::string al() const override { return jvec(std::vector<int>{A...}); }
  template <typename SV> calls<SV> all() const {
    return {[this](SV const& v) { return l(v); }, [this](SV const& v) { return l * v; },
            [this](SV const& v, SV& w) { l(v, w); }};
  }
  calls<dense> d() const override { return all<dense>(); }
  calls<sparse> s() const override { return all<sparse>(); }
  std::unique_ptr<anyop> copy(int how) override {
    if(how == 0) return std::unique_ptr<anyop>(new opof(l));
    L c(l);
    return std::unique_ptr<anyop>(new opof(std::move(c)));
  }
  bool assign(anyop& o, bool move) override {
    auto* p = dynamic_cast<opof*>(&o);
    if(!p) return false;
    if(move) {
      L c(p->l);
      l = std::move(c);
    } else
      l = p->l;
    return true;
  }
};
std::map<int, std::unique_ptr<anyop>> ops;

template <int... A>
std::unique_ptr<anyop> mk_op(expr_t const& e, hspace const& h, bool factory) {
  return std::unique_ptr<anyop>(new opof<A...>(e, h));
}
std::unique_ptr<anyop> make(std::string const& al, expr_t const& e, hspace const& h, std::string& j) {
  auto js_ = [&](std::vector<int> v) { j = jvec(v); };
#define LIST(NAME, ...)                                                        \
  if(al == NAME) {                                                             \
    js_({__VA_ARGS__});                                                        \
    return std::unique_ptr<anyop>(new opof<__VA_ARGS__>(e, h));                \
  }
  if(al == "make") {
    js_({fermion, boson, spin});
    return std::unique_ptr<anyop>(
        new opof<fermion, boson, spin>(libcommute::make_loperator(e, h)));
  }
#ifdef FERMIONS_ONLY
  LIST("f", fermion)
  LIST("-", )
  LIST("f1", fermion, 1)
#else
  LIST("f", fermion)
  LIST("b", boson)
  LIST("s", spin)
  LIST("fb", fermion, boson)
  LIST("fs", fermion, spin)
  LIST("bs", boson, spin)
  LIST("fbs", fermion, boson, spin)
  LIST("fbs1", fermion, boson, spin, 1)
  LIST("f1", fermion, 1)
  LIST("b1", boson, 1)
  LIST("1", 1)
  LIST("-", )
#endif
  std::cerr << "script error: no list " << al << "\n";
  std::exit(3);
}

template <typename SV>
state_t act(calls<SV> const& c, int form, state_t const& s, std::function<SV()> blank,
            std::function<void(SV&)> spoil) {
  using namespace libcommute;
  SV src = blank();
  digits_t ref = s.empty() ? digits_t(lay().order.size(), 0) : s[0].d;
  for(auto const& a : s)
    src[lay().encode(a.d)] = amplitude(a.c, lay().norm(a.d, ref));
  SV before = src;
  collector out{ref, {}};
  if(form == 0)
    foreach(c.ret(src), [&](sv_index_type i, V const& x) { out(i, x); });
  else if(form == 2)
    foreach(c.mul(src), [&](sv_index_type i, V const& x) { out(i, x); });
  else {
    SV dst = blank();
    spoil(dst);
    c.into(src, dst);
    foreach(dst, [&](sv_index_type i, V const& x) { out(i, x); });
  }
  // the source is not changed
  bool same = true;
  foreach(before, [&](sv_index_type i, V const& x) { same = same && get_element(src, i) == x; });
  std::size_t n = 0, m = 0;
  foreach(before, [&](sv_index_type, V const&) { ++n; });
  foreach(src, [&](sv_index_type, V const&) { ++m; });
  if(!same || n != m) out.out.push_back({ref, bad()});
  return out.out;
}

int main() {
  script sc(std::cin);
  session se;
  int flavour = 0;
  while(sc.next()) {
    std::string op = sc.str();
    if(op == "hs") ops.clear();
    if(se.common(sc, op)) continue;
    if(op == "op") {
      // op t <algebras> + c g g + c g ...
      int t = int(sc.num());
      std::string al = sc.str();
      expr_t e = make_expr<S>(read_terms(sc));
      std::string err = "[\"\",0]", j;
      try {
        auto o = make(al, e, lay().hs, j);
        ops[t] = std::move(o);
      } catch(std::exception const& x) {
        err = "[\"other\",0]";
        if(auto* u = dynamic_cast<decltype(libcommute::unknown_generator(
               std::declval<gen_t const&>())) const*>(&x))
          err = "[\"unknown\"," + std::to_string(uni().id(*u->generator_ptr)) + "]";
      }
      emit("{\"e\":\"op\",\"t\":" + std::to_string(t) + ",\"al\":" + j +
           ",\"p\":" + jop(e) + ",\"x\":" + err + "}");
    } else if(op == "copyop") {
      // copyop t a: t becomes a copy of a
      int t = int(sc.num()), a = int(sc.num());
      if(!ops.count(a)) continue;
      ++flavour;
      if(!(flavour % 2 && ops.count(t) && ops[t]->assign(*ops[a], flavour % 4 == 3))) {
        auto o = ops[a]->copy(flavour % 3);
        ops[t] = std::move(o);
      }
      emit("{\"e\":\"copyop\",\"t\":" + std::to_string(t) + ",\"a\":" + std::to_string(a) + "}");
    } else if(op == "act" || op == "actall") {
      // act t <storage><form> state ; state ; ...
      int t = int(sc.num());
      std::string f = sc.str();
      if(!ops.count(t)) continue;
      std::vector<state_t> ss;
      if(op == "actall")
        for(auto const& d : lay().all())
          ss.push_back({{d, {1, 0, 1}}});
      else
        while(sc.more())
          ss.push_back(read_state(sc));
      std::vector<std::string> js_, jr;
      for(auto const& s : ss) {
        js_.push_back(jstate(s));
        sv_index_type n = sv_index_type(1) << lay().total();
        if(f[0] == 'd')
          jr.push_back(jstate(act<dense>(ops[t]->d(), f[1] - '0', s, [&]() { return dense(n, V(0)); },
                                         [](dense& v) { std::fill(v.begin(), v.end(), V(3)); })));
        else
          jr.push_back(jstate(act<sparse>(ops[t]->s(), f[1] - '0', s, [&]() { return sparse(n); },
                                          [&](sparse& v) {
                                            for(auto const& a : s)
                                              v[lay().encode(a.d)] = V(3);
                                            v[0] = V(-2);
                                          })));
      }
      emit("{\"e\":\"act\",\"t\":" + std::to_string(t) + ",\"f\":\"" + f + "\",\"s\":" +
           jstrs(js_) + ",\"r\":" + jstrs(jr) + "}");
    } else {
      std::cerr << "script error: unknown operation " << op << "\n";
      return 3;
    }
  }
  se.put_header();
  return 0;
}
