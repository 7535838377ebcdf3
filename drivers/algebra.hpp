// Universe of generators: construction from script lines, identification of
// generators found in expressions.
#ifndef VERIF_ALGEBRA_HPP_
#define VERIF_ALGEBRA_HPP_

#include "common.hpp"

#include <libcommute/libcommute.hpp>

// An index component of the script: "i<number>" or "s<string>"
struct comp {
  bool is_str = false;
  int i = 0;
  std::string s;
};
inline std::string jcomp(int x) { return "[0," + std::to_string(x) + "]"; }
inline std::string jcomp(std::string const& x) {
  std::string s = "[1";
  for(unsigned char c : x)
    s += "," + std::to_string(int(c));
  return s + "]";
}
inline comp read_comp(std::string const& t) {
  comp c;
  if(t[0] == 's') {
    c.is_str = true;
    c.s = t.substr(1);
  } else
    c.i = std::stoi(t.substr(1));
  return c;
}

// Index configurations
template <typename... Idx> struct idx_cfg {
  using gen_t = libcommute::generator<Idx...>;
  using gen_ptr = std::shared_ptr<const gen_t>;
  template <typename S> using expr_t = libcommute::expression<S, Idx...>;
  using monomial_t = libcommute::monomial<Idx...>;
  using fermion = libcommute::generator_fermion<Idx...>;
  using boson = libcommute::generator_boson<Idx...>;
  using spin = libcommute::generator_spin<Idx...>;
  static constexpr bool dynamic = false;

  template <typename T> static T get(comp const& c) {
    if constexpr(std::is_same<T, std::string>::value)
      return c.s;
    else
      return c.i;
  }
  template <std::size_t... I>
  static std::tuple<Idx...> make(std::vector<comp> const& v,
                                 std::index_sequence<I...>) {
    return std::tuple<Idx...>(get<Idx>(v[I])...);
  }
  static std::tuple<Idx...> indices(std::vector<comp> const& v) {
    if(v.size() != sizeof...(Idx)) {
      std::cerr << "script error: wrong number of indices\n";
      std::exit(3);
    }
    return make(v, std::index_sequence_for<Idx...>{});
  }
  static std::string jidx(std::tuple<Idx...> const& t) {
    return std::apply(
        [](auto const&... x) {
          return jstrs(std::vector<std::string>{jcomp(x)...});
        },
        t);
  }
  template <typename G, typename... A>
  static gen_ptr mkgen(std::vector<comp> const& v, A... a) {
    return std::apply(
        [&](auto const&... x) { return std::make_shared<G>(a..., x...); },
        indices(v));
  }
};

// Dynamic indices
struct dyn_cfg : idx_cfg<libcommute::dynamic_indices::dyn_indices> {
  using I = libcommute::dynamic_indices::dyn_indices;
  static constexpr bool dynamic = true;
  static I indices(std::vector<comp> const& v) {
    libcommute::dynamic_indices::dyn_indices::indices_t r;
    for(auto const& c : v) {
      if(c.is_str)
        r.emplace_back(c.s);
      else
        r.emplace_back(c.i);
    }
    return I(std::move(r));
  }
  static std::string jidx(std::tuple<I> const& t) {
    std::vector<std::string> r;
    for(auto const& x : static_cast<libcommute::dynamic_indices::dyn_indices::indices_t const&>(
            std::get<0>(t)))
      r.push_back(std::visit([](auto const& y) { return jcomp(y); }, x));
    return jstrs(r);
  }
  template <typename G, typename... A>
  static gen_ptr mkgen(std::vector<comp> const& v, A... a) {
    return std::make_shared<G>(a..., indices(v));
  }
};

// Generators of user-defined algebras: rules are taken from a table indexed by
// the generators' numbers in the universe
struct lin_rule {
  libcommute::var_number c = 1, k = 0;
  std::vector<std::pair<int, libcommute::var_number>> l;
};
struct rule_table {
  std::map<std::pair<int, int>, lin_rule> swap, red; // (h, g) -> rule
  std::map<std::pair<int, int>, lin_rule> pow;       // (g, p) -> rule
  std::map<int, lin_rule> conj;
};
inline rule_table& rules() {
  static rule_table t;
  return t;
}

template <typename Gen> struct user_generator : public Gen {
  using linear_function_t = typename Gen::linear_function_t;
  using self = user_generator;
  int alg, num;
  template <typename... A>
  user_generator(int alg_, int num_, A&&... a)
    : Gen(std::forward<A>(a)...), alg(alg_), num(num_) {}
  static std::vector<std::shared_ptr<const Gen>>& all() {
    static std::vector<std::shared_ptr<const Gen>> v;
    return v;
  }
  int algebra_id() const override { return alg; }
  static void fill(lin_rule const& r, linear_function_t& f) {
    std::vector<std::pair<std::shared_ptr<const Gen>, libcommute::var_number>> t;
    for(auto const& x : r.l)
      t.emplace_back(all().at(x.first - 1), x.second);
    f.set(r.k, std::move(t));
  }
  int number(Gen const& g) const { return dynamic_cast<self const&>(g).num; }
  libcommute::var_number swap_with(Gen const& g2,
                                   linear_function_t& f) const override {
    auto it = rules().swap.find({num, number(g2)});
    if(it == rules().swap.end()) {
      f.set(0);
      return 1;
    }
    fill(it->second, f);
    return it->second.c;
  }
  bool simplify_prod(Gen const& g2, linear_function_t& f) const override {
    auto it = rules().red.find({num, number(g2)});
    if(it == rules().red.end()) return false;
    fill(it->second, f);
    return true;
  }
  bool reduce_power(int power, linear_function_t& f) const override {
    auto it = rules().pow.find({num, power});
    if(it == rules().pow.end()) return false;
    fill(it->second, f);
    return true;
  }
  void conj(linear_function_t& f) const override {
    auto it = rules().conj.find(num);
    if(it == rules().conj.end())
      Gen::conj(f);
    else
      fill(it->second, f);
  }
};

// A number of the script: "n,0,d" is an integer or a fraction, "n,0,d,d" a
// floating point number
inline libcommute::var_number read_num(std::string const& s, std::string& js_) {
  cq c;
  char k = 0;
  int n = std::sscanf(s.c_str(), "%lld,%lld,%lld,%c", &c.re, &c.im, &c.den, &k);
  if(n < 3) {
    std::cerr << "script error: bad number " << s << "\n";
    std::exit(3);
  }
  js_ = js(mk(c.den < 0 ? -c.re : c.re, 0, std::abs(c.den)));
  if(n == 4) return libcommute::var_number(double(c.re) / double(c.den));
  if(c.den == 1) return libcommute::var_number(int(c.re));
  return libcommute::var_number(int(c.re), int(c.den));
}

template <typename Cfg> struct universe {
  std::vector<std::string> jrules[4];
  // are there floating point numbers, fractions in the rules
  bool floats = false, fractions = false;
  using gen_t = typename Cfg::gen_t;
  using gen_ptr = typename Cfg::gen_ptr;
  std::vector<gen_ptr> gens; // gens[k-1] is the generator number k
  std::map<std::string, int> number;

  static std::string describe(gen_t const& g) {
    using namespace libcommute;
    std::string d = "{\"a\":" + std::to_string(g.algebra_id());
    int dag = 0, mult = 0, c = 0;
    if(auto const* f = dynamic_cast<typename Cfg::fermion const*>(&g))
      dag = f->dagger();
    else if(auto const* b = dynamic_cast<typename Cfg::boson const*>(&g))
      dag = b->dagger();
    else if(auto const* s = dynamic_cast<typename Cfg::spin const*>(&g)) {
      mult = s->multiplicity();
      c = s->component() == plus ? 0 : (s->component() == minus ? 1 : 2);
    } else if(g.algebra_id() < 0)
      c = 99;
    d += ",\"d\":" + std::to_string(dag) + ",\"m\":" + std::to_string(mult) +
         ",\"c\":" + std::to_string(c) + ",\"i\":" + Cfg::jidx(g.indices()) +
         "}";
    return d;
  }

  // "f <dagger> idx...", "b <dagger> idx...", "s <mult> <component> idx..."
  // ("S" is the same as "s", made with an explicit spin)
  // "u <algebra> idx..." is a generator of a user-defined algebra
  void read(script& sc) {
    std::string kind = sc.str();
    if(kind == "u") {
      int alg = int(sc.num());
      std::vector<comp> v;
      while(sc.more())
        v.push_back(read_comp(sc.str()));
      add(Cfg::template mkgen<user_generator<gen_t>>(v, alg, int(gens.size()) + 1));
      return;
    }
    int a1 = int(sc.num()), a2 = 0;
    if(kind == "s" || kind == "S") a2 = int(sc.num());
    std::vector<comp> idx;
    while(sc.more())
      idx.push_back(read_comp(sc.str()));
    gen_ptr g;
    if(kind == "f")
      g = Cfg::template mkgen<typename Cfg::fermion>(idx, bool(a1));
    else if(kind == "b")
      g = Cfg::template mkgen<typename Cfg::boson>(idx, bool(a1));
    else {
      auto comp_ = a2 == 0 ? libcommute::plus
                           : (a2 == 1 ? libcommute::minus : libcommute::z);
      if(a1 == 2 && kind == "s")
        g = Cfg::template mkgen<typename Cfg::spin>(idx, comp_);
      else
        g = Cfg::template mkgen<typename Cfg::spin>(idx,
                                                    (a1 - 1) / 2.0,
                                                    comp_);
    }
    add(g);
  }
  void add(gen_ptr const& g) {
    gens.push_back(g);
    user_generator<gen_t>::all().push_back(g);
    number[describe(*g)] = int(gens.size());
  }
  // "rule swap h g c k (coef gen)*", "rule red h g k (coef gen)*",
  // "rule pow g p k (coef gen)*", "rule conj g k (coef gen)*"
  void read_rule(script& sc) {
    std::string kind = sc.str(), n;
    lin_rule r;
    auto read_num = [&](std::string const& t, std::string& d) {
      libcommute::var_number x = ::read_num(t, d);
      if(x.number_type == libcommute::var_number::real) floats = true;
      if(x.number_type == libcommute::var_number::rational) fractions = true;
      return x;
    };
    int h = int(sc.num()), g = kind == "conj" ? 0 : int(sc.num());
    std::string j = "{\"h\":" + std::to_string(h) + ",\"g\":" + std::to_string(g);
    if(kind == "swap") {
      r.c = read_num(sc.str(), n);
      j += ",\"c\":" + n;
    }
    r.k = read_num(sc.str(), n);
    j += ",\"k\":" + n + ",\"l\":[";
    bool first = true;
    while(sc.more()) {
      auto x = read_num(sc.str(), n);
      int y = int(sc.num());
      j += std::string(first ? "" : ",") + "[" + n + "," + std::to_string(y) + "]";
      first = false;
      r.l.emplace_back(y, x);
    }
    j += "]}";
    if(kind == "swap") {
      rules().swap[{h, g}] = r;
      jrules[0].push_back(j);
    } else if(kind == "red") {
      rules().red[{h, g}] = r;
      jrules[1].push_back(j);
    } else if(kind == "pow") {
      rules().pow[{h, g}] = r;
      jrules[2].push_back(j);
    } else {
      rules().conj[h] = r;
      jrules[3].push_back(j);
    }
  }
  std::string rules_header() const {
    return std::string("\"fl\":") + (floats ? "true" : "false") + ",\"fr\":" +
           (fractions ? "true" : "false") + ",\"swaps\":" + jstrs(jrules[0]) + ",\"reds\":" + jstrs(jrules[1]) +
           ",\"pows\":" + jstrs(jrules[2]) + ",\"conjs\":" + jstrs(jrules[3]);
  }
  // 0 for a generator outside of the universe
  int id(gen_t const& g) const {
    auto it = number.find(describe(g));
    return it == number.end() ? 0 : it->second;
  }
  std::string header() const {
    std::vector<std::string> v;
    for(auto const& g : gens)
      v.push_back(describe(*g));
    return jstrs(v);
  }
  std::string jmon(typename Cfg::monomial_t const& m) const {
    std::vector<int> v;
    for(auto const& g : m)
      v.push_back(id(g));
    return jvec(v);
  }
  template <typename E> std::string jexpr(E const& e) const {
    return jexpr(e, [](typename E::scalar_type const& c) { return c; });
  }
  // with the coefficients transformed by f
  template <typename E, typename F> std::string jexpr(E const& e, F&& f) const {
    std::vector<std::string> v;
    for(auto const& t : e)
      v.push_back("[" + js(conv(f(t.coeff))) + "," + jmon(t.monomial) + "]");
    return jstrs(v);
  }
  typename Cfg::monomial_t mono(std::vector<int> const& w) const {
    std::vector<gen_ptr> v;
    for(int k : w)
      v.push_back(gens.at(k - 1));
    return typename Cfg::monomial_t(v);
  }
};

#endif
