// Views of state vectors: sectors, multisectors, compressed views, mappings.
#define EIGEN
#include "linop.hpp"
#include <functional>
#include <memory>

using namespace libcommute;
using op_t = loperator<S, fermion, boson, spin>;
using vec_t = Eigen::Matrix<V, Eigen::Dynamic, 1>;
using seg_t = Eigen::VectorBlock<vec_t>;
using idx_t = std::vector<sv_index_type>;
using sectors_t = std::vector<sector_descriptor<hspace>>;

// Ranking algorithms, the first of them is the one factories use
template <typename F> void each_algorithm(bool trie, bool staggered12, F&& f) {
  f("comb", static_cast<combination_ranking*>(nullptr));
  f("stag1", static_cast<staggered_ranking<1>*>(nullptr));
  f("stag2", static_cast<staggered_ranking<2>*>(nullptr));
  f("stag3", static_cast<staggered_ranking<3>*>(nullptr));
  f("stag5", static_cast<staggered_ranking<5>*>(nullptr));
  f("stag8", static_cast<staggered_ranking<8>*>(nullptr));
  if(staggered12) f("stag12", static_cast<staggered_ranking<12>*>(nullptr));
  if(!trie) return;
  f("trie1", static_cast<trie_ranking<1>*>(nullptr));
  f("trie2", static_cast<trie_ranking<2>*>(nullptr));
  f("trie3", static_cast<trie_ranking<3>*>(nullptr));
  f("trie4", static_cast<trie_ranking<4>*>(nullptr));
  f("trie7", static_cast<trie_ranking<7>*>(nullptr));
}

// A vector of enormous size: the n-th element is n + 1
struct lazy_sv {};
namespace libcommute {
template <> struct element_type<lazy_sv> {
  using type = i64;
};
template <> struct element_type<lazy_sv const> {
  using type = i64;
};
} // namespace libcommute
inline i64 get_element(lazy_sv const&, sv_index_type n) { return i64(n) + 1; }
struct enough {};

std::string q(std::string const& s) { return "\"" + s + "\""; }
std::string jdigits(sv_index_type i) { return jvec(lay().decode(i)); }
std::string jstates(idx_t const& st) {
  std::vector<std::string> v;
  for(auto i : st)
    v.push_back(jdigits(i));
  return jstrs(v);
}
// Name of the outcome of f
template <typename F> std::string outcome(F&& f) {
  try {
    f();
    return "";
  } catch(std::out_of_range const&) { return "out_of_range"; } catch(std::runtime_error const&) {
    return "runtime";
  } catch(std::exception const&) { return "other"; } catch(...) {
    return "alien";
  }
}

// What a view covers
struct domain_t {
  int kind = 0;   // 0 - sector, 1 - multisector, 2 - compressed, 3 - mapping
  unsigned int N = 0;
  sectors_t sectors;
  std::string desc;                      // of sectors
  std::shared_ptr<basis_mapper> mapper;
  idx_t st;                              // the state at each position
  std::shared_ptr<hspace> hs;
};

digits_t read_digits(std::string const& t) {
  digits_t d(lay().order.size(), 0);
  std::istringstream ss(t);
  std::string x;
  std::size_t j = 0;
  while(std::getline(ss, x, '.'))
    d.at(lay().given.at(j++)) = std::stoll(x);
  return d;
}

void read_sectors(script& sc, domain_t& dom) {
  std::vector<std::string> v;
  while(sc.more()) {
    unsigned int n = (unsigned int)(sc.num());
    std::set<typename hspace::index_types> ind;
    std::vector<int> l;
    while(sc.more()) {
      if(sc.tok[sc.pos] == ";") {
        sc.str();
        break;
      }
      l.push_back(int(sc.num()));
      ind.insert(eu().es.at(l.back() - 1)->indices());
    }
    dom.sectors.push_back({ind, n});
    v.push_back("[" + jvec(l) + "," + std::to_string(n) + "]");
  }
  dom.desc = jstrs(v);
}
std::string describe(domain_t const& d) {
  return d.kind == 0 ? "\"k\":\"nfs\",\"n\":" + std::to_string(d.N) :
         d.kind == 1 ? "\"k\":\"nfms\",\"s\":" + d.desc :
                       std::string("\"k\":\"comp\"");
}

// Call f with the type of a view of SV and a function to make it
template <typename SV, bool Ref, typename F> void each_view(domain_t const& dom, bool trie, F&& f) {
  auto const& hs = *dom.hs;
  if(dom.kind == 0)
    each_algorithm(trie, true, [&](char const* name, auto* a) {
      using A = typename std::remove_pointer<decltype(a)>::type;
      f(name, [&](auto&& sv) {
        return n_fermion_sector_view<SV, Ref, A>(std::forward<decltype(sv)>(sv), hs, dom.N);
      });
    });
  else if(dom.kind == 1)
    each_algorithm(trie, true, [&](char const* name, auto* a) {
      using A = typename std::remove_pointer<decltype(a)>::type;
      f(name, [&](auto&& sv) {
        return n_fermion_multisector_view<SV, Ref, A>(std::forward<decltype(sv)>(sv), hs,
                                                      dom.sectors);
      });
    });
  else {
    f("const", [&](auto&& sv) { return make_const_comp_state_view(sv, hs); });
    f("own", [&](auto&& sv) {
      return make_comp_state_view(typename std::remove_const<SV>::type(sv), hs);
    });
  }
}
// The translations of states by all algorithms
std::string maps(domain_t const& dom, idx_t const& st, bool wide, bool trie) {
  std::vector<std::string> v;
  lazy_sv sv;
  each_view<lazy_sv const, true>(dom, trie, [&](char const* name, auto&& mk) {
    auto view = mk(sv);
    auto const copy = view;
    std::vector<std::string> r;
    for(auto i : st) {
      auto n = copy.map_index(i);
      r.push_back(wide ? jwide(n) : jnum(n));
    }
    v.push_back("[" + q(name) + "," + jstrs(r) + "]");
  });
  return jstrs(v);
}

unsigned int modes() {
  unsigned int m = 0;
  for(auto a : lay().alg)
    m += a == fermion;
  return m;
}

// Storages
struct anycell {
  virtual ~anycell() {}
  virtual std::vector<V> raw() const = 0;
  virtual void write(sv_index_type p, V x) = 0;
};
struct anyview {
  domain_t dom;
  bool constant = false;
  virtual ~anyview() {}
  virtual bool owner() const = 0;
  virtual std::vector<V> raw() const = 0;
  virtual V get(sv_index_type i) const = 0;
  virtual void each(std::function<void(sv_index_type, V)> const& f) const = 0;
  virtual void update(sv_index_type i, V x) = 0;
  virtual void zero() = 0;
  virtual std::unique_ptr<anyview> copy() const = 0;
  idx_t const& st() const { return dom.st; }
};
template <typename W, bool Const, bool Owner> struct view_of : anyview {
  W w;
  view_of(W const& x, domain_t const& d) : w(x) {
    dom = d;
    constant = Const;
  }
  bool owner() const override { return Owner; }
  std::vector<V> raw() const override {
    std::vector<V> r;
    for(sv_index_type p = 0; p < dom.st.size(); ++p)
      r.push_back(get_element(w.state_vector, p));
    return r;
  }
  V get(sv_index_type i) const override { return get_element(w, i); }
  void each(std::function<void(sv_index_type, V)> const& f) const override { foreach(w, f); }
  void update(sv_index_type i, V x) override {
    if constexpr(!Const) {
      if(i % 2)
        update_add_element(w, i, x);
      else {
        V const y = x;
        update_add_element(w, i, y);
      }
    }
  }
  void zero() override {
    if constexpr(!Const) set_zeros(w);
  }
  std::unique_ptr<anyview> copy() const override {
    W c = w;
    return std::unique_ptr<anyview>(new view_of(c, dom));
  }
};
template <bool Const, bool Owner, typename W>
std::unique_ptr<anyview> wrap(W const& w, domain_t const& dom) {
  return std::unique_ptr<anyview>(new view_of<W, Const, Owner>(w, dom));
}
// SV&&: lvalues are referred to, rvalues are moved into the view. Owner: the
// view keeps the amplitudes
template <bool Const, bool Owner, typename SV>
std::unique_ptr<anyview> make(domain_t const& dom, SV&& sv, int alg) {
  constexpr bool ref = std::is_lvalue_reference<SV>::value;
  using T = typename std::remove_reference<SV>::type;
  using C = typename std::conditional<Const, T const, T>::type;
  auto const& hs = *dom.hs;
  if(dom.kind == 2) {
    if constexpr(Const)
      return wrap<Const, Owner>(make_const_comp_state_view(std::forward<SV>(sv), hs), dom);
    else
      return wrap<Const, Owner>(make_comp_state_view(std::forward<SV>(sv), hs), dom);
  }
  if(dom.kind == 3) {
    if constexpr(Const)
      return wrap<Const, Owner>(dom.mapper->make_const_view(std::forward<SV>(sv)), dom);
    else
      return wrap<Const, Owner>(dom.mapper->make_view(std::forward<SV>(sv)), dom);
  }
  if(dom.kind == 0) {
    if(alg == 1)
      return wrap<Const, Owner>(
          n_fermion_sector_view<C, ref, staggered_ranking<3>>(std::forward<SV>(sv), hs, dom.N), dom);
    if(alg == 2)
      return wrap<Const, Owner>(
          n_fermion_sector_view<C, ref, trie_ranking<2>>(std::forward<SV>(sv), hs, dom.N), dom);
    if constexpr(Const)
      return wrap<Const, Owner>(make_const_nfs_view(std::forward<SV>(sv), hs, dom.N), dom);
    else
      return wrap<Const, Owner>(make_nfs_view(std::forward<SV>(sv), hs, dom.N), dom);
  }
  if(alg == 1)
    return wrap<Const, Owner>(n_fermion_multisector_view<C, ref, staggered_ranking<2>>(
                                  std::forward<SV>(sv), hs, dom.sectors),
                              dom);
  if(alg == 2)
    return wrap<Const, Owner>(n_fermion_multisector_view<C, ref, trie_ranking<3>>(
                                  std::forward<SV>(sv), hs, dom.sectors),
                              dom);
  if constexpr(Const)
    return wrap<Const, Owner>(make_const_nfms_view(std::forward<SV>(sv), hs, dom.sectors), dom);
  else
    return wrap<Const, Owner>(make_nfms_view(std::forward<SV>(sv), hs, dom.sectors), dom);
}
template <typename T> struct cell_of : anycell {
  T sv;
  sv_index_type n;
  cell_of(T const& x, sv_index_type n_) : sv(x), n(n_) {}
  std::vector<V> raw() const override {
    std::vector<V> r;
    for(sv_index_type p = 0; p < n; ++p)
      r.push_back(get_element(sv, p));
    return r;
  }
  void write(sv_index_type p, V x) override { sv[p] = x; }
  std::unique_ptr<anyview> view(domain_t const& dom, bool con, bool own, int alg) {
    if(own) {
      T x = sv;
      return con ? make<true, true>(dom, std::move(x), alg) : make<false, true>(dom, std::move(x), alg);
    }
    return con ? make<true, false>(dom, sv, alg) : make<false, false>(dom, sv, alg);
  }
};
// a segment refers to a part of a vector, also if the view has its own segment
struct cell_seg : anycell {
  vec_t v;
  seg_t sv;
  sv_index_type n;
  explicit cell_seg(std::vector<V> const& x)
    : v(vec_t::Constant(Eigen::Index(x.size()) + 5, V(7))), sv(v.segment(3, Eigen::Index(x.size()))),
      n(x.size()) {
    for(sv_index_type p = 0; p < n; ++p)
      sv(Eigen::Index(p)) = x[p];
  }
  std::vector<V> raw() const override {
    std::vector<V> r;
    for(sv_index_type p = 0; p < n; ++p)
      r.push_back(sv(Eigen::Index(p)));
    for(Eigen::Index p = 0; p < v.size(); ++p)
      if((p < 3 || p >= 3 + Eigen::Index(n)) && v(p) != V(7)) r.push_back(v(p));
    return r;
  }
  void write(sv_index_type p, V x) override { sv(Eigen::Index(p)) = x; }
  std::unique_ptr<anyview> view(domain_t const& dom, bool con, bool tmp, int alg) {
    if(tmp) {
      return con ? make<true, false>(dom, v.segment(3, Eigen::Index(n)), alg) :
                   make<false, false>(dom, v.segment(3, Eigen::Index(n)), alg);
    }
    return con ? make<true, false>(dom, sv, alg) : make<false, false>(dom, sv, alg);
  }
};
using cell_vec = cell_of<std::vector<V>>;
using cell_sparse = cell_of<sparse_state_vector<V>>;
using cell_eigen = cell_of<vec_t>;

std::string jvals(std::vector<V> const& x) {
  std::vector<std::string> v;
  for(auto const& a : x)
    v.push_back(js(conv(a)));
  return jstrs(v);
}

// generator of arbitrary states
struct rnd {
  std::uint64_t s;
  std::uint64_t operator()() {
    s ^= s << 13;
    s ^= s >> 7;
    s ^= s << 17;
    return s;
  }
  std::uint64_t below(std::uint64_t n) { return (*this)() % n; }
};

int main() {
  script sc(std::cin);
  session se;
  std::map<int, op_t> ops;
  int unit = 0;
  std::map<int, std::unique_ptr<anycell>> cells;
  std::map<int, std::unique_ptr<anyview>> views;
  std::map<int, int> owned;   // cell -> view
  std::map<int, int> cell_of_view;
  domain_t dom;

  auto show = [&](int v) {
    std::map<int, std::vector<V>> all;
    for(auto const& c : cells)
      all[c.first] = c.second->raw();
    for(auto const& o : owned)
      all[o.first] = views.at(o.second)->raw();
    std::vector<std::string> r;
    for(auto const& a : all)
      r.push_back("[" + std::to_string(a.first) + "," + jvals(a.second) + "]");
    std::string s = ",\"v\":" + std::to_string(v) + ",\"raw\":" + jstrs(r);
    std::vector<V> g;
    std::vector<std::string> fe;
    if(v) {
      auto const& w = *views.at(v);
      for(auto i : w.st())
        g.push_back(w.get(i));
      w.each([&](sv_index_type i, V x) { fe.push_back("[" + jdigits(i) + "," + js(conv(x)) + "]"); });
    }
    return s + ",\"get\":" + jvals(g) + ",\"fe\":" + jstrs(fe) + "}";
  };
  auto num = [](int x) { return std::to_string(x); };

  while(sc.next()) {
    std::string op = sc.str();
    if(op == "hs") {
      ops.clear();
      unit = 0;
      views.clear();
      cells.clear();
      owned.clear();
      cell_of_view.clear();
      dom = domain_t();
    }
    if(se.common(sc, op)) continue;
    if(op == "unit") {
      // All amplitudes of the following operators are given in units of 2^k
      unit = int(sc.num());
    } else if(op == "op") {
      int t = int(sc.num());
      expr_t e = make_expr<S>(read_terms(sc));
      ops.erase(t);
      ops.emplace(t, op_t(e * std::ldexp(1.0, unit), lay().hs));
      emit("{\"e\":\"op\",\"t\":" + num(t) + ",\"p\":" + jop(e) + "}");
    } else if(op == "nfs" || op == "nfms" || op == "comp") {
      domain_t d;
      d.hs = std::make_shared<hspace>(lay().hs);
      d.kind = op == "nfs" ? 0 : op == "nfms" ? 1 : 2;
      if(d.kind == 0) d.N = (unsigned int)(sc.num());
      if(d.kind == 1) read_sectors(sc, d);
      auto const& hs = *d.hs;
      if(d.kind == 2) {
        for(auto const& x : lay().all())
          d.st.push_back(lay().encode(x));
        std::string m = maps(d, d.st, false, false);
        emit("{\"e\":\"comp\",\"st\":" + jstates(d.st) + ",\"maps\":" + m + "}");
        lazy_sv sv;
        auto v = make_const_comp_state_view(sv, hs);
        idx_t by(d.st.size(), 0);
        for(auto i : d.st)
          if(v.map_index(i) < by.size()) by[v.map_index(i)] = i;
        d.st = by;
      } else {
        std::string x[3];
        sv_index_type size = 0;
        x[0] = outcome([&]() {
          size = d.kind == 0 ? n_fermion_sector_size(hs, d.N) : n_fermion_multisector_size(hs, d.sectors);
        });
        x[1] = outcome([&]() {
          d.st = d.kind == 0 ? n_fermion_sector_basis_states(hs, d.N) :
                               n_fermion_multisector_basis_states(hs, d.sectors);
        });
        lazy_sv sv;
        bool first = true;
        each_view<lazy_sv const, true>(d, true, [&](char const*, auto&& mk) {
          std::string o = outcome([&]() { (void)mk(sv); });
          x[2] = first || o == x[2] ? o : "varies";
          first = false;
        });
        emit("{\"e\":\"sector\"," + describe(d) + ",\"x\":[" + q(x[0]) + "," + q(x[1]) + "," + q(x[2]) +
             "],\"size\":" + jwide(size) + ",\"st\":" + jstates(d.st) + ",\"maps\":" +
             (x[2] == "" ? maps(d, d.st, false, true) : std::string("[]")) + "}");
      }
      dom = d;
    } else if(op == "maplist" || op == "mapop" || op == "mapcomps") {
      domain_t d;
      d.kind = 3;
      d.hs = std::make_shared<hspace>(lay().hs);
      idx_t st;
      std::vector<int> ts;
      int n = 0;
      if(op == "maplist") {
        while(sc.more())
          st.push_back(lay().encode(read_digits(sc.str())));
        d.mapper = std::make_shared<basis_mapper>(st);
      } else if(op == "mapop") {
        ts.push_back(int(sc.num()));
        d.mapper = std::make_shared<basis_mapper>(ops.at(ts[0]), *d.hs);
      } else {
        n = int(sc.num());
        std::vector<op_t> os;
        while(sc.more()) {
          ts.push_back(int(sc.num()));
          os.push_back(ops.at(ts.back()));
        }
        d.mapper = std::make_shared<basis_mapper>(os, *d.hs, (unsigned int)(n));
      }
      std::vector<std::string> m, inv;
      d.st.assign(d.mapper->map().size(), 0);
      for(auto const& p : d.mapper->map()) {
        m.push_back("[" + jdigits(p.first) + "," + jnum(p.second) + "]");
        if(p.second < d.st.size()) d.st[p.second] = p.first;
      }
      for(auto const& p : d.mapper->inverse_map())
        inv.push_back("[" + jdigits(p.second) + "," + jnum(p.first) + "]");
      emit("{\"e\":\"map\",\"k\":\"" + op.substr(3) + "\",\"ts\":" + jvec(ts) + ",\"n\":" + num(n) +
           ",\"st\":" + jstates(st) + ",\"size\":" + jnum(d.mapper->size()) + ",\"map\":" + jstrs(m) +
           ",\"inv\":" + jstrs(inv) + "}");
      dom = d;
    } else if(op == "some") {
      // some prefix samples listed seed (nfs N | nfms ... | comp)
      // listed < 0: the samples are drawn uniformly
      int prefix = int(sc.num()), samples = int(sc.num()), listed = int(sc.num());
      rnd r{sc.unum()};
      for(int k = 0; k < 20; ++k)
        r();
      std::string kind = sc.str();
      domain_t d;
      d.hs = std::make_shared<hspace>(lay().hs);
      d.kind = kind == "nfs" ? 0 : kind == "nfms" ? 1 : 2;
      if(d.kind == 0) d.N = (unsigned int)(sc.num());
      if(d.kind == 1) read_sectors(sc, d);
      auto const& hs = *d.hs;
      sv_index_type size = d.kind == 0 ? n_fermion_sector_size(hs, d.N) :
                           d.kind == 1 ? n_fermion_multisector_size(hs, d.sectors) :
                                         hs.dim();
      bool trie = modes() <= 18;
      // an iteration that is broken off
      idx_t all;
      std::vector<std::string> pre;
      lazy_sv sv;
      auto visit = [&](sv_index_type i, i64 x) {
        if(int(pre.size()) == prefix) throw enough();
        pre.push_back("[" + jdigits(i) + "," + jwide(std::uint64_t(x - 1)) + "]");
        all.push_back(i);
      };
      bool first = true;
      each_view<lazy_sv const, true>(d, false, [&](char const*, auto&& mk) {
        if(!first) return;
        first = false;
        auto view = mk(sv);
        try {
          foreach(view, visit);
        } catch(enough const&) {}
      });
      // arbitrary states
      idx_t sm;
      for(int k = 0; k < samples; ++k) {
        digits_t x;
        for(auto n : lay().dim)
          x.push_back(i64(listed >= 0 && r() % 4 == 0 ? std::uint64_t(n - 1) - r.below(std::min<i64>(n, 3)) :
                                         r.below(std::uint64_t(n))));
        auto fill = [&](std::vector<std::size_t> modes, unsigned int N) {
          for(auto m : modes)
            x[m] = 0;
          // clustered or scattered
          int how = listed < 0 ? 3 : int(r.below(4));
          for(unsigned int n = 0; n < N; ++n) {
            std::size_t j = how == 0 ? 0 : how == 1 ? modes.size() - 1 : r.below(modes.size());
            x[modes[j]] = 1;
            modes.erase(modes.begin() + std::ptrdiff_t(j));
          }
        };
        if(d.kind == 0) {
          std::vector<std::size_t> m;
          for(std::size_t p = 0; p < x.size(); ++p)
            if(lay().alg[p] == fermion) m.push_back(p);
          fill(m, d.N);
        } else if(d.kind == 1) {
          for(auto const& s : d.sectors) {
            std::vector<std::size_t> m;
            for(std::size_t p = 0; p < x.size(); ++p)
              if(lay().alg[p] == fermion && s.indices.count(eu().es[lay().order[p] - 1]->indices()))
                m.push_back(p);
            fill(m, s.N);
          }
        }
        sm.push_back(lay().encode(x));
        all.push_back(sm.back());
      }
      // the complete list, if it is short enough: a part of it is shown
      std::vector<std::string> li;
      std::string len = "[]";
      std::vector<std::string> bad;
      if(listed > 0 && d.kind != 2) {
        idx_t st = d.kind == 0 ? n_fermion_sector_basis_states(hs, d.N) :
                                 n_fermion_multisector_basis_states(hs, d.sectors);
        len = jwide(st.size());
        for(int k = 0; k < listed; ++k) {
          sv_index_type n = r.below(st.size());
          li.push_back("[" + jdigits(st[n]) + "," + jwide(n) + "]");
          all.push_back(st[n]);
        }
        each_view<lazy_sv const, true>(d, trie, [&](char const* name, auto&& mk) {
          auto view = mk(sv);
          i64 b = 0;
          for(sv_index_type n = 0; n < st.size(); ++n)
            b += view.map_index(st[n]) != n;
          bad.push_back("[" + q(name) + "," + std::to_string(clampi(b)) + "]");
        });
      }
      emit("{\"e\":\"some\"," + describe(d) + ",\"size\":" + jwide(size) + ",\"pre\":" + jstrs(pre) +
           ",\"sm\":" + jstates(sm) + ",\"li\":" + jstrs(li) + ",\"len\":" + len + ",\"bad\":" +
           jstrs(bad) + ",\"spread\":" + (listed < 0 ? "true" : "false") + ",\"maps\":" + maps(d, all, true, trie) + "}");
    } else if(op == "cell") {
      // cell c storage seed: one value per state of the domain
      int c = int(sc.num()), kind = int(sc.num());
      rnd r{sc.unum()};
      std::vector<V> x;
      sv_index_type n = dom.st.size();
      for(sv_index_type p = 0; p < n; ++p) {
        for(int k = 0; k < 5; ++k)
          r();
        i64 re = i64(r.below(7)) - 3, im = i64(r.below(5)) - 2;
        x.push_back(r.below(3) == 0 ? V(0) : from_cq<V>::make(mk(re, im, 2)));
      }
      if(kind == 0)
        cells[c].reset(new cell_vec(x, n));
      else if(kind == 1) {
        sparse_state_vector<V> y(n);
        for(sv_index_type p = 0; p < n; ++p)
          if(x[p] != V(0)) y[p] = x[p];
        cells[c].reset(new cell_sparse(y, n));
      } else if(kind == 2) {
        vec_t y = vec_t::Zero(Eigen::Index(n));
        for(sv_index_type p = 0; p < n; ++p)
          y(Eigen::Index(p)) = x[p];
        cells[c].reset(new cell_eigen(y, n));
      } else
        cells[c].reset(new cell_seg(x));
      emit("{\"e\":\"cell\",\"c\":" + num(c) + ",\"x\":" + jvals(x) + show(0));
    } else if(op == "write") {
      int c = int(sc.num());
      sv_index_type p = sc.unum();
      cq x = sc.coef();
      auto n = cells.at(c)->raw().size();
      if(n == 0) continue;
      V y = from_cq<V>::make(x);
      cells.at(c)->write(p % n, y);
      emit("{\"e\":\"write\",\"c\":" + num(c) + ",\"p\":" + std::to_string(p % n) + ",\"x\":" +
           js(conv(y)) + show(0));
    } else if(op == "view") {
      // view v cell const own algorithm
      int v = int(sc.num()), c = int(sc.num());
      bool con = sc.num() != 0;
      int own = int(sc.num()), alg = int(sc.num());
      auto* p = cells.at(c).get();
      bool seg = dynamic_cast<cell_seg*>(p) != nullptr;
      if(auto* a = dynamic_cast<cell_vec*>(p))
        views[v] = a->view(dom, con, own != 0, alg);
      else if(auto* b = dynamic_cast<cell_sparse*>(p))
        views[v] = b->view(dom, con, own != 0, alg);
      else if(auto* d = dynamic_cast<cell_eigen*>(p))
        views[v] = d->view(dom, con, own != 0, alg);
      else
        views[v] = dynamic_cast<cell_seg*>(p)->view(dom, con, own != 0, alg);
      if(seg) own = 0;
      if(own) owned[own] = v;
      emit("{\"e\":\"view\",\"c\":" + num(c) + ",\"own\":" + num(own) + show(v));
    } else if(op == "vcopy") {
      int v = int(sc.num()), a = int(sc.num()), own = int(sc.num());
      views[v] = views.at(a)->copy();
      if(!views[v]->owner()) own = 0;
      if(own) owned[own] = v;
      emit("{\"e\":\"vcopy\",\"a\":" + num(a) + ",\"own\":" + num(own) + show(v));
    } else if(op == "upd") {
      int v = int(sc.num());
      sv_index_type p = sc.unum();
      V x = from_cq<V>::make(sc.coef());
      auto& w = *views.at(v);
      if(w.st().empty() || w.constant) continue;
      auto i = w.st()[p % w.st().size()];
      w.update(i, x);
      emit("{\"e\":\"upd\",\"d\":" + jdigits(i) + ",\"x\":" + js(conv(x)) + show(v));
    } else if(op == "zero") {
      int v = int(sc.num());
      if(views.at(v)->constant) continue;
      views.at(v)->zero();
      emit("{\"e\":\"zero\"" + show(v));
    } else if(op == "look") {
      emit("{\"e\":\"look\"" + show(int(sc.num())));
    } else if(op == "nest") {
      int v = int(sc.num());
      auto const& w = *views.at(v);
      std::vector<std::string> o, in;
      w.each([&](sv_index_type i, V x) {
        o.push_back("[" + jdigits(i) + "," + js(conv(x)) + "]");
        if(o.size() > 12) return;
        std::vector<std::string> l;
        w.each([&](sv_index_type j, V y) { l.push_back("[" + jdigits(j) + "," + js(conv(y)) + "]"); });
        in.push_back(jstrs(l));
      });
      emit("{\"e\":\"nest\",\"outer\":" + jstrs(o) + ",\"inner\":" + jstrs(in) + show(v));
    } else if(op == "break") {
      int v = int(sc.num()), n = int(sc.num());
      auto const& w = *views.at(v);
      std::vector<std::string> o;
      try {
        w.each([&](sv_index_type i, V x) {
          if(int(o.size()) == n) throw enough();
          o.push_back("[" + jdigits(i) + "," + js(conv(x)) + "]");
        });
      } catch(enough const&) {}
      emit("{\"e\":\"break\",\"n\":" + num(n) + ",\"some\":" + jstrs(o) + show(v));
    } else if(op == "out") {
      // states that a mapping does not know
      int v = int(sc.num());
      rnd r{sc.unum()};
      auto& w = *views.at(v);
      if(w.dom.kind != 3) continue;
      auto all = lay().all();
      for(int k = 0; k < 10; ++k)
        r();
      auto d = all[r.below(all.size())];
      auto i = lay().encode(d);
      if(std::find(w.st().begin(), w.st().end(), i) != w.st().end()) continue;
      std::vector<std::string> x;
      x.push_back(q(outcome([&]() { (void)w.get(i); })));
      if(!w.constant) x.push_back(q(outcome([&]() { w.update(i, V(1)); })));
      emit("{\"e\":\"out\",\"d\":" + jvec(d) + ",\"x\":" + jstrs(x) + show(v));
    } else {
      std::cerr << "script error: unknown operation " << op << "\n";
      return 3;
    }
  }
}
