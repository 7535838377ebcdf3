// The same operators act on states kept in all kinds of storage.
#define EIGEN
#include "linop.hpp"
#include <functional>

using namespace libcommute;
using op_t = loperator<S, fermion, boson, spin>;
using vec_t = Eigen::Matrix<V, Eigen::Dynamic, 1>;
using mat_t = Eigen::Matrix<V, Eigen::Dynamic, Eigen::Dynamic>;
using rmat_t = Eigen::Matrix<V, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
static char const* KINDS[] = {"vec", "sparse", "eigen", "segment", "column", "map", "block",
                              "comp", "compmap", "nfs", "nfms", "mapped", "mappedseg"};
static constexpr int NK = 13;

// What a storage has to hold: indices of the states
struct domain_t {
  std::vector<sv_index_type> idx;
  unsigned int N = 0;                                // particles
  std::vector<sector_descriptor<hspace>> sectors;    // with their particle numbers
  bool ok = true;                                    // does the kind fit
};

sv_index_type fermion_mask() {
  sv_index_type m = 0;
  for(std::size_t q = 0; q < lay().lo.size(); ++q)
    if(lay().alg[q] == fermion) m |= sv_index_type(1) << lay().lo[q];
  return m;
}
int pop(sv_index_type x) {
  int n = 0;
  for(; x; x &= x - 1)
    ++n;
  return n;
}
// particle numbers of a set of states, if the kind of storage wants them
void prepare(int kind, domain_t& d, bool half) {
  if(kind == 9 || kind == 10) {
    if(lay().hs.is_sparse() || lay().total() == 0) {
      d.ok = false;
      return;
    }
    sv_index_type m = fermion_mask(), a = 0;
    if(kind == 10) {
      // one sector of every second fermion, another one of some of the rest
      std::set<typename hspace::index_types> i1, i2;
      sv_index_type m1 = 0, m2 = 0;
      int n = 0;
      for(std::size_t q = 0; q < lay().lo.size(); ++q)
        if(lay().alg[q] == fermion) {
          auto const& e = *eu().es[lay().order[q] - 1];
          if(n % 2 == 0) {
            i1.insert(e.indices());
            m1 |= sv_index_type(1) << lay().lo[q];
          } else if(!half || n % 4 == 1) {
            i2.insert(e.indices());
            m2 |= sv_index_type(1) << lay().lo[q];
          }
          ++n;
        }
      sv_index_type i0 = d.idx.empty() ? 0 : d.idx[0];
      for(auto i : d.idx)
        if(pop(i & m1) != pop(i0 & m1) || pop(i & m2) != pop(i0 & m2)) d.ok = false;
      if(m1) d.sectors.push_back({i1, (unsigned int)(pop(i0 & m1))});
      if(m2) d.sectors.push_back({i2, (unsigned int)(pop(i0 & m2))});
    } else {
      d.N = d.idx.empty() ? 0 : pop(d.idx[0] & m);
      for(auto i : d.idx)
        if(pop(i & m) != int(d.N)) d.ok = false;
    }
  }
}

// Call f with a storage of the given kind whose elements are all equal to
// `fill`. `put` of f's second argument stores an amplitude
template <int K, bool Const, typename F> void with(domain_t const& dom, V fill, F&& f) {
  auto const& hs = lay().hs;
  auto n = Eigen::Index(sv_index_type(1) << lay().total());
  auto view = [&](auto& store, auto&& mk, auto&& mkc) {
    auto w = mk(store);
    auto put = [&](sv_index_type i, V x) {
      if constexpr(K >= 11)
        store[w.map.at(i)] = x;
      else
        store[w.map_index(i)] = x;
    };
    if constexpr(Const) {
      auto c = mkc(store);
      f(c, put);
    } else
      f(w, put);
  };
  if constexpr(K == 0) {
    std::vector<V> x(n, fill);
    f(x, [&](sv_index_type i, V v) { x[i] = v; });
  } else if constexpr(K == 1) {
    sparse_state_vector<V> x(n);
    if(fill != V(0))
      for(auto i : dom.idx)
        x[i] = fill;
    f(x, [&](sv_index_type i, V v) { x[i] = v; });
  } else if constexpr(K == 2) {
    vec_t x = vec_t::Constant(n, fill);
    f(x, [&](sv_index_type i, V v) { x(i) = v; });
  } else if constexpr(K == 3) {
    vec_t b = vec_t::Constant(n + 7, fill);
    auto x = b.segment(4, n);
    f(x, [&](sv_index_type i, V v) { x(i) = v; });
  } else if constexpr(K == 4) {
    mat_t b = mat_t::Constant(n, 3, fill);
    auto x = b.col(1);
    f(x, [&](sv_index_type i, V v) { x(i) = v; });
  } else if constexpr(K == 5) {
    std::vector<V> b(n + 2, fill);
    Eigen::Map<vec_t> x(b.data() + 1, n);
    f(x, [&](sv_index_type i, V v) { x(i) = v; });
  } else if constexpr(K == 6) {
    rmat_t b = rmat_t::Constant(n + 3, 4, fill);
    auto x = b.block(2, 1, n, 1);
    f(x, [&](sv_index_type i, V v) { x(i, 0) = v; });
  } else if constexpr(K == 7) {
    std::vector<V> b(hs.dim(), fill);
    view(b, [&](auto& s) { return make_comp_state_view(s, hs); },
         [&](auto& s) { return make_const_comp_state_view(s, hs); });
  } else if constexpr(K == 8) {
    std::vector<V> b(hs.dim(), fill);
    Eigen::Map<vec_t> m(b.data(), Eigen::Index(hs.dim()));
    view(b, [&](auto&) { return make_comp_state_view(Eigen::Map<vec_t>(m), hs); },
         [&](auto&) { return make_const_comp_state_view(Eigen::Map<vec_t>(m), hs); });
  } else if constexpr(K == 9) {
    std::vector<V> b(n_fermion_sector_size(hs, dom.N), fill);
    view(b, [&](auto& s) { return make_nfs_view(s, hs, dom.N); },
         [&](auto& s) { return make_const_nfs_view(s, hs, dom.N); });
  } else if constexpr(K == 10) {
    vec_t b = vec_t::Constant(n_fermion_multisector_size(hs, dom.sectors), fill);
    view(b, [&](auto& s) { return make_nfms_view(s, hs, dom.sectors); },
         [&](auto& s) { return make_const_nfms_view(s, hs, dom.sectors); });
  } else {
    basis_mapper mapper(dom.idx);
    if constexpr(K == 11) {
      std::vector<V> b(mapper.size(), fill);
      view(b, [&](auto& s) { return mapper.make_view(s); },
           [&](auto& s) { return mapper.make_const_view(s); });
    } else {
      vec_t b = vec_t::Constant(mapper.size() + 5, fill);
      auto seg = b.segment(3, Eigen::Index(mapper.size()));
      using seg_t = decltype(seg);
      view(seg, [&](auto&) { return mapper.make_view(seg_t(seg)); },
           [&](auto&) { return mapper.make_const_view(seg_t(seg)); });
    }
  }
}

struct call_t {
  op_t const& op;
  state_t const& s;
  domain_t src, dst;
  digits_t ref;
  state_t out;
  bool done = false;
};
// views of sources are constant, except for some of those with results in a
// standard vector
template <int K, int L, bool Const = (K >= 7)> void act(call_t& c) {
  if constexpr(Const && L == 0)
    if(c.s.size() % 2) return act<K, L, false>(c);
  with<K, Const>(c.src, V(0), [&](auto& src, auto&& put) {
    for(auto const& a : c.s)
      put(lay().encode(a.d), amplitude(a.c, lay().norm(a.d, c.ref)));
    with<L, false>(c.dst, V(3), [&](auto& dst, auto&&) {
      c.op(src, dst);
      collector out{c.ref, {}};
      foreach(dst, [&](sv_index_type i, V const& x) {
        out(i, x);
        if(get_element(dst, i) != x) out.out.push_back({c.ref, bad()});
      });
      c.out = out.out;
      c.done = true;
    });
  });
}
using fn = void (*)(call_t&);
static constexpr bool wanted(int k, int l) {
  return l <= 0 || k <= 0 || k == l || (k + 2 * l) % 5 == 0;
}
static fn table[NK][NK];
template <int K, int L> void fill_table() {
  if constexpr(wanted(K, L)) table[K][L] = &act<K, L>;
  if constexpr(L + 1 < NK)
    fill_table<K, L + 1>();
  else if constexpr(K + 1 < NK)
    fill_table<K + 1, 0>();
}

int main() {
  fill_table<0, 0>();
  script sc(std::cin);
  session se;
  std::map<int, op_t> ops;
  std::map<int, std::vector<op_t>> parts;  // operators of the monomials one by one
  while(sc.next()) {
    std::string op = sc.str();
    if(op == "hs") {
      ops.clear();
      parts.clear();
    }
    if(se.common(sc, op)) continue;
    if(op == "op") {
      int t = int(sc.num());
      expr_t e = make_expr<S>(read_terms(sc));
      ops.erase(t);
      ops.emplace(t, op_t(e, lay().hs));
      parts[t].clear();
      for(auto const& m : e)
        parts[t].emplace_back(expr_t(S(1), m.monomial), lay().hs);
      emit("{\"e\":\"op\",\"t\":" + std::to_string(t) + ",\"al\":[-3,-2,-1],\"p\":" +
           jop(e) + ",\"x\":[\"\",0]}");
    } else if(op == "act") {
      // act t state ; state ...   with all pairs of storages that fit
      int t = int(sc.num());
      auto const& o = ops.at(t);
      std::vector<state_t> ss;
      while(sc.more())
        ss.push_back(read_state(sc));
      for(auto const& s : ss) {
        if(s.empty()) continue;
        std::set<sv_index_type> in, im;
        std::vector<V> v(sv_index_type(1) << lay().total(), V(0));
        for(auto const& a : s)
          in.insert(lay().encode(a.d));
        // states that can be reached by a term, even if terms cancel
        for(auto i : in)
          for(auto const& m : parts.at(t)) {
            std::vector<V> b(v.size(), V(0));
            b[i] = V(1);
            foreach(m(b), [&](sv_index_type j, V const&) { im.insert(j); });
          }
        std::vector<std::string> js_, jr, pairs;
        for(int k = 0; k < NK; ++k)
          for(int l = 0; l < NK; ++l) {
            if(!table[k][l]) continue;
            call_t c{o, s, {}, {}, s[0].d, {}, false};
            c.src.idx.assign(in.rbegin(), in.rend());
            c.dst.idx.assign(im.begin(), im.end());
            prepare(k, c.src, false);
            prepare(l, c.dst, true);
            if(!c.src.ok || !c.dst.ok) continue;
            table[k][l](c);
            if(!c.done) continue;
            pairs.push_back(std::string("\"") + KINDS[k] + " " + KINDS[l] + "\"");
            js_.push_back(jstate(s));
            jr.push_back(jstate(c.out));
          }
        // equal results are reported once
        std::map<std::string, std::string> seen;
        for(std::size_t j = 0; j < jr.size(); ++j) {
          std::vector<std::string> parts;
          auto& e = seen[jr[j]];
          e += (e.empty() ? "" : ",") + pairs[j];
        }
        for(auto const& p : seen)
          emit("{\"e\":\"act\",\"t\":" + std::to_string(t) + ",\"k\":[" + p.second + "],\"s\":[" +
               js_[0] + "],\"r\":[" + p.first + "]}");
      }
    } else {
      std::cerr << "script error: unknown operation " << op << "\n";
      return 3;
    }
  }
  se.put_header();
  return 0;
}
