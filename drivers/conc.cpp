// Calls which only read shared objects (or change objects of their own) are made
// by several threads at once, and inside one another.
#include "conc.hpp"
#define CFG idx_cfg<yint>
#define SCALAR yd
#include "linop.hpp"

#include <atomic>
#include <memory>
#include <random>

using namespace libcommute;
using idx_t = std::vector<sv_index_type>;
using op_t = loperator<yd, fermion, boson, spin>;
using dense = std::vector<yd>;
using sparse = sparse_state_vector<yd>;
using mon_t = cfg::monomial_t;

// A state vector of a user's type
struct user_sv {
  std::vector<yd> v;
};
namespace libcommute {
template <> struct element_type<user_sv> {
  using type = yd;
};
template <> struct element_type<user_sv const> {
  using type = yd;
};
} // namespace libcommute
inline yd get_element(user_sv const& s, sv_index_type n) { return yield_(), s.v.at(n); }
inline void update_add_element(user_sv& s, sv_index_type n, yd const& x) {
  yield_();
  s.v.at(n).x += x.x;
}
inline user_sv zeros_like(user_sv const& s) { return {std::vector<yd>(s.v.size())}; }
inline void set_zeros(user_sv& s) { std::fill(s.v.begin(), s.v.end(), yd(0)); }
template <typename F> inline void foreach(user_sv const& s, F&& f) {
  for(std::size_t n = 0; n < s.v.size(); ++n)
    if(s.v[n].x != 0) {
      yield_();
      f(sv_index_type(n), s.v[n]);
    }
}

// Coefficients of parametric operators: a + b x
struct lin {
  double a = 0, b = 0;
  yd operator()(double x) const { return yield_(), yd(a + b * x); }
  friend lin operator+(lin p, lin q) { return {p.a + q.a, p.b + q.b}; }
  friend lin operator-(lin p, lin q) { return {p.a - q.a, p.b - q.b}; }
  friend lin operator-(lin p) { return {-p.a, -p.b}; }
  lin& operator+=(lin q) { return *this = *this + q; }
  lin& operator-=(lin q) { return *this = *this - q; }
  friend lin operator*(lin p, lin q) { return {p.a * q.a, p.a * q.b + p.b * q.a}; }
};
namespace libcommute {
template <> struct scalar_traits<lin> {
  static bool is_zero(lin const& p) { return p.a == 0 && p.b == 0; }
  static lin make_const(double x) { return {x, 0}; }
  static lin make_const(var_number const& x) { return {double(x), 0}; }
  static lin conj(lin const& p) { return p; }
};
} // namespace libcommute
using pexpr_t = cfg::expr_t<lin>;
using pop_t = parametric_loperator<lin, fermion, boson, spin>;

// What has been declared
std::vector<int> l_hs, l_hsf;
std::vector<std::vector<term_t>> l_exprs;
int l_n = 1;
unsigned l_seed = 1;

std::string num(double x) {
  char b[40];
  std::snprintf(b, sizeof b, "%.17g", x);
  return b;
}
std::string num(yd const& x) { return num(x.x); }

// Shared objects
struct world {
  hspace hs, hsf;
  // the same spaces, which nobody has used yet
  hspace cold, coldf;
  std::vector<expr_t> e;
  std::vector<pexpr_t> pe;
  std::vector<op_t> l, lf;
  std::vector<pop_t> p;
  std::unique_ptr<space_partition<hspace>> sp;
  dense d, df, dn, dm, dc;
  sparse s{1}, sf{1};
  user_sv u, un;
  idx_t st, stm, some;
  int N = 1;
  std::vector<sector_descriptor<hspace>> sectors;
  std::unique_ptr<basis_mapper> bm;
  template <typename R> using nfs_t = n_fermion_sector_view<dense const, true, R>;
  template <typename R> using nfms_t = n_fermion_multisector_view<dense const, true, R>;
  std::unique_ptr<nfs_t<combination_ranking>> nfs1;
  std::unique_ptr<nfs_t<staggered_ranking<3>>> nfs2;
  std::unique_ptr<nfs_t<trie_ranking<2>>> nfs3;
  std::unique_ptr<nfms_t<combination_ranking>> nfms1;
  std::unique_ptr<nfms_t<staggered_ranking<2>>> nfms2;
  std::unique_ptr<nfms_t<trie_ranking<3>>> nfms3;
  std::unique_ptr<compressed_state_view<dense const, true>> comp;
  std::unique_ptr<mapped_basis_view<dense const, true>> mapped;

  world() {
    std::mt19937 rng(l_seed);
    auto amp = [&](int) { return yd(double(int(rng() % 9) - 4) / 2); };
    auto fill = [&](dense& v, std::size_t n) {
      for(std::size_t k = 0; k < n; ++k)
        v.push_back(amp(0));
    };
    for(int k : l_hs)
      hs.add(*eu().es.at(k - 1)), cold.add(*eu().es.at(k - 1));
    for(int k : l_hsf)
      hsf.add(*eu().es.at(k - 1)), coldf.add(*eu().es.at(k - 1));
    for(auto const& t : l_exprs) {
      e.push_back(make_expr<yd>(t));
      pexpr_t x;
      for(auto const& y : e.back())
        x += pexpr_t(lin{y.coeff.x, double(int(rng() % 5) - 2)}, y.monomial);
      pe.push_back(x);
    }
    // expressions of even numbers act in hs, others in hsf
    for(std::size_t k = 0; k < e.size(); ++k) {
      (k % 2 ? lf : l).emplace_back(e[k], k % 2 ? hsf : hs);
      if(k % 2 == 0) p.emplace_back(pe[k], hs);
    }
    expr_t h = e[0] + conj(e[0]);
    sp.reset(new space_partition<hspace>(op_t(h, hs), hs));
    fill(d, get_vec_size(hs));
    fill(u.v, get_vec_size(hs));
    s = sparse(get_vec_size(hs));
    foreach(hs, [&](sv_index_type i) {
      some.push_back(i);
      if(rng() % 2) s[i] = amp(0);
    });
    // components outside of the space are zero
    std::set<sv_index_type> in(some.begin(), some.end());
    for(std::size_t i = 0; i < d.size(); ++i)
      if(!in.count(i)) d[i] = u.v[i] = yd(0);
    fill(dc, hs.dim());
    N = l_n;
    st = n_fermion_sector_basis_states(hsf, N);
    fill(dn, st.size());
    fill(un.v, st.size());
    std::set<hspace::index_types> a, b;
    hsf.foreach_elementary_space([&](base const& x) {
      if(x.algebra_id() == fermion && a.size() < 5) (a.size() <= b.size() ? a : b).insert(x.indices());
    });
    sectors.push_back({a, 1});
    if(!b.empty()) sectors.push_back({b, unsigned(b.size() > 1)});
    stm = n_fermion_multisector_basis_states(hsf, sectors);
    fill(dm, stm.size());
    nfs1.reset(new nfs_t<combination_ranking>(dn, hsf, N));
    nfs2.reset(new nfs_t<staggered_ranking<3>>(dn, hsf, N));
    nfs3.reset(new nfs_t<trie_ranking<2>>(dn, hsf, N));
    nfms1.reset(new nfms_t<combination_ranking>(dm, hsf, sectors));
    nfms2.reset(new nfms_t<staggered_ranking<2>>(dm, hsf, sectors));
    nfms3.reset(new nfms_t<trie_ranking<3>>(dm, hsf, sectors));
    bm.reset(new basis_mapper(stm));
    mapped.reset(new mapped_basis_view<dense const, true>(bm->make_const_view(dm)));
    comp.reset(new compressed_state_view<dense const, true>(make_const_comp_state_view(dc, hs)));
    fill(df, get_vec_size(hsf));
    sf = sparse(get_vec_size(hsf));
    foreach(hsf, [&](sv_index_type i) {
      if(rng() % 2) sf[i] = amp(0);
    });
  }
};

template <typename E> std::string sexpr(E const& e) {
  std::string r;
  for(auto const& t : e)
    r += num(t.coeff) + uni().jmon(t.monomial) + " ";
  return r;
}
template <typename SV> std::string ssv(SV const& v) {
  std::string r;
  foreach(v, [&](sv_index_type i, yd const& x) { r += std::to_string(i) + ":" + num(x) + " "; });
  return r;
}
std::string sidx(idx_t const& v) {
  std::string r;
  for(auto i : v)
    r += std::to_string(i) + " ";
  return r;
}
std::string smap(std::unordered_map<sv_index_type, sv_index_type> const& m) {
  std::map<sv_index_type, sv_index_type> o(m.begin(), m.end());
  std::string r;
  for(auto const& p : o)
    r += std::to_string(p.first) + ">" + std::to_string(p.second) + " ";
  return r;
}
template <typename VW> std::string sview(VW const& w, idx_t const& st, int how) {
  std::string r;
  if(how == 0)
    foreach(w, [&](sv_index_type i, yd const& x) {
      r += std::to_string(i) + ":" + num(x) + " ";
      yield_();
    });
  else
    for(auto i : st) {
      yield_();
      yd x = get_element(w, i);
      r += num(x) + (how == 1 ? " " : "/");
    }
  return r;
}

// The result of call k as a text
std::string perform(world const& w, std::vector<std::string> const& tok) {
  std::string const& op = tok[0];
  auto arg = [&](std::size_t k) { return k < tok.size() ? std::stoi(tok[k]) : 0; };
  auto E = [&](std::size_t k) -> expr_t const& { return w.e[arg(k) % w.e.size()]; };
  auto L = [&](std::size_t k) -> op_t const& { return w.l[arg(k) % w.l.size()]; };
  auto LF = [&](std::size_t k) -> op_t const& { return w.lf[arg(k) % w.lf.size()]; };
  auto P = [&](std::size_t k) -> pop_t const& { return w.p[arg(k) % w.p.size()]; };
  if(op == "add") return sexpr(E(1) + E(2));
  if(op == "sub") return sexpr(E(1) - E(2));
  if(op == "mul") return sexpr(E(1) * E(2));
  if(op == "muls") return sexpr(yd(3) * E(1)) + sexpr(E(1) * yd(2)) + sexpr(E(1) - yd(1));
  if(op == "conj") return sexpr(conj(E(1)));
  if(op == "hc") return sexpr(E(1) + hc);
  if(op == "neg") return sexpr(-E(1));
  if(op == "eq") return std::to_string(int(E(1) == E(2)) + 2 * int(E(1) != E(2)));
  if(op == "print") {
    std::ostringstream os;
    os << E(1);
    return os.str();
  }
  if(op == "tr")
    return sexpr(transform(E(1), [&](mon_t const& m, yd const& c) {
      yield_();
      return yd(c.x * double(m.size()));
    }));
  if(op == "acc") {
    // a copy is changed
    expr_t x = E(1);
    x += E(2);
    x *= E(2);
    x -= E(1);
    return sexpr(x);
  }
  if(op == "order") {
    std::string r;
    for(auto const& a : E(1))
      for(auto const& b : E(2))
        r += (a.monomial < b.monomial ? "<" : a.monomial > b.monomial ? ">" : a.monomial == b.monomial ? "=" : "?");
    return r;
  }
  if(op == "hs") {
    std::string r;
    hspace h(arg(1) % 2 ? w.coldf : w.cold);
    return eu().dump(h);
  }
  if(op == "hsq") {
    // look-ups in the shared space
    std::string r;
    hspace const& h = arg(1) % 2 ? w.coldf : w.cold;
    hspace own(h);
    for(auto const& x : eu().es) {
      if(!h.has(*x)) {
        try {
          (void)h.index(*x);
        } catch(std::exception const& y) { r += "no "; }
        continue;
      }
      r += std::to_string(h.index(*x)) + "," + std::to_string(h.bit_range(*x).first) + "," +
           std::to_string(h.dim(*x)) + "," + std::to_string(own.basis_state_index(*x, x->dim() - 1)) + " ";
    }
    return r + std::to_string(h.dim()) + "," + std::to_string(h.total_n_bits()) +
           (w.cold == w.coldf ? "=" : "!") + (h == hspace(h) ? "=" : "!");
  }
  if(op == "each") {
    idx_t v;
    foreach(arg(1) % 2 ? w.coldf : w.cold, [&](sv_index_type i) {
      v.push_back(i);
      yield_();
    });
    return sidx(v);
  }
  if(op == "mkhs") {
    hspace h(E(1), boson_es_constructor(3));
    return eu().dump(h);
  }
  if(op == "addhs") {
    hspace h(w.hs);
    std::string r;
    for(auto const& x : eu().es)
      try {
        h.add(*x);
      } catch(std::exception const& y) { r += "x"; }
    return r + eu().dump(h);
  }
  if(op == "mkop") {
    // may be refused
    op_t l(E(1), w.hs);
    return ssv(l(w.s));
  }
  if(op == "act") {
    if(arg(2) == 0) return ssv(L(1)(w.d));
    if(arg(2) == 1) return ssv(L(1) * w.s);
    if(arg(2) == 2) return ssv(L(1)(w.u));
    if(arg(2) == 3) {
      dense dst(w.d.size(), yd(5));
      L(1)(w.s, dst);
      return ssv(dst);
    }
    op_t l(L(1));
    sparse dst(w.d.size());
    l(w.u, dst);
    return ssv(dst);
  }
  if(op == "actb") {
    // on each basis state
    std::string r;
    for(auto i : w.some) {
      sparse v(w.d.size());
      v[i] = yd(1);
      r += ssv(L(1)(v)) + ";";
    }
    return r;
  }
  if(op == "pact") {
    double x = arg(3);
    if(arg(2) == 0) return ssv(P(1)(w.d, x));
    if(arg(2) == 1) return ssv(P(1)(w.s, x));
    if(arg(2) == 2) {
      sparse dst(w.d.size());
      std::vector<yd> c;
      P(1).act_and_store_coeffs(w.s, dst, c, x);
      std::string r = ssv(dst);
      for(auto const& y : c)
        r += num(y) + " ";
      return r;
    }
    auto l = P(1).at(x);
    return ssv(l(w.u));
  }
  if(op == "part") {
    std::string r;
    auto const& sp = *w.sp;
    if(arg(1) == 0)
      for(auto i : w.some)
        r += std::to_string(sp[i]) + " ";
    else if(arg(1) == 1)
      foreach(sp, [&](sv_index_type i, sv_index_type k) {
        yield_();
        r += std::to_string(i) + ">" + std::to_string(k) + " ";
      });
    else if(arg(1) == 2)
      for(auto const& b : sp.subspace_bases())
        r += sidx(b) + ";";
    else if(arg(1) == 3)
      for(sv_index_type k = 0; k < sp.n_subspaces(); ++k)
        r += sidx(sp.subspace_basis(k)) + ";";
    else if(arg(1) == 4) {
      try {
        r += std::to_string(sp[w.d.size() - 1]);
      } catch(std::exception const& x) { r += "x"; }
    }
    return r + std::to_string(sp.n_subspaces()) + "," + std::to_string(sp.dim());
  }
  if(op == "conn") {
    std::string r;
    for(auto const& c : w.sp->find_connections(L(1)))
      r += std::to_string(c.first) + ">" + std::to_string(c.second) + " ";
    return r;
  }
  if(op == "mkpart" || op == "merge") {
    matrix_elements_map<yd> me;
    space_partition<hspace> sp = op == "merge" ? space_partition<hspace>(*w.sp) :
                                                 space_partition<hspace>(op_t(E(1) + conj(E(1)), w.hs), w.hs, me);
    if(op == "merge") {
      op_t c(conj(E(1)), w.hs);
      sp.merge_subspaces(op_t(E(1), w.hs), c, false);
    }
    std::string r;
    for(auto const& b : sp.subspace_bases())
      r += sidx(b) + ";";
    for(auto const& m : me)
      r += num(m.second) + " ";
    return r;
  }
  if(op == "view") {
    int h = arg(2);
    switch(arg(1)) {
    case 0: return sview(*w.nfs1, w.st, h);
    case 1: return sview(*w.nfs2, w.st, h);
    case 2: return sview(*w.nfs3, w.st, h);
    case 3: return sview(*w.nfms1, w.stm, h);
    case 4: return sview(*w.nfms2, w.stm, h);
    case 5: return sview(*w.nfms3, w.stm, h);
    case 6: return sview(*w.comp, w.some, h);
    default: return sview(*w.mapped, w.stm, h);
    }
  }
  if(op == "vact") {
    // operators of hsf act from a shared view to another vector
    sparse dst(w.df.size());
    switch(arg(2)) {
    case 0: LF(1)(*w.nfs1, dst); break;
    case 1: LF(1)(*w.nfs2, dst); break;
    case 2: LF(1)(*w.nfs3, dst); break;
    case 3: LF(1)(*w.nfms1, dst); break;
    case 4: LF(1)(*w.nfms2, dst); break;
    case 5: LF(1)(*w.nfms3, dst); break;
    case 6: {
      sparse dd(w.d.size());
      L(1)(*w.comp, dd);
      return ssv(dd);
    }
    case 7: LF(1)(*w.mapped, dst); break;
    default: LF(1)(make_const_nfs_view(w.un, w.hsf, w.N), dst);
    }
    return ssv(dst);
  }
  if(op == "vdst") {
    // a vector of the call's own is written through a view
    dense out(w.hs.dim(), yd(1));
    auto v = make_comp_state_view(out, w.hs);
    L(1)(w.s, v);
    return ssv(out);
  }
  if(op == "mkview") {
    if(arg(1) == 0) return sview(make_const_nfs_view(w.dn, w.hsf, w.N), w.st, arg(2));
    if(arg(1) == 1) return sview(make_const_nfms_view(w.dm, w.hsf, w.sectors), w.stm, arg(2));
    if(arg(1) == 2) return sview(make_const_comp_state_view(w.dc, w.hs), w.some, arg(2));
    auto c = *w.nfs1;
    auto c2 = *w.nfms1;
    return sview(c, w.st, arg(2)) + sview(c2, w.stm, arg(2));
  }
  if(op == "sector") {
    if(arg(1) == 0)
      return sidx(n_fermion_sector_basis_states(w.hsf, w.N)) + std::to_string(n_fermion_sector_size(w.hsf, w.N));
    return sidx(n_fermion_multisector_basis_states(w.hsf, w.sectors)) +
           std::to_string(n_fermion_multisector_size(w.hsf, w.sectors));
  }
  if(op == "mapper") {
    if(arg(1) == 0) return smap(w.bm->map()) + smap(w.bm->inverse_map());
    if(arg(1) == 1) return smap(basis_mapper(L(2), w.hs).map());
    if(arg(1) == 2)
      return smap(basis_mapper(std::vector<op_t>{w.l[0], w.l[w.l.size() - 1]}, w.hs, 2).map());
    auto v = w.bm->make_const_view(w.dm);
    return sview(v, w.stm, arg(2));
  }
  std::cerr << "script error: no call " << op << "\n";
  std::_Exit(3);
}

std::string result(world const& w, std::vector<std::string> const& tok) {
  std::string r;
  try {
    r = perform(w, tok);
  } catch(unknown_generator<yint> const& x) {
    r = "unknown " + std::to_string(uni().id(*x.generator_ptr));
  } catch(std::exception const& x) { r = std::string("exception ") + x.what(); }
  std::uint64_t h = 1469598103934665603ull;
  for(unsigned char c : r)
    h = (h ^ c) * 1099511628211ull;
  char b[40];
  std::snprintf(b, sizeof b, "%zu %016llx ", r.size(), (unsigned long long)h);
  std::string s(b);
  for(char c : r.substr(0, 100))
    s += c == '"' || c == '\\' || (unsigned char)(c) < 32 ? '\'' : c;
  return s;
}

// Events are kept back while threads run freely: reporting them at once would
// put the calls of different threads in order
thread_local std::vector<std::string>* kept = nullptr;
void event(std::string const& s) {
  if(kept)
    kept->push_back(s);
  else
    emit(s);
}
std::vector<std::vector<std::string>> calls;
void make_call(world const& w, int t, int k) {
  std::string id = ",\"t\":" + std::to_string(t) + ",\"k\":" + std::to_string(k);
  event("{\"e\":\"start\"" + id + "}");
  std::string r = result(w, calls[k]);
  event("{\"e\":\"ret\"" + id + ",\"r\":\"" + r + "\"}");
}

int main() {
  script sc(std::cin);
  std::unique_ptr<world> w;
  bool header = false;
  auto put_header = [&]() {
    if(!header) emit("{\"e\":\"conc\"}");
    header = true;
  };
  while(sc.next()) {
    std::string op = sc.str();
    auto list = [&]() {
      std::vector<int> v;
      while(sc.more() && sc.tok[sc.pos] != "/")
        v.push_back(int(sc.num()));
      if(sc.more()) sc.str();
      return v;
    };
    if(op == "es")
      eu().read(sc);
    else if(op == "gen")
      uni().read(sc);
    else if(op == "hs")
      l_hs = list();
    else if(op == "hsf")
      l_hsf = list();
    else if(op == "expr")
      l_exprs.push_back(read_terms(sc));
    else if(op == "par") {
      l_n = int(sc.num());
      l_seed = unsigned(sc.num());
    } else if(op == "world") {
      // calls refer to new objects
      put_header();
      calls.clear();
      emit("{\"e\":\"world\"}");
    } else if(op == "objects") {
      // the same objects anew
      w.reset(new world);
    } else if(op == "call") {
      // call name arguments: the next number, from 0 on
      std::vector<std::string> v;
      while(sc.more())
        v.push_back(sc.str());
      calls.push_back(v);
    } else if(op == "coop") {
      // coop burst plan / nested calls / calls of thread 0 / calls of thread 1 ...
      int burst = int(sc.num());
      auto plan = list(), nested = list();
      std::vector<std::vector<int>> todo;
      while(sc.more())
        todo.push_back(list());
      auto& s = sched();
      s.done.assign(todo.size(), false);
      s.plan = plan;
      s.pos = 0;
      s.burst = burst;
      s.switches = 0;
      s.allowed = 24;
      std::size_t nn = 0;
      s.nested = [&](int t) {
        if(!nested.empty()) make_call(*w, t, nested[nn++ % nested.size()]);
      };
      s.on = true;
      std::vector<std::thread> th;
      for(std::size_t t = 0; t < todo.size(); ++t)
        th.emplace_back([&, t]() {
          {
            std::unique_lock<std::mutex> l(s.m);
            s.cv.wait(l, [&]() { return s.cur == int(t); });
          }
          self().t = int(t);
          for(int k : todo[t]) {
            make_call(*w, int(t), k);
            yield_();
          }
          self().t = -1;
          std::unique_lock<std::mutex> l(s.m);
          s.done[t] = true;
          s.nest = false;
          s.pick();
          s.cv.notify_all();
        });
      {
        std::unique_lock<std::mutex> l(s.m);
        s.pick();
        s.nest = false;
        s.cv.notify_all();
      }
      for(auto& t : th)
        t.join();
      s.on = false;
      s.cur = -1;
      emit("{\"e\":\"switches\",\"n\":" + std::to_string(std::min<std::size_t>(s.switches, 1 << 28)) +
           ",\"m\":" + std::to_string(nn) + "}");
    } else if(op == "free") {
      // free repetitions / calls of thread 0 / ...: threads run as they like
      int reps = int(sc.num());
      sc.str();
      std::vector<std::vector<int>> todo;
      while(sc.more())
        todo.push_back(list());
      std::vector<std::thread> th;
      std::vector<std::vector<std::string>> out(todo.size());
      std::atomic<std::size_t> ready{0};
      for(std::size_t t = 0; t < todo.size(); ++t)
        th.emplace_back([&, t]() {
          kept = &out[t];
          ready.fetch_add(1, std::memory_order_relaxed);
          while(ready.load(std::memory_order_relaxed) < todo.size()) {}
          for(int r = 0; r < reps; ++r)
            for(int k : todo[t])
              make_call(*w, int(t), k);
          kept = nullptr;
        });
      for(auto& t : th)
        t.join();
      for(auto const& o : out)
        for(auto const& x : o)
          emit(x);
    } else if(op == "alone") {
      // all calls one after another
      for(std::size_t k = 0; k < calls.size(); ++k)
        make_call(*w, 0, int(k));
    } else {
      std::cerr << "script error: unknown operation " << op << "\n";
      return 3;
    }
  }
  put_header();
  return 0;
}
