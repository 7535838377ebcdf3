// Partitions of spaces by operators: histories of merges.
#include "linop.hpp"
#include <libcommute/loperator/space_partition.hpp>

using namespace libcommute;
#ifdef FERMIONS_ONLY
using op_t = loperator<S, fermion>;
#else
using op_t = loperator<S, fermion, boson, spin>;
#endif

// A part of the basis of a space
struct subset_t {
  std::vector<sv_index_type> states;
  sv_index_type size = 0;
  sv_index_type dim() const { return states.size(); }
};
sv_index_type get_vec_size(subset_t const& s) { return s.size; }
template <typename F> void foreach(subset_t const& s, F&& f) {
  for(auto i : s.states)
    f(i);
}

struct anypart {
  bool all = true;
  std::vector<sv_index_type> st;   // as the space lists them
  std::map<sv_index_type, i64> at;
  virtual ~anypart() {}
  virtual std::string show() const = 0;
  virtual std::pair<matrix_elements_map<S>, matrix_elements_map<S>> merge(op_t const&, op_t const&,
                                                                          int) = 0;
  virtual connections_map conn(op_t const&) const = 0;
  virtual std::unique_ptr<anypart> copy() const = 0;

  i64 pos(sv_index_type i) const { return at.count(i) ? at.at(i) : 0; }
  std::string states() const {
    std::vector<std::string> v;
    for(auto i : st)
      v.push_back(jvec(lay().decode(i)));
    return jstrs(v);
  }
  std::string jlist(std::vector<sv_index_type> const& b) const {
    std::vector<i64> v;
    for(auto i : b)
      v.push_back(pos(i));
    return jvec(v);
  }
  std::string jme(matrix_elements_map<S> const& me) const {
    std::vector<std::string> v;
    for(auto const& m : me) {
      auto to = lay().decode(m.first.first), from = lay().decode(m.first.second);
      v.push_back("[" + std::to_string(pos(m.first.first)) + "," +
                  std::to_string(pos(m.first.second)) + "," +
                  js(recognise(scaled(m.second, -scales().first), lay().norm(to, from))) + "]");
    }
    return jstrs(v);
  }
};
template <typename HS> struct partof : anypart {
  std::shared_ptr<HS> hs;
  space_partition<HS> sp;
  partof(std::shared_ptr<HS> h, space_partition<HS> const& s) : hs(h), sp(s) {}
  std::string show() const override {
    std::vector<i64> of, fe(st.size(), -1);
    bool order = true;
    for(auto i : st)
      of.push_back(i64(sp[i]));
    std::size_t count = 0;
    foreach(sp, [&](sv_index_type i, sv_index_type k) {
      ++count;
      if(at.count(i)) fe[at.at(i) - 1] = i64(k);
    });
    if(count != st.size()) fe.push_back(-2);
    std::vector<std::string> bases, basis;
    for(auto const& b : sp.subspace_bases())
      bases.push_back(jlist(b));
    for(sv_index_type k = 0; k < sp.n_subspaces(); ++k)
      basis.push_back(jlist(sp.subspace_basis(k)));
    // questions that have no answer: subspaces that are not there, indices that do not
    // belong to the partitioned states
    std::vector<std::string> ref;
    auto ask = [&](std::function<void()> f) {
      try {
        f();
        ref.push_back("\"\"");
      } catch(std::exception const&) { ref.push_back("\"refused\""); }
    };
    for(sv_index_type k : {0, 1, 7})
      ask([&]() { sp.subspace_basis(sp.n_subspaces() + k); });
    sv_index_type const size = get_vec_size(*hs);
    for(sv_index_type i = 0; i < size && ref.size() < 7; ++i)
      if(!at.count(i)) ask([&]() { sp[i]; });
    for(sv_index_type i = size; i-- != 0 && ref.size() < 11;)
      if(!at.count(i)) ask([&]() { sp[i]; });
    return "{\"ref\":" + jstrs(ref) + ",\"n\":" + std::to_string(i64(sp.n_subspaces())) + ",\"dim\":" +
           std::to_string(i64(sp.dim())) + ",\"of\":" + jvec(of) + ",\"fe\":" + jvec(fe) +
           ",\"bases\":" + jstrs(bases) + ",\"basis\":" + jstrs(basis) + "}";
  }
  std::pair<matrix_elements_map<S>, matrix_elements_map<S>> merge(op_t const& cd, op_t const& c,
                                                                  int how) override {
    return how == 2 ? sp.merge_subspaces(cd, c) : sp.merge_subspaces(cd, c, how == 1);
  }
  connections_map conn(op_t const& o) const override { return sp.find_connections(o); }
  std::unique_ptr<anypart> copy() const override {
    std::unique_ptr<partof> p(new partof(hs, sp));
    p->all = all;
    p->st = st;
    p->at = at;
    return p;
  }
};

// how: 0 - no matrix elements, 1, 2 - with them (2: in a map that has been used before), 3 - constructor
template <typename HS>
std::unique_ptr<anypart> make(std::shared_ptr<HS> hs, op_t const& h, int how, std::string& me) {
  matrix_elements_map<S> m;
  if(how == 2) {
    // the map has been used before
    make_space_partition(h, *hs, m);
    for(auto& x : m)
      x.second *= S(3);
  }
  space_partition<HS> sp = how == 0   ? make_space_partition(h, *hs)
                           : how == 3 ? space_partition<HS>(h, *hs)
                           : how == 1 ? make_space_partition(h, *hs, m)
                                      : space_partition<HS>(h, *hs, m);
  std::unique_ptr<partof<HS>> p(new partof<HS>(hs, sp));
  foreach(*hs, [&](sv_index_type i) {
    p->st.push_back(i);
    p->at[i] = i64(p->st.size());
  });
  me = p->jme(m);
  return p;
}

int main() {
  script sc(std::cin);
  session se;
  std::map<int, expr_t> exprs;
  std::map<int, op_t> ops;
  std::map<int, std::unique_ptr<anypart>> parts;
  auto set_op = [&](int t, expr_t const& e) {
    ops.erase(t);
    exprs[t] = e;
    ops.emplace(t, op_t(e, lay().hs));
    emit("{\"e\":\"op\",\"t\":" + std::to_string(t) + ",\"p\":" + jop(e) + "}");
  };
  while(sc.next()) {
    std::string op = sc.str();
    if(op == "hs") {
      ops.clear();
      exprs.clear();
      parts.clear();
    }
    if(se.common(sc, op)) continue;
    if(op == "op" || op == "herm") {
      int t = int(sc.num());
      expr_t e = make_expr<S>(read_terms(sc));
      if(op == "herm") e += conj(expr_t(e));
      set_op(t, e);
    } else if(op == "conj") {
      int t = int(sc.num()), a = int(sc.num());
      set_op(t, conj(expr_t(exprs.at(a))));
    } else if(op == "part") {
      // part r t how [state ...]: states generate a part of the space that is
      // closed under all operators
      int r = int(sc.num()), t = int(sc.num()), how = int(sc.num());
      std::string me;
      std::unique_ptr<anypart> p;
      if(!sc.more())
        p = make(std::make_shared<hspace>(lay().hs), ops.at(t), how, me);
      else {
        std::vector<op_t> terms;
        for(auto const& e : exprs)
          for(auto const& m : e.second) {
            terms.emplace_back(expr_t(S(1), m.monomial), lay().hs);
            terms.emplace_back(conj(expr_t(S(1), m.monomial)), lay().hs);
          }
        auto sub = std::make_shared<subset_t>();
        sub->size = get_vec_size(lay().hs);
        std::set<sv_index_type> seen;
        for(auto const& a : read_state(sc))
          if(seen.insert(lay().encode(a.d)).second) sub->states.push_back(lay().encode(a.d));
        for(std::size_t k = 0; k < sub->states.size(); ++k)
          for(auto const& o : terms) {
            std::vector<S> in(sub->size, S(0));
            in[sub->states[k]] = S(1);
            foreach(o(in), [&](sv_index_type i, S const&) {
              if(seen.insert(i).second) sub->states.push_back(i);
            });
          }
        p = make(sub, ops.at(t), how, me);
        p->all = false;
      }
      bool m = how == 1 || how == 2;
      emit("{\"e\":\"part\",\"r\":" + std::to_string(r) + ",\"t\":" + std::to_string(t) +
           ",\"all\":" + (p->all ? "true" : "false") + ",\"st\":" + p->states() + ",\"m\":" +
           (m ? "true" : "false") + ",\"me\":" + me + ",\"o\":" + p->show() + "}");
      parts[r] = std::move(p);
    } else if(op == "merge") {
      int r = int(sc.num()), cd = int(sc.num()), c = int(sc.num()), how = int(sc.num());
      auto me = parts.at(r)->merge(ops.at(cd), ops.at(c), how);
      auto const& p = *parts.at(r);
      emit("{\"e\":\"merge\",\"r\":" + std::to_string(r) + ",\"cd\":" + std::to_string(cd) +
           ",\"c\":" + std::to_string(c) + ",\"m\":" + (how ? "true" : "false") + ",\"me1\":" +
           p.jme(me.first) + ",\"me2\":" + p.jme(me.second) + ",\"o\":" + p.show() + "}");
    } else if(op == "conn") {
      int r = int(sc.num()), t = int(sc.num());
      std::vector<std::string> v;
      for(auto const& c : parts.at(r)->conn(ops.at(t)))
        v.push_back("[" + std::to_string(i64(c.first)) + "," + std::to_string(i64(c.second)) + "]");
      emit("{\"e\":\"conn\",\"r\":" + std::to_string(r) + ",\"t\":" + std::to_string(t) +
           ",\"conn\":" + jstrs(v) + "}");
    } else if(op == "pcopy") {
      int r = int(sc.num()), a = int(sc.num());
      parts[r] = parts.at(a)->copy();
      emit("{\"e\":\"pcopy\",\"r\":" + std::to_string(r) + ",\"a\":" + std::to_string(a) +
           ",\"o\":" + parts[r]->show() + "}");
    } else {
      std::cerr << "script error: unknown operation " << op << "\n";
      return 3;
    }
  }
}
