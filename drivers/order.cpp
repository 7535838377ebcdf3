// Comparison operators of generators, monomials, elementary spaces and dynamic
// index sequences: a table of all pairs.
#include "algebra.hpp"

#ifndef CFG
#define CFG idx_cfg<int>
#endif
using cfg = CFG;

// User-defined generator and elementary space with the inherited order
template <typename Base> struct user_gen : public Base {
  int id;
  template <typename... A>
  user_gen(int id_, A&&... a) : Base(std::forward<A>(a)...), id(id_) {}
  int algebra_id() const override { return id; }
  libcommute::var_number swap_with(Base const&,
                                   typename Base::linear_function_t& f) const override {
    f.set(0);
    return 1;
  }
};
template <typename Base> struct user_es : public Base {
  int id;
  template <typename... A>
  user_es(int id_, A&&... a) : Base(std::forward<A>(a)...), id(id_) {}
  user_es(user_es const&) = default;
  int algebra_id() const override { return id; }
  libcommute::sv_index_type dim() const override { return 3; }
  int n_bits() const override { return 2; }
  std::unique_ptr<Base> clone() const override {
    return std::unique_ptr<Base>(new user_es(*this));
  }
};

template <typename Cfg> struct es_of;
template <typename... Idx> struct es_of<idx_cfg<Idx...>> {
  using base = libcommute::elementary_space<Idx...>;
  using fermion = libcommute::elementary_space_fermion<Idx...>;
  using boson = libcommute::elementary_space_boson<Idx...>;
  using spin = libcommute::elementary_space_spin<Idx...>;
};
template <> struct es_of<dyn_cfg> {
  using I = libcommute::dynamic_indices::dyn_indices;
  using base = libcommute::elementary_space<I>;
  using fermion = libcommute::elementary_space_fermion<I>;
  using boson = libcommute::elementary_space_boson<I>;
  using spin = libcommute::elementary_space_spin<I>;
};
using es_base = es_of<cfg>::base;

template <typename T, typename... A>
std::shared_ptr<T> mk(std::vector<comp> const& v, A... a) {
  if constexpr(cfg::dynamic)
    return std::make_shared<T>(a..., cfg::indices(v));
  else
    return std::apply(
        [&](auto const&... x) { return std::make_shared<T>(a..., x...); },
        cfg::indices(v));
}

template <typename A, typename B> int cmp(A const& a, B const& b) {
  return (a == b ? 1 : 0) + (a != b ? 2 : 0) + (a < b ? 4 : 0) +
         (a > b ? 8 : 0);
}
template <typename V> void table(std::string const& kind, V const& v) {
  for(std::size_t i = 0; i < v.size(); ++i) {
    std::vector<int> row;
    for(std::size_t j = 0; j < v.size(); ++j)
      row.push_back(cmp(*v[i], *v[j]));
    emit("{\"e\":\"row\",\"k\":\"" + kind + "\",\"n\":" + std::to_string(i + 1) +
         ",\"r\":" + jvec(row) + "}");
  }
}

int main() {
  script sc(std::cin);
  std::vector<std::shared_ptr<const cfg::gen_t>> gens;
  std::vector<std::string> gd, ed, xd, md;
  std::vector<std::shared_ptr<es_base>> ess;
  std::vector<std::shared_ptr<cfg::monomial_t>> monos;
#ifdef ORDER_DYN
  std::vector<std::shared_ptr<dyn_cfg::I>> idx;
#endif
  auto indices = [&]() {
    std::vector<comp> v;
    while(sc.more())
      v.push_back(read_comp(sc.str()));
    return v;
  };
  auto jix = [](std::vector<comp> const& v) {
    std::vector<std::string> s;
    for(auto const& c : v)
      s.push_back(c.is_str ? jcomp(c.s) : jcomp(c.i));
    return jstrs(s);
  };
  while(sc.next()) {
    std::string op = sc.str();
    if(op == "gen") {
      if(sc.tok[1] == "u") { // gen u <algebra> idx...
        sc.str();
        int id = int(sc.num());
        auto v = indices();
        gens.push_back(mk<user_gen<cfg::gen_t>>(v, id));
        gd.push_back("{\"a\":" + std::to_string(id) +
                     ",\"d\":0,\"m\":0,\"c\":0,\"i\":" + jix(v) + "}");
      } else {
        universe<cfg> u;
        u.read(sc);
        gens.push_back(u.gens[0]);
        gd.push_back(u.describe(*u.gens[0]));
      }
    } else if(op == "es") { // es f|b|s|u <number> idx...
      std::string k = sc.str();
      int p = int(sc.num());
      auto v = indices();
      int a = 0;
      if(k == "f") {
        ess.push_back(mk<es_of<cfg>::fermion>(v));
        a = -3;
        p = 0;
      } else if(k == "b") {
        ess.push_back(mk<es_of<cfg>::boson>(v, libcommute::sv_index_type(p)));
        a = -2;
      } else if(k == "s") {
        ess.push_back(mk<es_of<cfg>::spin>(v, (p - 1) / 2.0));
        a = -1;
      } else {
        ess.push_back(mk<user_es<es_base>>(v, p));
        a = p;
        p = 0;
      }
      ed.push_back("{\"a\":" + std::to_string(a) + ",\"m\":" +
                   std::to_string(p) + ",\"i\":" + jix(v) + "}");
    } else if(op == "mono") { // mono g...
      std::vector<std::shared_ptr<const cfg::gen_t>> v;
      std::vector<int> w;
      while(sc.more()) {
        w.push_back(int(sc.num()));
        v.push_back(gens.at(w.back() - 1));
      }
      monos.push_back(std::make_shared<cfg::monomial_t>(v));
      md.push_back(jvec(w));
    }
#ifdef ORDER_DYN
    else if(op == "ix") {
      auto v = indices();
      idx.push_back(std::make_shared<dyn_cfg::I>(dyn_cfg::indices(v)));
      xd.push_back(jix(v));
    }
#endif
  }
  emit("{\"e\":\"items\",\"g\":" + jstrs(gd) + ",\"s\":" + jstrs(ed) +
       ",\"m\":" + jstrs(md) + ",\"x\":" + jstrs(xd) + "}");
  table("g", gens);
  table("s", ess);
  table("m", monos);
#ifdef ORDER_DYN
  table("x", idx);
#endif
  for(std::size_t i = 0; i < monos.size(); ++i)
    emit("{\"e\":\"ordered\",\"n\":" + std::to_string(i + 1) + ",\"v\":" +
         (monos[i]->is_ordered() ? "true" : "false") + "}");
  return 0;
}
