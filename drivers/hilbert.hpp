// Declared elementary spaces and inspection of Hilbert spaces.
#ifndef VERIF_HILBERT_HPP_
#define VERIF_HILBERT_HPP_

#include "algebra.hpp"

// Elementary space of a user-defined algebra
template <typename Base> struct user_space : public Base {
  int id;
  std::uint64_t dim_;
  template <typename... A>
  user_space(int id_, std::uint64_t d, A&&... a)
    : Base(std::forward<A>(a)...), id(id_), dim_(d) {}
  user_space(user_space const&) = default;
  int algebra_id() const override { return id; }
  libcommute::sv_index_type dim() const override { return dim_; }
  int n_bits() const override {
    int n = 0;
    while(n < 64 && ((dim_ - 1) >> n) != 0)
      ++n;
    return n;
  }
  std::unique_ptr<Base> clone() const override {
    return std::unique_ptr<Base>(new user_space(*this));
  }
};

template <typename Cfg> struct spaces_of;
template <typename... Idx> struct spaces_of<idx_cfg<Idx...>> {
  using base = libcommute::elementary_space<Idx...>;
  using fermion = libcommute::elementary_space_fermion<Idx...>;
  using boson = libcommute::elementary_space_boson<Idx...>;
  using spin = libcommute::elementary_space_spin<Idx...>;
  using hspace = libcommute::hilbert_space<Idx...>;
};
template <>
struct spaces_of<dyn_cfg>
  : spaces_of<idx_cfg<libcommute::dynamic_indices::dyn_indices>> {};

template <typename Cfg> struct es_universe {
  using base = typename spaces_of<Cfg>::base;
  using hspace = typename spaces_of<Cfg>::hspace;
  std::vector<std::shared_ptr<base>> es;
  std::map<std::string, int> number;

  template <typename T, typename... A>
  static std::shared_ptr<base> mk(std::vector<comp> const& v, A... a) {
    if constexpr(Cfg::dynamic)
      return std::make_shared<T>(a..., Cfg::indices(v));
    else
      return std::apply(
          [&](auto const&... x) { return std::make_shared<T>(a..., x...); },
          Cfg::indices(v));
  }
  static std::string describe(base const& e) {
    int m = 0;
    if(dynamic_cast<typename spaces_of<Cfg>::spin const*>(&e))
      m = int(e.dim());
    return "{\"a\":" + std::to_string(e.algebra_id()) +
           ",\"m\":" + std::to_string(m) + ",\"dim\":" + jwide(e.dim()) +
           ",\"i\":" + Cfg::jidx(e.indices()) + "}";
  }
  // "f idx...", "b <dim> idx...", "s <multiplicity> idx...",
  // "u <algebra> <dim> idx..."
  void read(script& sc) {
    std::string k = sc.str();
    std::uint64_t p = k == "f" ? 2 : 0;
    int alg = 0;
    if(k == "u") alg = int(sc.num());
    if(k != "f") p = sc.unum();
    std::vector<comp> v;
    while(sc.more())
      v.push_back(read_comp(sc.str()));
    add(k, alg, p, v);
  }
  void add(std::string const& k,
           int alg,
           std::uint64_t p,
           std::vector<comp> const& v) {
    using S = spaces_of<Cfg>;
    std::shared_ptr<base> e;
    if(k == "f")
      e = mk<typename S::fermion>(v);
    else if(k == "b")
      e = mk<typename S::boson>(v, libcommute::sv_index_type(p));
    else if(k == "s")
      e = mk<typename S::spin>(v, (double(p) - 1) / 2.0);
    else
      e = mk<user_space<base>>(v, alg, p);
    es.push_back(e);
    // the description of what has been asked for, not of what has been made
    std::string d =
        "{\"a\":" + std::to_string(k == "f" ? -3 : k == "b" ? -2 : k == "s" ? -1 : alg) +
        ",\"m\":" + std::to_string(k == "s" ? int(p) : 0) +
        ",\"dim\":" + jwide(p) + ",\"i\":" + jcomps(v) + "}";
    declared.push_back(d);
    number[d] = int(es.size());
  }
  static std::string jcomps(std::vector<comp> const& v) {
    std::vector<std::string> s;
    for(auto const& c : v)
      s.push_back(c.is_str ? jcomp(c.s) : jcomp(c.i));
    return jstrs(s);
  }
  std::vector<std::string> declared;
  std::string header() const { return jstrs(declared); }
  int id(base const& e) const {
    auto it = number.find(describe(e));
    return it == number.end() ? 0 : it->second;
  }
  static std::string jb(bool b) { return b ? "true" : "false"; }

  // Everything a Hilbert space tells about itself
  std::string dump(hspace& h) const {
    std::vector<int> order;
    h.foreach_elementary_space(
        [&](base const& e) { order.push_back(id(e)); });
    std::string s = "{\"es\":" + jvec(order) +
                    ",\"size\":" + std::to_string(h.size()) +
                    ",\"nb\":" + std::to_string(h.total_n_bits()) +
                    ",\"dim\":" + jwide(h.dim()) +
                    ",\"vs\":" + jwide(h.vec_size()) +
                    ",\"sp\":" + jb(h.is_sparse()) + ",\"fr\":" +
                    jb(get_dim(h) == h.dim() && get_vec_size(h) == h.vec_size());
    std::vector<std::string> q;
    for(auto const& e : es) {
      if(h.has(*e)) {
        auto br = h.bit_range(*e);
        auto d = h.dim(*e);
        q.push_back("[" + std::to_string(h.index(*e)) + "," +
                    std::to_string(br.first) + "," + std::to_string(br.second) +
                    "," + jwide(d) + "," + jbits(h.basis_state_index(*e, std::min(d, e->dim()) - 1)) +
                    "]");
      } else {
        int n = 0;
        auto expect = [&](auto&& f) {
          try {
            f();
          } catch(typename hspace::elementary_space_not_found const& x) {
            if(*x.elementary_space_ptr == *e) ++n;
          }
        };
        expect([&]() { (void)h.index(*e); });
        expect([&]() { (void)h.bit_range(*e); });
        expect([&]() { (void)h.dim(*e); });
        q.push_back("[" + std::to_string(-n) + "]");
      }
    }
    s += ",\"q\":" + jstrs(q);
    std::vector<std::string> al;
    for(int a = -5; a <= 9; ++a) {
      if(h.has_algebra(a)) {
        auto br = h.algebra_bit_range(a);
        al.push_back("[" + std::to_string(a) + "," + std::to_string(br.first) +
                     "," + std::to_string(br.second) + "]");
      } else {
        bool ok = false;
        try {
          (void)h.algebra_bit_range(a);
        } catch(std::runtime_error const&) { ok = true; }
        if(!ok) al.push_back("[" + std::to_string(a) + ",99,99]");
      }
    }
    return s + ",\"alg\":" + jstrs(al) + "}";
  }
};

#endif
