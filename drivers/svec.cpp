// Register machine over state vectors of all kinds of storage.
#include "common.hpp"
#include <libcommute/libcommute.hpp>
#ifdef EIGEN
#include <libcommute/loperator/state_vector_eigen3.hpp>
#endif
#ifdef WITH_BOOST_RATIONAL
#include <libcommute/scalars/boost_rational.hpp>
#endif
#include <memory>
#ifndef SCALAR
#define SCALAR double
#endif
using V = SCALAR;
using namespace libcommute;
using std::size_t;
static size_t N = 6;

// A register: storage of one kind. `ok` is false if something besides the
// vector has been changed
struct reg {
  virtual ~reg() {}
  virtual void upd(size_t i, cq c, int how) = 0;
  virtual void ref(size_t i, size_t j) = 0;
  virtual void set(size_t i, cq c) = 0;
  virtual void touch(size_t i) = 0;
  virtual void zero() = 0;
  virtual bool prune() { return false; }
  virtual bool prunep(cq) { return false; }
  virtual void copy(reg& o, bool move) = 0;
  virtual bool like() = 0;
  virtual std::string show(std::string const& extra) = 0;
};

template <typename X> void do_upd(X& x, size_t i, cq c, int how) {
  V v = from_cq<V>::make(c);
  V const w = v;
  if(how == 0)
    update_add_element(x, i, v);
  else if(how == 1)
    update_add_element(x, i, w);
  else if(how == 2 && c.im == 0 && c.den == 1)
    update_add_element(x, i, V(int(c.re)));
  else
    update_add_element(x, i, from_cq<V>::make(c));
}
template <typename X> std::string show_(X const& x, std::string const& extra, i64 n, i64 sz, bool ok) {
  std::vector<std::string> g, f;
  for(size_t i = 0; i < N; ++i)
    g.push_back(js(conv(V(get_element(x, i)))));
  foreach(x, [&](sv_index_type i, V const& a) {
    f.push_back("[" + std::to_string(i) + "," + js(conv(a)) + "]");
  });
  return "{" + extra + ",\"g\":" + jstrs(g) + ",\"f\":" + jstrs(f) + ",\"n\":" + std::to_string(n) +
         ",\"sz\":" + std::to_string(sz) + ",\"ok\":" + (ok ? "true" : "false") + "}";
}
template <typename X> bool zeros(X const& z) {
  bool r = true;
  for(size_t i = 0; i < N; ++i)
    r = r && get_element(z, i) == V(0);
  foreach(z, [&](sv_index_type, V const&) { r = false; });
  return r;
}

template <typename X> struct plain : reg {
  X x;
  plain(X const& x_) : x(x_) {}
  void upd(size_t i, cq c, int how) override { do_upd(x, i, c, how); }
  void ref(size_t i, size_t j) override { update_add_element(x, i, x[j]); }
  bool tiny(size_t i, double a) {
    if constexpr(std::is_same<X, sparse_state_vector<V>>::value && !std::is_integral<V>::value) {
      if(!(get_element(x, i) == V(0))) return false;
      update_add_element(x, i, V(a));
      return true;
    }
    return false;
  }
  void set(size_t i, cq c) override { x[i] = from_cq<V>::make(c); }
  void touch(size_t i) override { (void)x[i]; }
  void zero() override { set_zeros(x); }
  void copy(reg& o, bool move) override {
    auto& p = dynamic_cast<plain&>(o);
    if(move) {
      X y(p.x);
      x = std::move(y);
    } else
      x = p.x;
  }
  bool like() override {
    X z = zeros_like(x);
    return zeros(z) && size_t(z.size()) == N;
  }
  i64 count() {
    if constexpr(std::is_same<X, sparse_state_vector<V>>::value)
      return i64(x.n_nonzeros());
    else
      return i64(x.size());
  }
  bool prune() override {
    if constexpr(std::is_same<X, sparse_state_vector<V>>::value) {
      x.prune();
      return true;
    }
    return false;
  }
  bool prunep(cq c) override {
    if constexpr(std::is_same<X, sparse_state_vector<V>>::value) {
      V v = from_cq<V>::make(c);
      x.prune([&](V const& a) { return a == v; });
      return true;
    }
    return false;
  }
  std::string show(std::string const& extra) override {
    return show_(x, extra, count(), i64(x.size()), true);
  }
};

#ifdef EIGEN
using vec_t = Eigen::Matrix<V, Eigen::Dynamic, 1>;
using mat_t = Eigen::Matrix<V, Eigen::Dynamic, Eigen::Dynamic>;
using rmat_t = Eigen::Matrix<V, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
// A part of a bigger matrix whose other elements are equal to 9
template <int Kind> struct part : reg {
  typename std::conditional<Kind == 4 || Kind == 5, rmat_t, mat_t>::type m;
  vec_t big;
  part() {
    m.setConstant(N + 4, 5, V(9));
    big = vec_t::Constant(N + 5, V(9));
    with([](auto&& x) { set_zeros(x); });
  }
  template <typename F> auto with(F&& f) {
    if constexpr(Kind == 0) {
      auto s = big.segment(3, N);
      return f(s);
    } else if constexpr(Kind == 1 || Kind == 5) {
      // columns need N rows
      auto& mm = cols();
      auto c = mm.col(2);
      return f(c);
    } else if constexpr(Kind == 2) {
      Eigen::Map<vec_t> c(big.data() + 2, N);
      return f(c);
    } else if constexpr(Kind == 6) {
      auto bb = m.block(0, 1, N + 3, 4);
      auto b = bb.block(1, 2, N, 1);
      return f(b);
    } else if constexpr(Kind == 7) {
      auto ss = big.segment(1, N + 3);
      auto b = ss.segment(2, N);
      return f(b);
    } else {
      auto b = m.block(1, 3, N, 1);
      return f(b);
    }
  }
  auto& cols() {
    if(m.rows() != Eigen::Index(N)) m.setConstant(N, 5, V(9));
    return m;
  }
  void upd(size_t i, cq c, int how) override {
    with([&](auto& x) { do_upd(x, i, c, how); });
  }
  void ref(size_t i, size_t j) override {
    with([&](auto& x) {
      V const& r = x(Eigen::Index(j), 0);
      update_add_element(x, i, r);
    });
  }
  void set(size_t i, cq c) override {
    with([&](auto& x) { x(Eigen::Index(i), 0) = from_cq<V>::make(c); });
  }
  void touch(size_t i) override {}
  void zero() override {
    with([&](auto& x) { set_zeros(x); });
  }
  void copy(reg& o, bool) override {
    std::vector<V> v(N);
    dynamic_cast<part&>(o).with([&](auto& x) {
      for(size_t i = 0; i < N; ++i)
        v[i] = get_element(x, i);
    });
    with([&](auto& x) {
      for(size_t i = 0; i < N; ++i)
        x(Eigen::Index(i), 0) = v[i];
    });
  }
  bool like() override {
    return with([&](auto& x) {
      auto z = zeros_like(x);
      z(0) = V(1);
      bool ind = get_element(x, 0) == get_element(x, 0);
      z(0) = V(0);
      return zeros(z) && size_t(z.size()) == N && ind;
    });
  }
  bool intact() {
    size_t n = 0, want = 0;
    if(Kind == 0 || Kind == 2 || Kind == 7) {
      size_t off = Kind == 2 ? 2 : 3;
      for(size_t i = 0; i < size_t(big.size()); ++i)
        if(i < off || i >= off + N) n += big(i) != V(9);
    } else {
      for(Eigen::Index r = 0; r < m.rows(); ++r)
        for(Eigen::Index c = 0; c < m.cols(); ++c) {
          bool in = Kind == 1 || Kind == 5 ? c == 2 : (c == 3 && r >= 1 && size_t(r) < 1 + N);
          if(!in) n += m(r, c) != V(9);
        }
    }
    return n == want;
  }
  std::string show(std::string const& extra) override {
    return with([&](auto& x) { return show_(x, extra, i64(x.rows() * x.cols()), i64(x.size()), intact()); });
  }
};
#endif

int main() {
  script sc(std::cin);
  std::vector<std::unique_ptr<reg>> R;
  std::string kinds;
  int flavour = 0;
  auto mk_regs = [&](std::vector<std::string> const& ks) {
    std::vector<std::string> names;
    for(auto const& k : ks) {
      std::unique_ptr<reg> r;
      if(k == "sparse")
        r.reset(new plain<sparse_state_vector<V>>(sparse_state_vector<V>(N)));
      else if(k == "vec")
        r.reset(new plain<std::vector<V>>(std::vector<V>(N, V(0))));
#ifdef EIGEN
      else if(k == "eigen")
        r.reset(new plain<vec_t>(vec_t::Zero(N)));
      else if(k == "segment")
        r.reset(new part<0>());
      else if(k == "column")
        r.reset(new part<1>());
      else if(k == "map")
        r.reset(new part<2>());
      else if(k == "block")
        r.reset(new part<3>());
      else if(k == "rowblock")
        r.reset(new part<4>());
      else if(k == "rowcolumn")
        r.reset(new part<5>());
      else if(k == "blockblock")
        r.reset(new part<6>());
      else if(k == "segsegment")
        r.reset(new part<7>());
#endif
      if(!r) {
        std::cerr << "script error: kind " << k << "\n";
        std::exit(3);
      }
      R.push_back(std::move(r));
      names.push_back("\"" + k + "\"");
    }
    emit("{\"e\":\"svec\",\"n\":" + std::to_string(N) + ",\"kinds\":" + jstrs(names) + "}");
  };
  while(sc.next()) {
    std::string op = sc.str();
    if(op == "regs") {
      // regs <length> <kind>...
      N = size_t(sc.unum());
      std::vector<std::string> ks;
      while(sc.more())
        ks.push_back(sc.str());
      mk_regs(ks);
      continue;
    }
    int t = int(sc.num());
    reg& r = *R.at(t - 1);
    std::string ev = "\"e\":\"" + op + "\",\"t\":" + std::to_string(t);
    auto val = [&]() {
      cq c = sc.coef();
      c = mk(c.re, c.im, c.den);
      ev += ",\"c\":" + js(c);
      return c;
    };
    auto pos = [&](char const* n) {
      size_t i = size_t(sc.unum());
      ev += std::string(",\"") + n + "\":" + std::to_string(i);
      return i;
    };
    ++flavour;
    if(op == "upd") {
      auto i = pos("i");
      r.upd(i, val(), flavour % 4);
    } else if(op == "tiny") {
      // a contribution that is zero for the scalar type; only where it leaves no trace:
      // an amplitude of zero in a sparse vector. tiny t i <exponent> <sign>
      auto i = pos("i");
      int e = int(sc.num()), sign = int(sc.num());
      auto* p = dynamic_cast<plain<sparse_state_vector<V>>*>(&r);
      if(!p || !p->tiny(i, sign * std::ldexp(1.0, -e))) continue;
    } else if(op == "ref") {
      auto i = pos("i");
      auto j = pos("j");
      // a reference to an element of a sparse vector can only be obtained
      // through operator[], which stores the element
      if(dynamic_cast<plain<sparse_state_vector<V>>*>(&r)) {
        r.touch(j);
        emit(r.show("\"e\":\"touch\",\"t\":" + std::to_string(t) + ",\"i\":" + std::to_string(j)));
      }
      r.ref(i, j);
    } else if(op == "set") {
      auto i = pos("i");
      r.set(i, val());
    } else if(op == "touch") {
      r.touch(pos("i"));
    } else if(op == "zero") {
      r.zero();
    } else if(op == "prune") {
      if(!r.prune()) continue;
    } else if(op == "prunep") {
      if(!r.prunep(val())) continue;
    } else if(op == "copy" || op == "move") {
      int a = int(sc.num());
      ev += ",\"a\":" + std::to_string(a);
      r.copy(*R.at(a - 1), op == "move");
    } else if(op == "like") {
      if(!r.like()) ev = "\"e\":\"like_fails\",\"t\":" + std::to_string(t);
    } else {
      std::cerr << "script error: unknown operation " << op << "\n";
      return 3;
    }
    emit(r.show(ev));
  }
  return 0;
}
