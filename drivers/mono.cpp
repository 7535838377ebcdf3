// Register machine over monomials: histories of constructions, assignments, appending,
// concatenation and exchange of generators; everything observable of a monomial.
#include "algebra.hpp"
#include <sstream>

#ifndef CFG
#define CFG idx_cfg<int>
#endif
using cfg = CFG;
using mono_t = cfg::monomial_t;
using user_t = user_generator<cfg::gen_t>;

universe<cfg> uni;
std::vector<mono_t> ms(6);

std::string codes(std::string const& s) {
  std::vector<int> v;
  for(unsigned char c : s)
    v.push_back(int(c));
  return jvec(v);
}
template <typename T> std::string text(T const& x) {
  std::ostringstream os;
  os << x;
  return codes(os.str());
}
void done(std::string const& head) {
  std::vector<std::string> v;
  for(auto const& m : ms)
    v.push_back(uni.jmon(m));
  emit("{" + head + ",\"ms\":" + jstrs(v) + "}");
}
std::string num(char const* k, long x) {
  return std::string(",\"") + k + "\":" + std::to_string(x);
}
std::string boolean(char const* k, bool x) {
  return std::string(",\"") + k + "\":" + (x ? "true" : "false");
}

// Call f with a generator of its own type
template <typename F> void typed(cfg::gen_t const& g, F&& f) {
  if(auto const* p = dynamic_cast<cfg::fermion const*>(&g))
    f(*p);
  else if(auto const* p = dynamic_cast<cfg::boson const*>(&g))
    f(*p);
  else if(auto const* p = dynamic_cast<cfg::spin const*>(&g))
    f(*p);
  else
    f(dynamic_cast<user_t const&>(g));
}
// From objects, which the monomial takes copies of
mono_t from_objects(std::vector<int> const& w) {
  mono_t r;
  if(w.size() == 1)
    typed(*uni.gens.at(w[0] - 1), [&](auto const& a) { r = mono_t(a); });
  else if(w.size() == 2)
    typed(*uni.gens.at(w[0] - 1), [&](auto const& a) {
      typed(*uni.gens.at(w[1] - 1), [&](auto const& b) {
        auto tmp = a; // to be moved from
        r = mono_t(std::move(tmp), b);
      });
    });
  else
    r = uni.mono(w);
  return r;
}

// The function is found through its arguments only if one of them is a monomial or a range
template <typename... P> mono_t join(P const&... p) {
  if constexpr((std::is_base_of<cfg::gen_t, P>::value && ...))
    return concatenate(p..., mono_t());
  else
    return concatenate(p...);
}
struct part {
  char k;
  int g, a, i, j;
};
// Nested calls assemble the argument list
mono_t cat(std::vector<part> const& p) {
  auto const& P = p;
  auto range = [&](part const& x) {
    return typename mono_t::range_type(ms[x.a - 1].begin() + x.i, ms[x.a - 1].begin() + x.j);
  };
  auto with = [&](part const& x, auto&& f) {
    if(x.k == 'g')
      f(*uni.gens.at(x.g - 1));
    else if(x.k == 'm')
      f(ms[x.a - 1]);
    else
      f(range(x));
  };
  mono_t r;
  if(P.size() == 1)
    with(P[0], [&](auto const& a) { r = join(a); });
  else if(P.size() == 2)
    with(P[0], [&](auto const& a) { with(P[1], [&](auto const& b) { r = join(a, b); }); });
  else if(P.size() == 3)
    with(P[0], [&](auto const& a) {
      with(P[1], [&](auto const& b) {
        with(P[2], [&](auto const& c) { r = join(a, b, c); });
      });
    });
  else
    with(P[0], [&](auto const& a) {
      with(P[1], [&](auto const& b) {
        with(P[2], [&](auto const& c) {
          r = join(a, b, c, ms[P[3].a - 1]);
        });
      });
    });
  return r;
}

// Iterators of one monomial are ordered and spaced like its positions
bool iterators_ok(mono_t const& m) {
  auto const b = m.begin(), e = m.end();
  auto const n = std::ptrdiff_t(m.size());
  if(e - b != n || b - e != -n || m.cbegin() != b || m.cend() != e) return false;
  if(std::distance(m.rbegin(), m.rend()) != n || std::distance(m.crbegin(), m.crend()) != n)
    return false;
  for(std::ptrdiff_t i = 0; i <= n; ++i)
    for(std::ptrdiff_t j = 0; j <= n; ++j) {
      auto const x = b + std::size_t(i), y = e - std::size_t(n - j);
      if((x == y) != (i == j) || (x != y) != (i != j) || (x < y) != (i < j) ||
         (x > y) != (i > j) || (x <= y) != (i <= j) || (x >= y) != (i >= j) || y - x != j - i)
        return false;
      auto p = x, q = y;
      swap(p, q);
      if(p != y || q != x) return false;
    }
  return true;
}
std::string random_access(mono_t const& m) {
  std::vector<int> v;
  std::size_t const n = m.size();
  auto const b = m.begin(), e = m.end();
  for(std::size_t k = 0; k < n; ++k) {
    int const x = uni.id(*(b + k));
    bool same = uni.id(*(k + b)) == x && uni.id(b[k]) == x && uni.id(*(e - (n - k))) == x;
    auto p = b;
    p += k;
    same = same && uni.id(*p) == x && p->algebra_id() == (*p).algebra_id();
    auto q = p++;
    same = same && q == b + k && p == b + (k + 1) && --p == q;
    q = e;
    q -= n - k;
    same = same && q == p;
    auto r = q--;
    same = same && r == p && ++q == p;
    // signed distances, from both ends
    using diff = mono_t::const_iterator::difference_type;
    diff const back = diff(k) - diff(n), fwd = diff(k);
    auto s = e;
    s += back;
    same = same && s == p && *(e + back) == *p && *(back + e) == *p && e[back] == *p;
    s = b;
    s -= -fwd;
    same = same && s == p && *(b - (-fwd)) == *p;
    s -= fwd;
    same = same && s == b;
    auto const rb = m.rbegin(), re = m.rend();
    same = same && *(rb + (-back - 1)) == *p && *(re - (fwd + 1)) == *p && (re - 1) - rb == diff(n) - 1;
    v.push_back(same ? x : -1);
  }
  return jvec(v);
}

int main() {
  script sc(std::cin);
  bool header = false;
  auto reg = [&]() -> int {
    int r = int(sc.num());
    if(r < 1 || r > int(ms.size())) {
      std::cerr << "script error: register\n";
      std::exit(3);
    }
    return r;
  };
  while(sc.next()) {
    std::string op = sc.str();
    if(op == "gen") {
      uni.read(sc);
      continue;
    }
    if(!header) {
      header = true;
      emit("{\"e\":\"universe\",\"gens\":" + uni.header() + ",\"nr\":" + std::to_string(ms.size()) + "}");
      std::vector<std::string> v;
      for(auto const& g : uni.gens)
        v.push_back(text(*g));
      done("\"e\":\"gens\",\"txt\":" + jstrs(v));
    }
    if(op == "new") { // new r how g...
      int r = reg();
      std::string how = sc.str();
      std::vector<int> w;
      while(sc.more())
        w.push_back(int(sc.num()));
      auto g = [&](int k) { return uni.gens.at(w[k] - 1); };
      if(how == "o")
        ms[r - 1] = from_objects(w);
      else if(how == "i" && w.size() == 1)
        ms[r - 1] = mono_t{g(0)};
      else if(how == "i" && w.size() == 2)
        ms[r - 1] = mono_t{g(0), g(1)};
      else if(how == "i" && w.size() == 3)
        ms[r - 1] = mono_t{g(0), g(1), g(2)};
      else
        ms[r - 1] = uni.mono(w);
      done("\"e\":\"new\"" + num("r", r) + ",\"w\":" + jvec(w));
    } else if(op == "copy" || op == "cctor" || op == "move" || op == "mctor" || op == "swap") {
      int r = reg(), a = reg();
      mono_t &x = ms[r - 1], &y = ms[a - 1];
      std::string e = "copy";
      if(op == "copy")
        x = y;
      else if(op == "cctor") {
        mono_t z(y);
        x = z;
      } else if(op == "swap") {
        std::swap(x, y);
        e = op;
      } else {
        if(r == a) continue;
        if(op == "move")
          x = std::move(y);
        else {
          mono_t z(std::move(y));
          x = z;
        }
        y = mono_t();
        e = "move";
      }
      done("\"e\":\"" + e + "\"" + num("r", r) + num("a", a));
    } else if(op == "app") { // app r g
      int r = reg(), g = int(sc.num());
      ms[r - 1].append(*uni.gens.at(g - 1));
      done("\"e\":\"app\"" + num("r", r) + num("g", g));
    } else if(op == "appm") { // appm r a
      int r = reg(), a = reg();
      ms[r - 1].append(ms[a - 1]);
      done("\"e\":\"appm\"" + num("r", r) + num("a", a));
    } else if(op == "appr") { // appr r a i j, positions modulo the length
      int r = reg(), a = reg(), i = int(sc.num()), j = int(sc.num()), n = int(ms[a - 1].size());
      if(r == a) continue;
      i %= n + 1;
      j %= n + 1;
      if(i > j) std::swap(i, j);
      ms[r - 1].append(typename mono_t::range_type(ms[a - 1].begin() + i, ms[a - 1].begin() + j));
      done("\"e\":\"appr\"" + num("r", r) + num("a", a) + num("i", i) + num("j", j));
    } else if(op == "cat") { // cat r part..., a part being g:k, m:a or r:a:i:j
      int r = reg();
      std::vector<part> ps;
      std::string jp = "[";
      while(sc.more()) {
        part p{0, 0, 0, 0, 0};
        std::string t = sc.str();
        int x = 0, i = 0, j = 0;
        std::sscanf(t.c_str() + 2, "%d:%d:%d", &x, &i, &j);
        p.k = t[0];
        jp += jp == "[" ? "" : ",";
        if(p.k == 'g') {
          p.g = x;
          jp += "[\"g\"," + std::to_string(x) + "]";
        } else if(p.k == 'm') {
          p.a = x;
          jp += "[\"m\"," + std::to_string(x) + "]";
        } else {
          int n = int(ms[x - 1].size());
          i %= n + 1;
          j %= n + 1;
          if(i > j) std::swap(i, j);
          p.a = x;
          p.i = i;
          p.j = j;
          jp += "[\"r\"," + std::to_string(x) + "," + std::to_string(i) + "," + std::to_string(j) + "]";
        }
        ps.push_back(p);
      }
      if(ps.empty() || ps.size() > 4 || (ps.size() == 4 && ps[3].k != 'm')) {
        std::cerr << "script error: parts\n";
        return 3;
      }
      ms[r - 1] = cat(ps);
      done("\"e\":\"cat\"" + num("r", r) + ",\"p\":" + jp + "]");
    } else if(op == "swg") { // swg r i j
      int r = reg(), n = int(ms[r - 1].size());
      int i = int(sc.num()), j = int(sc.num());
      if(n == 0) continue;
      i %= n;
      j %= n;
      ms[r - 1].swap_generators(i, j);
      done("\"e\":\"swg\"" + num("r", r) + num("i", i) + num("j", j));
    } else if(op == "obs") { // obs r a
      int r = reg(), a = reg();
      mono_t const &m = ms[r - 1], &o = ms[a - 1];
      std::vector<int> f, b, x;
      for(auto const& g : m)
        f.push_back(uni.id(g));
      for(auto it = m.rbegin(); it != m.rend(); ++it)
        b.push_back(uni.id(*it));
      for(std::size_t k = 0; k < m.size(); ++k)
        x.push_back(uni.id(m[k]));
      int c = (m == o ? 1 : 0) + (m != o ? 2 : 0) + (m < o ? 4 : 0) + (m > o ? 8 : 0);
      done("\"e\":\"obs\"" + num("r", r) + num("a", a) + ",\"fwd\":" + jvec(f) + ",\"bwd\":" +
           jvec(b) + ",\"idx\":" + jvec(x) + ",\"ran\":" + random_access(m) +
           num("size", long(m.size())) + boolean("empty", m.empty()) + boolean("ord", m.is_ordered()) +
           num("cmp", c) + ",\"txt\":" + text(m) + boolean("its", iterators_ok(m)));
    } else {
      std::cerr << "script error: unknown operation " << op << "\n";
      return 3;
    }
  }
  return 0;
}
