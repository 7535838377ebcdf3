// Register machine over Hilbert spaces: construction, insertion, copies, moves,
// comparison, enumeration of basis states, construction from expressions.
#include <functional>
#include "hilbert.hpp"

#ifndef CFG
#define CFG idx_cfg<int>
#endif
using cfg = CFG;
using hspace = spaces_of<cfg>::hspace;
using base = spaces_of<cfg>::base;
static constexpr int NR = 5;

universe<cfg> uni;
es_universe<cfg> eu;
std::vector<hspace> hs(NR);
std::vector<bool> moved(NR, false);
std::vector<std::string> dumps(NR);
int flavour = 0;

// Last index of a generator (non-negative in scripts that use rule "own")
template <typename... T> int last_int(std::tuple<T...> const& t) {
  if constexpr(sizeof...(T) > 0) {
    auto const& x = std::get<sizeof...(T) - 1>(t);
    using X = std::decay_t<decltype(x)>;
    if constexpr(std::is_same<X, int>::value)
      return x;
    else if constexpr(std::is_same<X, libcommute::dynamic_indices::dyn_indices>::value)
      return x.size() == 0 ? 0 :
          std::get<int>(static_cast<std::vector<std::variant<int, std::string>> const&>(x).back());
  }
  return 0;
}

namespace libcommute {
template <> class es_constructor<1> {
public:
  template <typename... IndexTypes>
  std::unique_ptr<elementary_space<IndexTypes...>>
  operator()(generator<IndexTypes...> const& g) const {
    return std::unique_ptr<elementary_space<IndexTypes...>>(
        new user_space<elementary_space<IndexTypes...>>(1, 5, g.indices()));
  }
};
// a rule with a parameter that has a default value
template <> class es_constructor<2> {
  sv_index_type dim_;

public:
  es_constructor(sv_index_type dim = 3) : dim_(dim) {}
  template <typename... IndexTypes>
  std::unique_ptr<elementary_space<IndexTypes...>>
  operator()(generator<IndexTypes...> const& g) const {
    if(g.algebra_id() != 2) throw es_construction_failure<IndexTypes...>(g);
    return std::unique_ptr<elementary_space<IndexTypes...>>(
        new user_space<elementary_space<IndexTypes...>>(2, dim_, g.indices()));
  }
};
} // namespace libcommute

void finish(std::string const& head, std::string const& err) {
  std::string ch = "[";
  bool first = true;
  for(int r = 0; r < NR; ++r) {
    if(moved[r]) continue;
    std::string d = eu.dump(hs[r]);
    if(d != dumps[r]) {
      ch += std::string(first ? "" : ",") + "[" + std::to_string(r + 1) + "," +
            d + "]";
      first = false;
      dumps[r] = d;
    }
  }
  emit("{" + head + ",\"x\":" + err + ",\"ch\":" + ch + "]}");
}

template <typename F> std::string guarded(F&& f) {
  auto e = [](std::string const& t, std::string const& p) {
    return "[\"" + t + "\"," + p + "]";
  };
  try {
    f();
  } catch(hspace::elementary_space_exists const& x) {
    return e("exists", std::to_string(eu.id(*x.elementary_space_ptr)));
  } catch(hspace::elementary_space_not_found const& x) {
    return e("notfound", std::to_string(eu.id(*x.elementary_space_ptr)));
  } catch(hspace::hilbert_space_too_big const& x) {
    return e("toobig", std::to_string(x.n_bits));
  } catch(std::exception const& x) { return e("other", "0"); }
  return "[\"\",0]";
}

struct stop {};

int main() {
  script sc(std::cin);
  bool header = false;
  auto put_header = [&]() {
    if(header) return;
    header = true;
    emit("{\"e\":\"spaces\",\"es\":" + eu.header() +
         ",\"gens\":" + uni.header() + ",\"nr\":" + std::to_string(NR) + "}");
    for(int r = 0; r < NR; ++r)
      dumps[r] = "";
    finish("\"e\":\"init\"", "[\"\",0]");
  };
  while(sc.next()) {
    std::string op = sc.str();
    if(op == "es") {
      eu.read(sc);
      continue;
    }
    if(op == "gen") {
      uni.read(sc);
      continue;
    }
    put_header();
    std::string ev = "\"e\":\"" + op + "\"";
    int t = sc.more() && op != "eqs" ? int(sc.num()) - 1 : 0;
    ev += ",\"t\":" + std::to_string(t + 1);
    auto list = [&]() {
      std::vector<int> v;
      while(sc.more())
        v.push_back(int(sc.num()));
      return v;
    };
    if(op == "new" || op == "vec") {
      auto v = list();
      std::vector<base*> p;
      for(int k : v)
        p.push_back(eu.es.at(k - 1).get());
      auto err = guarded([&]() {
        if(op == "vec")
          hs[t] = hspace(p);
        else
          switch(p.size()) {
          case 0: hs[t] = hspace(); break;
          case 1: hs[t] = hspace(*p[0]); break;
          case 2: hs[t] = hspace(*p[0], *p[1]); break;
          case 3: hs[t] = hspace(*p[0], *p[1], *p[2]); break;
          case 4: hs[t] = hspace(*p[0], *p[1], *p[2], *p[3]); break;
          default:
            hs[t] = hspace(*p[0], *p[1], *p[2], *p[3], *p[4]);
            v.resize(5);
          }
        moved[t] = false;
      });
      finish(ev + ",\"l\":" + jvec(v), err);
    } else if(op == "add") {
      if(moved[t]) continue;
      int k = int(sc.num());
      auto err = guarded([&]() { hs[t].add(*eu.es.at(k - 1)); });
      finish(ev + ",\"k\":" + std::to_string(k), err);
    } else if(op == "copy" || op == "cctor" || op == "move" || op == "mctor" ||
              op == "swap") {
      int a = int(sc.num()) - 1;
      if(moved[a] || (op == "swap" && (moved[t] || a == t))) continue;
      if((op == "move" || op == "mctor") && a == t) continue;
      auto err = guarded([&]() {
        if(op == "copy") {
          auto const& src = hs[a];
          hs[t] = src;
        } else if(op == "cctor") {
          hspace x(hs[a]);
          hs[t] = std::move(x);
        } else if(op == "move")
          hs[t] = std::move(hs[a]);
        else if(op == "mctor") {
          hspace x(std::move(hs[a]));
          hs[t] = std::move(x);
        } else
          std::swap(hs[t], hs[a]);
      });
      moved[t] = false;
      if(op == "move" || op == "mctor") moved[a] = true;
      finish(ev + ",\"a\":" + std::to_string(a + 1), err);
    } else if(op == "eqs") {
      std::vector<std::string> rows;
      for(int a = 0; a < NR; ++a) {
        std::vector<int> row;
        for(int b = 0; b < NR; ++b)
          row.push_back(moved[a] || moved[b]
                            ? 0
                            : (hs[a] == hs[b] ? 1 : 0) + (hs[a] != hs[b] ? 2 : 0));
        rows.push_back(jvec(row));
      }
      finish(ev + ",\"v\":" + jstrs(rows), "[\"\",0]");
    } else if(op == "foreach") {
      // foreach t <limit>: the iteration is abandoned after `limit` states
      if(moved[t]) continue;
      std::size_t limit = std::size_t(sc.unum());
      std::vector<std::string> v;
      bool stopped = false;
      try {
        foreach(hs[t], [&](libcommute::sv_index_type i) {
          v.push_back(jbits(i));
          if(v.size() >= limit) throw stop();
        });
      } catch(stop const&) { stopped = true; }
      finish(ev + ",\"lim\":" + std::to_string(limit) + ",\"st\":" +
                 (stopped ? "true" : "false") + ",\"s\":" + jstrs(v),
             "[\"\",0]");
    } else if(op == "sample") {
      // sample t <step> <limit>: every step-th of the first states
      if(moved[t]) continue;
      std::uint64_t step = sc.unum(), limit = sc.unum(), n = 0, last = 0, next = 0;
      std::vector<std::string> v;
      bool stopped = false, ascending = true;
      try {
        foreach(hs[t], [&](libcommute::sv_index_type i) {
          if(n == next) {
            v.push_back(jbits(i));
            next += step;
          }
          ascending = ascending && (n == 0 || last < i);
          last = i;
          if(++n == limit) throw stop();
        });
      } catch(stop const&) { stopped = true; }
      finish(ev + ",\"step\":" + std::to_string(step) + ",\"lim\":" + std::to_string(limit) +
                 ",\"n\":" + std::to_string(n) + ",\"asc\":" + (ascending ? "true" : "false") +
                 ",\"st\":" + (stopped ? "true" : "false") + ",\"s\":" + jstrs(v),
             "[\"\",0]");
    } else if(op == "foreachs") {
      // all states of a small space as numbers
      if(moved[t]) continue;
      std::vector<std::uint64_t> v;
      auto const& h = hs[t];
      std::uint64_t n = 0;
      foreach(h, [&](libcommute::sv_index_type i) {
        if(++n <= 20000) v.push_back(i);
      });
      finish(ev + ",\"n\":" + std::to_string(n) + ",\"s\":" + jvec(v),
             "[\"\",0]");
    } else if(op == "nest") {
      // nest t a <stop>: an iteration over a inside an iteration over t; the
      // inner one is abandoned after `stop` states at every second state
      int a = int(sc.num()) - 1;
      std::size_t lim = std::size_t(sc.unum());
      if(moved[t] || moved[a]) continue;
      std::vector<std::uint64_t> o;
      std::vector<std::string> in;
      bool full = false;
      foreach(hs[t], [&](libcommute::sv_index_type i) {
        full = !full;
        o.push_back(i);
        std::vector<std::uint64_t> v;
        try {
          foreach(hs[a], [&](libcommute::sv_index_type j) {
            v.push_back(j);
            if(!full && v.size() >= lim) throw stop();
          });
        } catch(stop const&) {}
        in.push_back(jvec(v));
      });
      finish(ev + ",\"a\":" + std::to_string(a + 1) + ",\"lim\":" +
                 std::to_string(lim) + ",\"o\":" + jvec(o) + ",\"in\":" + jstrs(in),
             "[\"\",0]");
    } else if(op == "expr") {
      // expr t <rule> <dim> g.. | g.. | ...  terms are separated by 0
      std::string rule = sc.str();
      std::uint64_t dim = sc.unum();
      cfg::expr_t<double> e;
      std::vector<int> w;
      double c = 1;
      while(true) {
        int k = sc.more() ? int(sc.num()) : 0;
        if(k == 0) {
          e += cfg::expr_t<double>(c, uni.mono(w));
          c += 1;
          w.clear();
          if(!sc.more()) break;
        } else
          w.push_back(k);
      }
      using namespace libcommute;
      using gen = cfg::gen_t;
      using failure = decltype(es_construction_failure(std::declval<gen const&>()));
      std::string who = "0";
      auto run = [&](auto&& make) {
        return guarded([&]() {
          try {
            make();
            moved[t] = false;
          } catch(failure const& x) {
            who = std::to_string(uni.id(*x.generator_ptr));
            throw;
          }
        });
      };
      auto with = [&](auto r) {
        using R = decltype(r);
        R copy(r);              // of an object that can be changed
        R const copy2(static_cast<R const&>(copy));
        R moved_to(R{copy2});
        R assigned(r);
        assigned = moved_to;
        switch(++flavour % 6) {
        case 0: return run([&]() { hs[t] = make_hilbert_space(e, r); });
        case 1: return run([&]() { hs[t] = hspace(e, copy); });
        case 2: return run([&]() { hs[t] = hspace(e, copy2); });
        case 3: return run([&]() { hs[t] = hspace(e, std::move(moved_to)); });
        case 4: return run([&]() { hs[t] = make_hilbert_space(e, assigned); });
        default: return run([&]() { hs[t] = hspace(e, R(r)); });
        }
      };
      auto own = [&](gen const& g) -> std::unique_ptr<base> {
        if(g.algebra_id() == boson) {
          std::uint64_t n = dim + last_int(g.indices()) % 3;
          using B = spaces_of<cfg>::boson;
          return std::apply([n](auto const&... i) {
            return std::unique_ptr<base>(new B(n, i...)); }, g.indices());
        }
        return default_es_constructor()(g);
      };
      std::string err =
          rule == "default" ? (++flavour % 2 ? run([&]() { hs[t] = hspace(e); }) :
                                 run([&]() { hs[t] = make_hilbert_space(e); })) :
          rule == "boson"   ? with(boson_es_constructor(dim)) :
          rule == "f"       ? with(es_constructor<fermion>()) :
          rule == "b"       ? with(es_constructor<boson>(dim)) :
          rule == "s"       ? with(es_constructor<spin>()) :
          rule == "fb"      ? with(es_constructor<fermion, boson>(dim)) :
          rule == "bs"      ? with(es_constructor<boson, spin>(dim)) :
          rule == "all"     ? with(es_constructor<fermion, boson, spin, 1>(dim)) :
          rule == "fu"      ? with(es_constructor<fermion, 1>()) :
          rule == "all2"    ? with(es_constructor<fermion, boson, spin, 1, 2>(dim, 6)) :
          rule == "su2"     ? with(es_constructor<spin, 2>(6)) :
          rule == "bu2"     ? with(es_constructor<boson, 2>(dim, 9)) :
          rule == "fu2"     ? with(es_constructor<fermion, 2>()) :
          rule == "u2"      ? with(es_constructor<2>(9)) :
          rule == "own"     ? with(std::function<std::unique_ptr<base>(gen const&)>(own)) : "[\"script\",0]";
      // the exception's class is not known to guarded()
      if(who != "0") err = "[\"failure\"," + who + "]";
      finish(ev + ",\"r\":\"" + rule + "\",\"d\":" + jwide(dim) + ",\"p\":" +
                 uni.jexpr(e),
             err);
    } else {
      std::cerr << "script error: unknown operation " << op << "\n";
      return 3;
    }
  }
  put_header();
  return 0;
}
