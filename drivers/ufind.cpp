// Histories of operations on disjoint sets.
#include "common.hpp"
#include <libcommute/loperator/disjoint_sets.hpp>
#include <memory>

using libcommute::disjoint_sets;

int main() {
  script sc(std::cin);
  disjoint_sets d(0);
  emit("{\"e\":\"ufind\"}");
  auto obs = [&](std::string const& head) {
    disjoint_sets c(d);
    std::vector<i64> q;
    for(std::size_t x = 0; x < c.size(); ++x)
      q.push_back(i64(c.find_root(x)));
    emit(head + ",\"q\":" + jvec(q) + ",\"n\":" + std::to_string(d.n_sets()) +
         ",\"sz\":" + std::to_string(d.size()) + "}");
  };
  auto st = [](std::size_t x) { return std::to_string(i64(x)); };
  while(sc.next()) {
    std::string op = sc.str();
    if(op == "new") {
      std::size_t k = sc.num();
      d = disjoint_sets(k);
      obs("{\"e\":\"new\",\"k\":" + st(k));
    } else if(op == "make") {
      std::size_t r = d.make_set();
      obs("{\"e\":\"makes\",\"k\":1,\"one\":true,\"r\":" + st(r));
    } else if(op == "makes") {
      std::size_t k = sc.num();
      d.make_sets(k);
      obs("{\"e\":\"makes\",\"one\":false,\"r\":-1,\"k\":" + st(k));
    } else if(op == "find") {
      std::size_t x = sc.num();
      std::size_t r = d.find_root(x);
      obs("{\"e\":\"find\",\"x\":" + st(x) + ",\"r\":" + st(r));
    } else if(op == "same") {
      std::size_t x = sc.num(), y = sc.num();
      bool r = d.in_same_set(x, y);
      obs("{\"e\":\"same\",\"x\":" + st(x) + ",\"y\":" + st(y) + ",\"r\":" + (r ? "true" : "false"));
    } else if(op == "union") {
      std::size_t x = sc.num(), y = sc.num();
      std::size_t r = d.set_union(x, y);
      obs("{\"e\":\"union\",\"x\":" + st(x) + ",\"y\":" + st(y) + ",\"r\":" + st(r));
    } else if(op == "join") {
      // by means of representatives
      std::size_t x = d.find_root(sc.num()), y = d.find_root(sc.num());
      if(x == y) continue;
      std::size_t r = d.root_union(x, y);
      obs("{\"e\":\"union\",\"x\":" + st(x) + ",\"y\":" + st(y) + ",\"r\":" + st(r));
    } else if(op == "compress") {
      d.compress_sets();
      obs("{\"e\":\"compress\"");
    } else if(op == "normalize") {
      d.normalize_sets();
      obs("{\"e\":\"normalize\"");
    } else if(op == "compnorm") {
      d.compress_sets();
      obs("{\"e\":\"compress\"");
      d.normalize_sets();
      obs("{\"e\":\"normalize\"");
    } else {
      std::cerr << "script error: unknown operation " << op << "\n";
      return 3;
    }
  }
}
