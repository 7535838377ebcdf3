// Cooperative scheduling of calls of the library. A call runs until it enters
// user code (a callback, arithmetic of the scalar type, comparison of indices);
// there a schedule decides which thread goes on, and whether it first makes
// another call in the middle of the one that has been interrupted.
#ifndef VERIF_CONC_HPP_
#define VERIF_CONC_HPP_

#include "common.hpp"

#include <libcommute/libcommute.hpp>

#include <condition_variable>
#include <functional>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

struct scheduler {
  std::mutex m;
  std::condition_variable cv;
  bool on = false;        // a cooperative round is going on
  int cur = -1;           // the thread that may run
  bool nest = false;      // it has to make a nested call first
  std::vector<bool> done;
  std::vector<int> plan;  // n: thread n goes on; -n - 1: with a nested call
  std::size_t pos = 0, switches = 0;
  int burst = 1, left = 0;
  std::function<void(int)> nested; // makes a nested call of the thread
  int allowed = 0;                 // nested calls that may be made

  // the next element of the plan
  void pick() {
    for(std::size_t k = 0; k < plan.size(); ++k) {
      int e = plan[pos++ % plan.size()];
      int t = e < 0 ? -e - 1 : e;
      if(t < int(done.size()) && !done[t]) {
        cur = t;
        nest = e < 0;
        left = burst * (1 + int(pos / 64));
        return;
      }
    }
    for(std::size_t t = 0; t < done.size(); ++t)
      if(!done[t]) {
        cur = int(t);
        nest = false;
        left = burst * (1 + int(pos / 64));
        return;
      }
    cur = -1;
  }
};
inline scheduler& sched() {
  static scheduler s;
  return s;
}
// the number of this thread, -1 outside of calls
struct self_t {
  int t = -1, depth = 0;
};
inline self_t& self() {
  static thread_local self_t s;
  return s;
}

inline void yield_() {
  auto& s = sched();
  self_t& me = self();
  if(!s.on || me.t < 0) return;
  if(--s.left > 0) return;
  bool n = false;
  {
    std::unique_lock<std::mutex> l(s.m);
    s.pick();
    if(s.cur != me.t) {
      ++s.switches;
      s.cv.notify_all();
      s.cv.wait(l, [&]() { return s.cur == me.t; });
    }
    n = s.nest;
    s.nest = false;
  }
  if(n && me.depth < 3 && s.allowed-- > 0) {
    ++me.depth;
    s.nested(me.t);
    --me.depth;
  }
}

// A real number whose arithmetic is user code
struct yd {
  double x = 0;
  yd() = default;
  yd(double x_) : x(x_) {}
  yd(int x_) : x(x_) {}
  friend yd operator+(yd const& a, yd const& b) { return yield_(), yd(a.x + b.x); }
  friend yd operator-(yd const& a, yd const& b) { return yield_(), yd(a.x - b.x); }
  friend yd operator*(yd const& a, yd const& b) { return yield_(), yd(a.x * b.x); }
  friend yd operator-(yd const& a) { return yield_(), yd(-a.x); }
  yd& operator+=(yd const& b) { return yield_(), x += b.x, *this; }
  yd& operator-=(yd const& b) { return yield_(), x -= b.x, *this; }
  yd& operator*=(yd const& b) { return yield_(), x *= b.x, *this; }
  friend bool operator==(yd const& a, yd const& b) { return a.x == b.x; }
  friend bool operator!=(yd const& a, yd const& b) { return a.x != b.x; }
  friend std::ostream& operator<<(std::ostream& os, yd const& a) { return os << a.x; }
};

// An index whose comparison is user code
struct yint {
  int i = 0;
  yint() = default;
  yint(int i_) : i(i_) {}
  operator int() const { return i; }
  friend bool operator<(yint const& a, yint const& b) { return yield_(), a.i < b.i; }
  friend bool operator>(yint const& a, yint const& b) { return yield_(), a.i > b.i; }
  friend bool operator==(yint const& a, yint const& b) { return yield_(), a.i == b.i; }
  friend bool operator!=(yint const& a, yint const& b) { return yield_(), a.i != b.i; }
  friend std::string to_string(yint const& a) { return std::to_string(a.i); }
  friend std::ostream& operator<<(std::ostream& os, yint const& a) { return os << a.i; }
};

namespace libcommute {
template <> struct scalar_traits<yd> {
  static bool is_zero(yd const& a) {
    yield_();
    return std::abs(a.x) < 1e-14;
  }
  static yd make_const(double x) { return yd(x); }
  static yd make_const(var_number const& x) { return yd(double(x)); }
  static yd conj(yd const& a) { return a; }
};
} // namespace libcommute

template <> struct from_cq<yd, void> {
  static yd make(cq c) { return yd(double(c.re) / double(c.den)); }
};
template <> struct to_cq<yd, void> {
  static cq conv(yd const& a) { return to_cq<double>::conv(a.x); }
};

#endif
