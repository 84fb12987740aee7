// What a scenario (workload + oracle) sees of the simulator.
#pragma once
#include "rt.h"
#include <exception>
#include <initializer_list>
#include <string>
#include <typeinfo>
#include <vector>

namespace sim {
using rt::Mode;
using rt::M_HOST;
using rt::M_PEEK;
using rt::M_QUIET;
using rt::M_SIM;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  int below(int n) { return n <= 1 ? 0 : (int)(next() % (uint64_t)n); }
  int range(int lo, int hi) { return lo + below(hi - lo + 1); } // inclusive
  bool chance(int num, int den) { return below(den) < num; }
  int pickl(std::initializer_list<int> l) { return l.begin()[below((int)l.size())]; }
  template <class T, size_t N> T pick(const T (&a)[N]) { return a[below((int)N)]; }
};

struct Op {
  uint8_t fiber; // 1..
  uint8_t kind;  // 255 = removed by the minimiser
  int16_t a[6];
};
enum { OP_NONE = 255 };

struct Plan {
  uint64_t seed = 0;
  int nf = 1;
  int params[8] = {0, 0, 0, 0, 0, 0, 0, 0};
  std::vector<Op> ops;
  void add(int fiber, int kind, int a0 = 0, int a1 = 0, int a2 = 0, int a3 = 0, int a4 = 0, int a5 = 0) {
    Op o = {(uint8_t)fiber, (uint8_t)kind, {(int16_t)a0, (int16_t)a1, (int16_t)a2, (int16_t)a3, (int16_t)a4, (int16_t)a5}};
    ops.push_back(o);
  }
};

// Which faults make sense for the operations of a scenario, and how passes are mixed.
struct Tuning {
  bool alloc = true, callback = false, stream = false, entropy = false, stall = true, text = false, syscall = false;
  bool fresh = false;   // no warm-up pass: first-use races (each pass in its own process)
  int passes = 6;       // faulted / scheduled passes per plan
  uint64_t max_steps = 40000000;
};

struct Scenario {
  virtual ~Scenario() {}
  virtual void generate(Rng &r, Plan &p) = 0;           // HOST mode, driver
  virtual void begin(const Plan &p) = 0;                // driver, HOST mode: build the world
  virtual void exec(const Op &op, int index) = 0;       // in the op's fiber, HOST mode
  virtual void end() = 0;                               // driver, HOST mode: final checks, release everything
  virtual std::string show(const Plan &, const Op &) = 0;
  virtual const char *opname(const Op &) = 0;
};
typedef Scenario *(*Factory)();
struct Register {
  Register(const char *id, const char *variant, Factory f, Tuning t, int weight = 1);
};

struct callback_error : std::exception {
  const char *what() const noexcept override { return "simulated: the callback fails"; }
};
// body of every harness callback starts with this
inline void callback() {
  uint32_t m = rt::set_mode(M_HOST);
  bool t = rt::callback_point();
  rt::set_mode(m);
  if (t)
    throw callback_error();
}

struct Outcome {
  bool ok = false;
  bool cb = false; // our own callback_error came through
  std::string type, what;
};
std::string demangle(const char *);
void describe_exception(std::string &type, std::string &what); // inside a catch block; provided by the scenarios

// Calls f as the simulated program; every exception is caught here.
template <class F> Outcome attempt(F &&f, uint32_t mode = M_SIM) {
  Outcome o;
  try {
    Mode m(mode);
    f();
    o.ok = true;
  } catch (const callback_error &) {
    o.cb = true;
    o.type = "callback_error";
  } catch (const std::exception &e) {
    o.type = demangle(typeid(e).name());
    o.what = e.what();
  } catch (...) {
    describe_exception(o.type, o.what);
  }
  return o;
}
// The call must succeed, unless an injected fault fired in this operation.  Returns false if it failed.
template <class F> bool expect_ok(const char *what, F &&f) {
  Outcome o = attempt(f);
  if (!o.ok && !rt::op_fired_mask())
    rt::violation("unexpected-error", "%s failed although nothing was injected: %s: %s", what, o.type.c_str(), o.what.c_str());
  return o.ok;
}
// The call must succeed; if an injected fault made it fail, it is retried with the faults stopped and must
// then succeed ("progress after faults stop").  `between` checks that nothing observable changed.
template <class F, class G> void must_do(const char *what, F &&f, G &&between) {
  if (!expect_ok(what, f)) {
    between();
    rt::op_faults_off();
    Outcome o = attempt(f);
    if (!o.ok)
      rt::violation("no-recovery", "%s still fails after the injected faults stopped: %s: %s", what, o.type.c_str(),
                    o.what.c_str());
  }
}
template <class F> void must_do(const char *what, F &&f) {
  must_do(what, f, [] {});
}
// The call must fail with an exception.
template <class F> void must_fail(const char *what, F &&f) {
  Outcome o = attempt(f);
  if (o.ok)
    rt::violation("missing-error", "%s succeeded but has to be refused", what);
}

void probe(const char *name); // counts reach; name must be a string literal
#define PROBE(x)                                                                                                       \
  do {                                                                                                                 \
    uint32_t pm_ = rt::set_mode(rt::M_HOST);                                                                           \
    sim::probe(x);                                                                                                     \
    rt::set_mode(pm_);                                                                                                 \
  } while (0)
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
bool verbose();
} // namespace sim
