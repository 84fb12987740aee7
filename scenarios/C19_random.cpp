// C19: random numbers.  Threads draw at the same time from the common engine, whose seed comes from a simulated entropy source
// that may fail; every element is set, within its bounds, and no part of the stream is given out twice.
#include "numeric.h"
#include <functional>
#include <dynd/random.hpp>
using namespace numeric;

namespace {
enum { A_DRAW, A_INTO, A_ENDS, A_STREAM, A_REFUSED, NK };
const char *const names[] = {"uniform", "uniform into a destination", "uniform over a small range", "uniform of whole words", "refused uniform"};
const K kinds[] = {I32, I64, U32, U64, F32, F64};

struct C19 : Scenario {
  bool fresh;
  std::vector<uint64_t> seen; // whole words drawn by anyone
  explicit C19(bool f) : fresh(f) {}

  void generate(Rng &r, Plan &p) override {
    p.nf = r.chance(1, 5) ? 1 : r.range(2, 4);
    int n = r.range(3, fresh ? 8 : 14);
    static const int mix[] = {A_DRAW, A_DRAW, A_DRAW, A_INTO, A_INTO, A_ENDS, A_STREAM, A_STREAM, A_REFUSED};
    for (int i = 0; i < n; i++)
      p.add(r.range(1, p.nf), r.pick(mix), r.below(30000), r.below(30000));
  }
  std::string show(const Plan &, const Op &o) override { return fmt("%s r=%d,%d", names[o.kind % NK], o.a[0], o.a[1]); }
  const char *opname(const Op &o) override { return names[o.kind % NK]; }
  void begin(const Plan &) override {
    Mode h(M_HOST);
    seen.clear();
  }
  void end() override {
    Mode h(M_HOST);
    seen.clear();
  }

  static T dims(Rng &r, T t, bool vars) {
    for (int n = r.pickl({0, 1, 1, 2, 2, 3}); n > 0; n--)
      t = dim(vars && r.chance(1, 4) ? -1 : r.chance(1, 12) ? 0 : r.range(1, 6), t);
    return t;
  }
  static bool failed_by_fault(const Outcome &o) { return rt::op_fired_mask() && (o.type == "std::bad_alloc" || o.type == "std::runtime_error"); }
  static void retried(const char *what, const std::string &on, const std::function<void()> &f) {
    Outcome o;
    for (int i = 0; i < 2; i++) {
      o = attempt(f);
      if (o.ok || !failed_by_fault(o))
        break;
      rt::op_faults_off();
      PROBE("again after a failure");
      if (o.type == "std::runtime_error")
        PROBE("entropy source failed");
    }
    if (!o.ok)
      rt::violation("unexpected-error", "%s of %s: %s: %s", what, on.c_str(), o.type.c_str(), o.what.c_str());
  }
  struct Bounds {
    bool lo = false, hi = false; // given
    P a, b;
  };
  template <class A> static A whole(Rng &r) { return (A)((uint64_t)r.next()); }
  static P of(K k, long long i, double d) {
    P p(new V());
    p->unset = false;
    if (k >= F32)
      p->d = d;
    else
      p->i = i;
    return p;
  }
  static Bounds bounds(Rng &r, K k) {
    Bounds o;
    o.lo = r.chance(2, 3), o.hi = r.chance(2, 3);
    if (k >= F32) {
      double x = r.below(2000) / 8.0 - 125, w = r.chance(1, 8) ? 0 : (r.below(1000) + 1) / 16.0;
      o.a = of(k, 0, x), o.b = of(k, 0, x + w);
      if (!o.lo)
        o.a->d = 0, o.b->d = o.hi ? w : 1;
      else if (!o.hi) {
        o.b->d = 1;
        if (o.a->d > 1)
          o.a->d = 0.5;
      }
      return o;
    }
    bool u = k == U32 || k == U64, small = k == I32 || k == U32;
    long long top = small ? (u ? 0xffffffffll : 0x7fffffffll) : u ? -1 : std::numeric_limits<long long>::max();
    long long x = u ? r.below(1000) : r.below(1000) - 500;
    if (r.chance(1, 6)) // the whole range
      x = u ? 0 : small ? -0x7fffffffll : -std::numeric_limits<long long>::max();
    long long y = r.chance(1, 6) ? top : r.chance(1, 6) ? x : (x < -500 ? 0 : x) + r.below(5000);
    if (!o.lo) {
      x = 0;
      if (y < 0 && top != -1)
        y = 7;
    }
    if (!o.hi)
      y = top;
    else if (k == U32)
      y = std::min(y, top - 1); // the largest stands for a missing one
    else if (k == U64 && y == -1)
      y = -2;
    o.a = of(k, x, 0), o.b = of(k, y, 0);
    return o;
  }
  template <class A> static void keys(std::vector<std::pair<const char *, nd::array>> &kw, const Bounds &b) {
    if (b.lo)
      kw.emplace_back("a", nd::array(get<A>(b.a.get())));
    if (b.hi)
      kw.emplace_back("b", nd::array(get<A>(b.b.get())));
  }
  // runs the function with bounds and one more keyword
  template <class F> static void run(K k, const Bounds &b, const char *last, F value, nd::array &out) {
    with(k, [&](auto z) {
      typedef decltype(z) A;
      std::vector<std::pair<const char *, nd::array>> kw;
      keys<A>(kw, b);
      kw.emplace_back(last, value());
      out = nd::random::uniform.call(0, nullptr, kw.size(), kw.data());
      return 0;
    });
  }
  template <class A> static bool inside(const Bounds &b, A x) {
    A lo = get<A>(b.a.get()), hi = get<A>(b.b.get());
    return !(x < lo) && !(hi < x);
  }
  template <class A> static void each(const ndt::type &tp, const char *meta, const char *data, std::vector<A> &o) {
    if (tp.get_id() == fixed_dim_id) {
      const fixed_dim_type_arrmeta *m = reinterpret_cast<const fixed_dim_type_arrmeta *>(meta);
      for (intptr_t i = 0; i < m->dim_size; i++)
        each(tp.extended<ndt::base_dim_type>()->get_element_type(), meta + sizeof *m, data + i * m->stride, o);
    } else if (tp.get_id() == var_dim_id) {
      const ndt::var_dim_type::metadata_type *m = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(meta);
      const ndt::var_dim_type::data_type *d = reinterpret_cast<const ndt::var_dim_type::data_type *>(data);
      for (size_t i = 0; i < d->size; i++)
        each(tp.extended<ndt::base_dim_type>()->get_element_type(), meta + sizeof *m, d->begin + m->offset + i * m->stride, o);
    } else
      o.push_back(*reinterpret_cast<const A *>(data));
  }
  template <class A> static std::vector<A> elements(const nd::array &a) {
    std::vector<A> o;
    Mode m(M_PEEK);
    each(a.get_type(), a.get()->metadata(), a.cdata(), o);
    return o;
  }
  static void check_inside(const char *what, K k, const Bounds &b, const nd::array &a, size_t n) {
    with(k, [&](auto z) {
      typedef decltype(z) A;
      std::vector<A> v = elements<A>(a);
      if (v.size() != n)
        rt::violation("wrong-shape", "%s: %d elements, not %d", what, (int)v.size(), (int)n);
      for (A x : v)
        if (!inside<A>(b, x))
          rt::violation("out-of-range", "%s: %s is not between %s and %s", what, text(scalar(k), box<A>(x)).c_str(), text(scalar(k), b.a).c_str(), text(scalar(k), b.b).c_str());
      return 0;
    });
  }
  static size_t count(const T &t) {
    if (t.k == VAR)
      return count(t.sub[0]); // made with one element
    return t.k == FIXED ? t.n * count(t.sub[0]) : 1;
  }
  static void draw(Rng &r) {
    K k = r.pick(kinds);
    T t = dims(r, scalar(k), true);
    Bounds b = bounds(r, k);
    if (r.chance(1, 8)) { // complex
      complex_(r);
      return;
    }
    ndt::type tp;
    must_do("the type", [&] { tp = typed::make(t); });
    nd::array a;
    retried("uniform", ds(t), [&] { run(k, b, "dst_tp", [&] { return nd::array(tp); }, a); });
    check_type("uniform", a, t);
    check_inside("uniform", k, b, a, count(t));
    drop(a);
    {
      Mode m(M_SIM);
      tp = ndt::type();
    }
    PROBE("drawn");
    if (!b.lo && !b.hi)
      PROBE("without bounds");
  }
  static void complex_(Rng &r) {
    int n = r.below(6);
    double x = r.below(100) - 50, y = r.below(100) - 50, w = r.below(20), h = r.below(20);
    ndt::type tp;
    must_do("the type", [&] { tp = ndt::type(fmt("%d * complex[float64]", n)); });
    nd::array a;
    retried("uniform", "complex numbers", [&] {
      a = nd::random::uniform({}, {{"a", dynd::complex<double>(x, y)}, {"b", dynd::complex<double>(x + w, y + h)}, {"dst_tp", tp}});
    });
    std::vector<dynd::complex<double>> v = elements<dynd::complex<double>>(a);
    if ((int)v.size() != n)
      rt::violation("wrong-shape", "uniform of complex numbers: %d elements, not %d", (int)v.size(), n);
    for (auto &e : v)
      if (e.real() < x || e.real() > x + w || e.imag() < y || e.imag() > y + h)
        rt::violation("out-of-range", "uniform: %g + %gi is not in the box at %g + %gi of %g by %g", e.real(), e.imag(), x, y, w, h);
    drop(a);
    {
      Mode m(M_SIM);
      tp = ndt::type();
    }
    PROBE("complex");
  }
  // only the elements of the destination change, whatever its strides
  static void into(Rng &r) {
    K k = r.pick(kinds);
    int n = r.range(1, 9), m = r.range(1, 4), step = r.pickl({1, 2, 3, -1, -2});
    T t = dim(n, dim(m, scalar(k)));
    Bounds b = bounds(r, k);
    P out = of(k, 0, -1e30); // something that is never drawn
    bool rec = k >= F32;
    if (!rec) {
      b.lo = b.hi = true;
      b.a = of(k, 10, 0), b.b = of(k, 10 + r.below(100), 0);
      out = of(k, 3, 0);
    }
    std::vector<P> rows;
    for (int i = 0; i < n; i++) {
      P row(new V());
      row->unset = false;
      for (int j = 0; j < m; j++)
        row->v.push_back(P(new V(*out)));
      rows.push_back(row);
    }
    P p(new V());
    p->unset = false;
    p->v = rows;
    nd::array a, d;
    must_do("nd::empty", [&] { a = nd::empty(typed::make(t)); });
    {
      Mode q(M_QUIET);
      fill(a, t, p);
    }
    int start = r.below(n);
    std::vector<bool> in(n);
    for (int i = start; i >= 0 && i < n; i += step)
      in[i] = true;
    must_do("slicing", [&] { d = step > 0 ? a(irange(start, n, step)) : a(irange(start, std::numeric_limits<intptr_t>::max(), step)); });
    retried("uniform into", ds(t), [&] {
      nd::array x;
      run(k, b, "dst", [&] { return d; }, x);
    });
    with(k, [&](auto z) {
      typedef decltype(z) A;
      std::vector<A> v = elements<A>(a);
      A before = get<A>(out.get());
      for (size_t i = 0; i < v.size(); i++)
        if (in[i / m] ? !inside<A>(b, v[i]) : v[i] != before)
          rt::violation("wrong-value", "uniform into rows from %d in steps of %d of %s: element %d is %s", start, step, ds(t).c_str(), (int)i, text(scalar(k), box<A>(v[i])).c_str());
      return 0;
    });
    drop(d);
    drop(a);
    PROBE("into a destination");
  }
  // all of a small range is used
  static void ends(Rng &r) {
    K k = r.pick(kinds);
    Bounds b;
    b.lo = b.hi = true;
    long long x = r.below(50), w = r.range(1, 3);
    b.a = of(k, x, x), b.b = of(k, x + w, x + w);
    nd::array a;
    int n = 160;
    ndt::type tp;
    must_do("the type", [&] { tp = typed::make(dim(n, scalar(k))); });
    retried("uniform", "a small range", [&] { run(k, b, "dst_tp", [&] { return nd::array(tp); }, a); });
    check_inside("uniform over a small range", k, b, a, n);
    with(k, [&](auto z) {
      typedef decltype(z) A;
      std::vector<A> v = elements<A>(a);
      double lo = 1e300, hi = -1e300;
      for (A e : v)
        lo = std::min(lo, (double)e), hi = std::max(hi, (double)e);
      double edge = k >= F32 ? w * 0.3 : 0;
      if (lo > x + edge || hi < x + w - edge)
        rt::violation("out-of-range", "%d numbers from %lld to %lld are all from %g to %g", n, x, x + w, lo, hi);
      return 0;
    });
    drop(a);
    {
      Mode m(M_SIM);
      tp = ndt::type();
    }
    PROBE("the ends of a range");
  }
  // the engine's period is far longer than what a run draws: the same word twice means that two draws took the same numbers
  void stream(Rng &r) {
    int n = r.range(1, 12);
    nd::array a;
    ndt::type tp;
    must_do("the type", [&] { tp = typed::make(dim(n, scalar(U64))); });
    retried("uniform", "whole words", [&] { run(U64, Bounds(), "dst_tp", [&] { return nd::array(tp); }, a); });
    std::vector<uint64_t> v = elements<uint64_t>(a);
    for (uint64_t x : v) {
      if (std::find(seen.begin(), seen.end(), x) != seen.end())
        rt::violation("repeated", "the number %llu was drawn before", (unsigned long long)x);
      seen.push_back(x);
    }
    drop(a);
    {
      Mode m(M_SIM);
      tp = ndt::type();
    }
    PROBE("whole words");
  }
  static void refused(Rng &r) {
    int how = r.below(3);
    Outcome o = attempt([&] {
      switch (how) {
      case 0: // no such numbers
        nd::random::uniform({}, {{"dst_tp", ndt::type("3 * int8")}});
        break;
      case 1: // bounds of another type
        nd::random::uniform({}, {{"a", (int64_t)1}, {"dst_tp", ndt::type("3 * int32")}});
        break;
      default:
        nd::random::uniform({}, {{"c", 1}, {"dst_tp", ndt::type("3 * int32")}});
      }
    });
    if (o.ok)
      rt::violation("lost-error", "uniform with wrong arguments (%d) is accepted", how);
    PROBE("refused");
  }
  void exec(const Op &o, int) override {
    Rng r(((uint64_t)(unsigned short)o.a[0] << 16) ^ (unsigned short)o.a[1]);
    switch (o.kind) {
    case A_DRAW:
      return draw(r);
    case A_INTO:
      return into(r);
    case A_ENDS:
      return ends(r);
    case A_STREAM:
      return stream(r);
    case A_REFUSED:
      return refused(r);
    }
  }
};
Tuning tune(bool fresh) {
  Tuning t;
  t.entropy = true;
  t.fresh = fresh;
  return t;
}
Register reg("C19", "draws", []() -> Scenario * { return new C19(false); }, tune(false), 3);
Register reg2("C19", "first", []() -> Scenario * { return new C19(true); }, tune(true), 2);
} // namespace
