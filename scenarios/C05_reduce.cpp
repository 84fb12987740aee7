// C05: reductions over any axes of shared arrays, with library and user functions that may fail.
#include "numeric.h"
#include <dynd/arithmetic.hpp>
#include <dynd/functional.hpp>
#include <dynd/io.hpp>
#include <dynd/logic.hpp>
#include <dynd/statistics.hpp>
using namespace numeric;

namespace {
enum { F_SUM, F_MAX, F_MIN, F_ALL, F_USER, F_USER2, F_BYTES, NFN };
const char *const fnames[] = {"sum", "max", "min", "all", "user", "user2", "serialize"};
enum { R_CALL, R_DST, R_BAD, NK };
const char *const names[] = {"reduce", "reduce into", "refused"};
enum { NF = 7 };
struct Slot {
  nd::array a;
  T t;
  P p;
};

struct C05 : Scenario {
  Slot fr[NF];
  nd::callable user, user2;

  void generate(Rng &r, Plan &p) override {
    p.nf = r.chance(1, 3) ? 1 : r.range(2, 4);
    int n = r.range(4, 14);
    static const int mix[] = {R_CALL, R_CALL, R_CALL, R_CALL, R_CALL, R_DST, R_DST, R_BAD};
    for (int i = 0; i < n; i++)
      p.add(r.range(1, p.nf), r.pick(mix), r.below(NFN), r.below(NF), r.below(16), r.below(NF), r.below(30000), r.below(30000));
    p.params[0] = r.below(30000);
    p.params[1] = r.below(30000);
  }
  std::string show(const Plan &, const Op &o) override {
    return fmt("%s %s(%d%s) axes=%d r=%d,%d", names[o.kind % NK], fnames[o.a[0] % NFN], o.a[1], o.a[0] % NFN == F_USER2 ? fmt(", %d", o.a[3]).c_str() : "", o.a[2], o.a[4], o.a[5]);
  }
  const char *opname(const Op &o) override { return names[o.kind % NK]; }

  void begin(const Plan &p) override {
    Rng r(((uint64_t)(unsigned short)p.params[0] << 16) ^ (unsigned short)p.params[1]);
    K k[NF] = {F64, F64, I32, I32, BOOL, F64, F64};
    for (int i = 0; i < NF; i++) {
      static const K ks[] = {I8, I16, I32, I64, U8, U16, U32, U64, F32, F64, BOOL};
      T t = scalar(i > 4 ? r.pick(ks) : k[i]);
      int nd = r.below(12) == 0 ? 0 : r.range(1, 4);
      for (int d = 0; d < nd; d++)
        t = dim(d == 0 && r.chance(1, 4) && k[i] != I32 ? -1 : r.chance(1, 14) ? 0 : r.chance(1, 5) ? 1 : nd == 1 && r.chance(1, 4) ? r.range(60, 200) : r.range(2, 4), t);
      if (i == 3 && r.chance(3, 4))
        t = fr[2].t;
      P v = ragged(r, t, 5);
      nd::array a = numeric::build(r, t, v);
      Mode q(M_SIM);
      fr[i].a = std::move(a), fr[i].t = t, fr[i].p = v;
    }
    Mode q(M_QUIET);
    user = nd::functional::reduction([] { return 100.0; }, [](const return_wrapper<double> &res, double x) {
      callback();
      res += x;
    });
    user2 = nd::functional::reduction([] { return 7; }, [](const return_wrapper<int> &res, int x, int y) {
      callback();
      res += x > y ? x : y;
    });
  }
  static P add(K k, const V &x, const V &y) {
    return with(k, [&](auto z) {
      typedef decltype(z) A;
      return box<A>(std::is_floating_point<A>::value ? (A)(x.d + y.d) : (A)((unsigned long long)x.i + (unsigned long long)y.i));
    });
  }
  static P text_of(const std::string &s) {
    P p(new V());
    p->unset = false;
    p->s = s;
    return p;
  }
  static P texts(Rng &r, const T &t) { // what a destination holds before
    if (t.k != FIXED)
      return t.k == BYTES ? text_of(std::string(r.below(30), 'x')) : tree(r, t, 0);
    P p(new V());
    p->unset = false;
    for (int i = 0; i < t.n; i++)
      p->v.push_back(texts(r, t.sub[0]));
    return p;
  }
  static P identity(int f, K k) {
    if (f == F_BYTES)
      return text_of("");
    return with(k, [&](auto z) {
      typedef decltype(z) A;
      typedef std::numeric_limits<A> L;
      return box<A>(f == F_MAX ? L::lowest() : f == F_MIN ? L::max() : (A)(f == F_ALL ? 1 : f == F_USER ? 100 : f == F_USER2 ? 7 : 0));
    });
  }
  static bool greater(K k, const V &x, const V &y) { // x > y
    return k == F32 || k == F64 ? x.d > y.d : k == U64 ? (unsigned long long)x.i > (unsigned long long)y.i : x.i > y.i;
  }
  static void fold(int f, K k, P &acc, const V &x, const V *y) {
    switch (f) {
    case F_MAX:
      if (greater(k, x, *acc))
        acc = P(new V(x));
      break;
    case F_MIN:
      if (greater(k, *acc, x))
        acc = P(new V(x));
      break;
    case F_ALL:
      acc = box<bool>(acc->i && x.i);
      break;
    case F_BYTES:
      with(k, [&](auto z) {
        z = get<decltype(z)>(&x);
        acc->s.append(reinterpret_cast<const char *>(&z), sizeof z);
        return P();
      });
      break;
    case F_USER2:
      acc = add(k, *acc, x.i > y->i ? x : *y);
      break;
    default:
      acc = add(k, *acc, x);
    }
  }
  static T rtype(const T &t, int axes, int level, bool keep) {
    if (t.k != FIXED && t.k != VAR)
      return t;
    T s = rtype(t.sub[0], axes, level + 1, keep);
    if (!(axes >> level & 1))
      return dim(t.n, s);
    return keep ? dim(1, s) : s;
  }
  static P shape(int f, const T &t, K k) {
    if (t.k != FIXED)
      return identity(f, k);
    P p(new V());
    p->unset = false;
    for (int i = 0; i < t.n; i++)
      p->v.push_back(shape(f, t.sub[0], k));
    return p;
  }
  static void run(int f, K k, const T &t, const P &p, const P &q, int axes, int level, bool keep, P &out) {
    if (t.k != FIXED && t.k != VAR) {
      fold(f, k, out, *p, q.get());
      return;
    }
    bool red = axes >> level & 1;
    for (size_t i = 0; i < p->v.size(); i++) {
      P &o = !red ? out->v[i] : keep ? out->v[0] : out;
      run(f, k, t.sub[0], p->v[i], q ? q->v[i] : P(), axes, level + 1, keep, o);
    }
  }
  static const nd::callable &lib(int f) { return f == F_SUM ? nd::sum : f == F_MAX ? nd::max : f == F_MIN ? nd::min : f == F_BYTES ? nd::serialize : nd::all; }
  void exec(const Op &o, int) override {
    int f = o.a[0] % NFN;
    Slot &a = fr[o.a[1] % NF], &b = fr[o.a[3] % NF];
    Rng r(((uint64_t)(unsigned short)o.a[4] << 16) ^ (unsigned short)o.a[5]);
    K k = dtype(a.t).k;
    bool two = f == F_USER2;
    if ((f == F_SUM && k == BOOL) || ((f == F_MAX || f == F_MIN) && k == BOOL) || (f != F_BYTES && (f == F_ALL) != (k == BOOL)) || (f == F_USER && k != F64) || (two && (k != I32 || dtype(b.t).k != I32)))
      return;
    int nd = ndim(a.t), axes = (1 << nd) - 1;
    bool keep = r.chance(1, 4), var = has(a.t, VAR), given = nd && r.chance(1, 2);
    if (!nd && r.chance(1, 2))
      keep = false;
    if (given)
      axes = o.a[2] & axes;
    if (given && !axes)
      given = false, axes = (1 << nd) - 1;
    nd::array ax, kd, d, n;
    std::string what = std::string(fnames[f]) + "(" + ds(a.t) + (two ? ", " + ds(b.t) : "") + ")";
    if (given) {
      std::vector<int> v;
      what += " axes";
      for (int i = nd; i-- > 0;)
        if (axes >> i & 1)
          v.push_back(i), what += " " + std::to_string(i);
      must_do("axes", [&] { ax = nd::empty((intptr_t)v.size(), ndt::make_type<int>()); });
      Mode q(M_QUIET);
      for (size_t i = 0; i < v.size(); i++)
        reinterpret_cast<int *>(ax.data())[i] = v[i];
    }
    if (keep)
      what += " keepdims";
    must_do("keepdims", [&] { kd = nd::array(keep); });
    auto call = [&] {
      std::vector<std::pair<const char *, nd::array>> kw;
      if (given)
        kw.push_back({"axes", ax});
      if (keep)
        kw.push_back({"keepdims", kd});
      if (!d.is_null())
        kw.push_back({"dst", d});
      nd::array src[2] = {a.a, b.a};
      n = (f == F_USER ? user : two ? user2 : lib(f)).call(two ? 2 : 1, src, kw.size(), kw.data());
    };
    bool varkept = var && !(axes >> (nd - 1) & 1); // no such kernel
    if (varkept || (two && ds(a.t) != ds(b.t)) || (two && var)) {
      must_fail(what.c_str(), call);
      PROBE("refused");
      drop(ax), drop(kd);
      return;
    }
    T rt = rtype(a.t, axes, 0, keep);
    if (f == F_BYTES)
      rt = redtype(rt, scalar(BYTES));
    P v = shape(f, rt, k);
    run(f, k, a.t, a.p, two ? b.p : P(), axes, 0, keep, v);
    bool bad = false;
    if (o.kind == R_DST) {
      T dt = rt;
      if (r.chance(1, 5)) {
        bad = true;
        if (r.chance(1, 2))
          dt = dim(2, rt);
        else
          dt = redtype(rt, scalar(k == I64 ? I8 : I64));
      }
      what += " into " + ds(dt);
      P old = f == F_BYTES ? texts(r, dt) : tree(r, dt, 0);
      must_do("nd::empty", [&] { d = nd::empty(typed::make(dt)); });
      {
        Mode q(M_QUIET);
        fill(d, dt, old);
      }
      if (bad) {
        must_fail(what.c_str(), call);
        check_dump("dst-changed", what.c_str(), d, text(dt, old));
        PROBE("unsuitable destination");
        drop(ax), drop(kd), drop(d);
        return;
      }
      PROBE("into a destination");
    } else if (o.kind == R_BAD) {
      switch (r.below(3)) {
      case 0:
        must_fail("a reduction with an unknown keyword", [&] { nd::array x = lib(F_SUM)({a.a}, {{"axis", kd}}); });
        break;
      case 1:
        must_fail("a reduction of nothing", [&] { nd::array x = lib(F_SUM)(); });
        break;
      default:
        must_fail("a reduction with an axis of another type", [&] { nd::array x = lib(F_SUM)({a.a}, {{"axes", nd::array("x")}}); });
      }
      drop(ax), drop(kd);
      return;
    }
    must_do(what.c_str(), call, [&] { check_dump("source-changed", what.c_str(), a.a, text(a.t, a.p)); });
    {
      const nd::array &res = d.is_null() ? n : d;
      if (d.is_null()) {
        std::string got = type_str(n.get_type());
        if (got != ds(rt))
          rt::violation("wrong-type", "%s: the type is %s, expected %s", what.c_str(), got.c_str(), ds(rt).c_str());
      }
      check_dump("wrong-result", what.c_str(), res, text(rt, v));
    }
    if (var)
      PROBE("ragged");
    if (given)
      PROBE("some axes");
    if (f == F_USER || two)
      PROBE("a user function");
    if (f == F_BYTES)
      PROBE("serialized");
    drop(n), drop(d), drop(ax), drop(kd);
    check_dump("source-changed", what.c_str(), a.a, text(a.t, a.p));
  }
  void end() override {
    for (Slot &s : fr) {
      check_dump("source-changed", "a shared operand at the end", s.a, text(s.t, s.p));
      drop(s.a);
      s.p.reset();
    }
    Mode q(M_SIM);
    user = nd::callable();
    user2 = nd::callable();
  }
};
Scenario *mk() { return new C05; }
Tuning tune() {
  Tuning t;
  t.callback = true;
  return t;
}
Register reg("C05", "reduce", mk, tune());
} // namespace
