// C20: complex numbers, through arrays of every layout, mixed with real ones.
#include "numeric.h"
#include <dynd/array_range.hpp>
#include <dynd/assignment.hpp>
#include <dynd/complex.hpp>
#include <dynd/math.hpp>
#include <dynd/option.hpp>
#include <dynd/arithmetic.hpp>
using namespace numeric;

namespace {
enum { X_BIN, X_UN, X_PART, X_EQ, X_ASSIGN, X_UPDATE, X_SUM, X_AS, X_NA, X_LINE, NK };
const char *const names[] = {"arithmetic", "sign", "part", "equality", "assign", "update", "sum", "as", "missing", "linspace"};
const char *const modes[] = {"nocheck", "overflow", "fractional", "inexact"};
enum { NF = 9, NR = 2 };
struct Slot {
  nd::array a;
  T t;
  P p;
  bool set = false, wild = false;
};
K elem(const T &t) {
  const T &d = dtype(t);
  return d.k == OPT ? d.sub[0].k : d.k;
}
// real, imag, conj
struct Part : Elem {
  int w;
  explicit Part(int w) : w(w) {}
  bool type(const std::vector<T> &a, T &out) const override {
    if (!cplx(a[0].k))
      return false;
    out = scalar(w == 2 ? a[0].k : part(a[0].k));
    return true;
  }
  P value(const std::vector<T> &, const std::vector<const V *> &a, bool &) const override {
    P p = box<double>(w == 1 ? a[0]->im : a[0]->d);
    if (w == 2)
      p->im = -a[0]->im;
    return p;
  }
};
struct Conv : Elem {
  T d;
  int mode;
  Conv(const T &d, int mode) : d(d), mode(mode) {}
  bool type(const std::vector<T> &, T &out) const override {
    out = d;
    return true;
  }
  P value(const std::vector<T> &ts, const std::vector<const V *> &a, bool &ub) const override {
    const V *x = a[0];
    K s = ts[0].k;
    if (s == OPT) {
      if (x->na) {
        if (d.k != OPT)
          return P();
        P p = blank(d);
        p->na = true;
        return p;
      }
      x = x->v[0].get(), s = ts[0].sub[0].k;
    }
    P v = convert(d.k == OPT ? d.sub[0].k : d.k, s, *x, mode, ub);
    if (!v || d.k != OPT)
      return v;
    if (is_sentinel(d.sub[0].k, *v) || !std::isfinite(v->d) || !std::isfinite(v->im))
      ub = true;
    P p(new V());
    p->unset = false;
    p->v.push_back(v);
    return p;
  }
};
struct InPlace : Elem {
  int op;
  explicit InPlace(int o) : op(o) {}
  bool type(const std::vector<T> &a, T &out) const override {
    out = a[0];
    return true;
  }
  P value(const std::vector<T> &ts, const std::vector<const V *> &a, bool &ub) const override {
    Res x = binary(op, ts[0].k, a[0], ts[1].k, a[1]);
    ub |= x.ub || !x.v;
    return ub ? blank(ts[0]) : convert(ts[0].k, x.k, *x.v, 0, ub);
  }
};
// the text with every number a token of its own
void tokens(const std::string &s, std::string &shape, std::vector<std::string> &num) {
  std::string e;
  for (size_t i = 0; i <= s.size(); i++) {
    char c = i < s.size() ? s[i] : ' ';
    if (strchr("[]{}<>;, ", c)) {
      if (!e.empty())
        num.push_back(e), shape += '#';
      e.clear();
      shape += c;
    } else
      e += c;
  }
}
// numbers are equal, -0 and 0 too; inexact: nearly so, by the bigger of the two parts
void check(const char *what, const nd::array &a, const T &t, const P &p, bool inexact) {
  std::string got = dump(a), want = text(t, p), s, u;
  if (got == want)
    return;
  std::vector<std::string> x, y;
  tokens(got, s, x);
  tokens(want, u, y);
  bool ok = s == u && x.size() == y.size(), c = cplx(elem(t));
  double eps = !inexact ? 0 : elem(t) == C64 || elem(t) == F32 ? 1e-5 : 1e-13;
  for (size_t i = 0; ok && i < x.size(); i++) {
    if (x[i] == y[i])
      continue;
    char *e1, *e2;
    double v = strtod(x[i].c_str(), &e1), w = strtod(y[i].c_str(), &e2), o = 0;
    if (*e1 || *e2) {
      ok = false;
      break;
    }
    if (c && inexact && y.size() % 2 == 0)
      o = std::fabs(strtod(y[i ^ 1].c_str(), nullptr));
    ok = v == w || std::fabs(v - w) <= eps * std::max(std::fabs(w), o);
  }
  if (!ok)
    rt::violation("wrong-result", "%s: got %s, has to be %s", what, got.c_str(), want.c_str());
}
bool small(const T &t, const P &p) { // sums and products of such numbers are exact
  if (t.k == FIXED || t.k == VAR) {
    for (auto &c : p->v)
      if (!small(t.sub[0], c))
        return false;
    return true;
  }
  if (t.k == OPT)
    return p->na || small(t.sub[0], p->v[0]);
  auto ok = [](double x) { return std::fabs(x) <= 64 && x * 16 == std::floor(x * 16); };
  return t.k < F32 ? p->i >= -64 && p->i <= 64 : ok(p->d) && ok(p->im);
}

struct C20 : Scenario {
  Slot fr[NF], res[rt::MAXF][NR];
  void generate(Rng &r, Plan &p) override {
    p.nf = r.chance(1, 3) ? 1 : r.range(2, 4);
    int n = r.range(4, 16);
    static const int mix[] = {X_BIN, X_BIN, X_BIN, X_UN, X_PART, X_PART, X_EQ, X_ASSIGN, X_ASSIGN, X_ASSIGN, X_UPDATE, X_UPDATE, X_SUM, X_AS, X_NA, X_LINE};
    for (int i = 0; i < n; i++)
      p.add(r.range(1, p.nf), r.pick(mix), r.below(64), r.below(64), r.below(NR), r.below(30000), r.below(30000));
    p.params[0] = r.below(30000);
    p.params[1] = r.below(30000);
  }
  std::string show(const Plan &, const Op &o) override { return fmt("%s %d %d to %d r=%d,%d", names[o.kind % NK], o.a[0], o.a[1], o.a[2], o.a[3], o.a[4]); }
  const char *opname(const Op &o) override { return names[o.kind % NK]; }
  static K kind(Rng &r, int i) {
    static const K reals[] = {I8, I16, I32, I64, U8, U16, U32, U64, F32, F32, F64, F64};
    return i < 6 ? (r.chance(1, 2) ? C64 : C128) : r.pick(reals);
  }
  static P real(Rng &r, K k, bool wild) {
    if (!wild) {
      if (k >= F32)
        return box<double>((r.below(200) - 100) / 8.0);
      bool sg = k <= I64;
      P p(new V());
      p->unset = false;
      p->i = k == BOOL ? r.below(2) : sg ? r.below(60) - 30 : r.below(60);
      return p;
    }
    if (k < F32)
      return number(r, k);
    static const double odd[] = {0.5, -0.5, 1.5, 127.5, 128, -129, 256, -1, 32768, 65536, 2147483648.0, -2147483649.0, 4294967296.0, 9223372036854775808.0, 18446744073709551616.0, 1e30, -1e30, 3.4028234663852886e38, 3.4028235677973366e38, 1e39, -1e300, 1e-40, 0.1, NAN, INFINITY, -INFINITY, 16777217, 3, 1, 0};
    double d = odd[r.below(sizeof odd / sizeof *odd)];
    if (k == F32)
      d = (double)(float)(std::fabs(d) > 3.4028234663852886e38 && std::isfinite(d) ? 1e30 : d);
    return box<double>(d);
  }
  static P element(Rng &r, const T &t, bool wild, bool thin = false) {
    if (t.k == OPT) {
      P p(new V());
      p->unset = false;
      p->na = r.chance(1, 4);
      p->v = {element(r, t.sub[0], false, thin)};
      return p;
    }
    if (!cplx(t.k))
      return real(r, t.k, wild && r.chance(1, 2));
    P p = real(r, part(t.k), wild && (thin || r.chance(1, 3)));
    if (wild && r.chance(1, 12))
      p->d = r.chance(1, 2) ? INFINITY : -INFINITY;
    if (thin) { // next to no imaginary part
      if (r.chance(1, 10) && !wild)
        p->im = r.chance(1, 2) ? 0.5 : -0.25;
    } else if (r.below(4))
      p->im = real(r, part(t.k), wild && r.chance(1, 3))->d;
    return p;
  }
  static P value(Rng &r, const T &t, const int *base, bool wild, bool thin = false) {
    if (t.k != FIXED && t.k != VAR)
      return element(r, t, wild, thin);
    P p(new V());
    p->unset = false;
    int n = t.k == FIXED ? t.n : r.chance(1, 8) ? 1 : base[ndim(t) - 1];
    for (int i = 0; i < n; i++)
      p->v.push_back(value(r, t.sub[0], base, wild, thin));
    return p;
  }
  void clear(Slot &s) {
    drop(s.a);
    s.p.reset();
    s.set = false;
  }
  void set(Slot &s, nd::array &a, const T &t, const P &p) {
    clear(s);
    {
      Mode q(M_SIM);
      s.a = std::move(a);
    }
    s.t = t, s.p = p, s.set = true;
  }
  void begin(const Plan &p) override {
    Rng r(((uint64_t)(unsigned short)p.params[0] << 16) ^ (unsigned short)p.params[1]);
    int base[3];
    for (int &b : base)
      b = r.chance(1, 12) ? 0 : r.chance(1, 10) ? r.range(20, 100) : r.range(2, 5);
    if (base[1] > 5 || base[2] > 5)
      base[0] = std::min(base[0], 4);
    for (int i = 0; i < NF; i++) {
      Slot &s = fr[i];
      s.wild = i == 4 || i == 8;
      T t = scalar(kind(r, i));
      if (i == 5)
        t = opt(t.k);
      int nd = r.chance(1, 5) ? 0 : r.range(1, 3);
      for (int d = 0; d < nd; d++)
        t = dim(r.chance(1, 8) ? -1 : r.chance(1, 6) ? 1 : r.chance(1, 20) ? r.range(1, 4) : base[d], t);
      P v = value(r, t, base, s.wild, r.chance(s.wild ? 2 : 1, 4));
      nd::array a = numeric::build(r, t, v, false);
      s.t = t, s.p = v, s.set = true;
      Mode q(M_SIM);
      s.a = std::move(a);
    }
  }
  Slot &at(int f, int i) { return i % (NF + NR) < NF ? fr[i % (NF + NR)] : res[f][i % (NF + NR) - NF]; }
  void keep(Slot &d, nd::array &n, const T &t, const P &p) {
    if (small(t, p) && cplx(elem(t)) && dump(n) == text(t, p))
      set(d, n, t, p);
    drop(n);
  }
  static const nd::callable &part_fn(int w) { return w == 0 ? nd::real : w == 1 ? nd::imag : nd::conj; }
  template <class A> void as(const Slot &s, K k, int mode) {
    Conv c(scalar(k), mode);
    bool ub = false;
    P v = c.value({s.t}, {s.p.get()}, ub);
    if (ub)
      return;
    std::string what = fmt("as<%s>() of %s %s, mode %s", ds(scalar(k)).c_str(), ds(s.t).c_str(), text(s.t, s.p).c_str(), modes[mode]);
    if (!v) {
      must_fail(what.c_str(), [&] { s.a.as<A>(assign_error_mode(mode)); });
      PROBE("refused as");
      return;
    }
    A x = A();
    must_do(what.c_str(), [&] { x = s.a.as<A>(assign_error_mode(mode)); });
    nd::array n;
    must_do("making an array of it", [&] { n = nd::array(x); });
    check_type(what.c_str(), n, scalar(k));
    check(what.c_str(), n, scalar(k), v, false);
    drop(n);
    PROBE("as");
  }
  void exec(const Op &o, int) override {
    int f = o.fiber;
    Slot &a = at(f, o.a[0]), &b = at(f, o.a[1]), &dst = res[f][o.a[2] % NR];
    Rng r(((uint64_t)(unsigned short)o.a[3] << 16) ^ (unsigned short)o.a[4]);
    if (!a.set || !b.set)
      return;
    nd::array n;
    T rt;
    Ev ev;
    switch (o.kind) {
    case X_BIN: {
      if (a.wild || b.wild || (!cplx(elem(a.t)) && !cplx(elem(b.t))))
        return;
      int op = r.below(4);
      Arith e(op);
      std::string what = std::string(opnames[op]) + "(" + ds(a.t) + ", " + ds(b.t) + ")";
      auto call = [&] {
        switch (op + (r.chance(1, 2) ? 0 : 4)) {
        case ADD:
          n = a.a + b.a;
          break;
        case SUB:
          n = a.a - b.a;
          break;
        case MUL:
          n = a.a * b.a;
          break;
        case DIV:
          n = a.a / b.a;
          break;
        default:
          n = fn(op)(a.a, b.a);
        }
      };
      if (!result_type(e, {a.t, b.t}, rt)) {
        must_fail(what.c_str(), call);
        PROBE("refused");
        break;
      }
      P v = apply(e, rt, {a.t, b.t}, {a.p, b.p}, P(), ev);
      if (ev.ub)
        return;
      if (ev.err) {
        must_fail(what.c_str(), call);
        break;
      }
      must_do(what.c_str(), call);
      check_type(what.c_str(), n, rt);
      what += " of " + text(a.t, a.p) + " and " + text(b.t, b.p);
      check(what.c_str(), n, rt, v, op == DIV);
      PROBE("computed");
      if (elem(a.t) != elem(b.t))
        PROBE("mixed operands");
      if (dtype(rt).k == OPT)
        PROBE("missing values");
      keep(dst, n, rt, v);
      break;
    }
    case X_UN: {
      if (!cplx(dtype(a.t).k))
        return;
      int op = r.chance(1, 4) ? PLUS : MINUS;
      Arith e(op);
      result_type(e, {a.t}, rt);
      P v = apply(e, rt, {a.t}, {a.p}, P(), ev);
      std::string what = std::string(opnames[op]) + " of " + ds(a.t);
      must_do(what.c_str(), [&] { n = op == PLUS ? +a.a : -a.a; });
      check_type(what.c_str(), n, rt);
      check(what.c_str(), n, rt, v, false);
      keep(dst, n, rt, v);
      break;
    }
    case X_PART: {
      int w = r.below(3);
      Part e(w);
      std::string what = std::string(w == 0 ? "real" : w == 1 ? "imag" : "conj") + " of " + ds(a.t);
      if (dtype(a.t).k == OPT)
        return;
      if (!result_type(e, {a.t}, rt)) {
        must_fail(what.c_str(), [&] { n = part_fn(w)(a.a); });
        PROBE("refused");
        break;
      }
      P v = apply(e, rt, {a.t}, {a.p}, P(), ev);
      must_do(what.c_str(), [&] { n = part_fn(w)(a.a); });
      check_type(what.c_str(), n, rt);
      check(what.c_str(), n, rt, v, false);
      PROBE("part");
      keep(dst, n, rt, v);
      break;
    }
    case X_EQ: {
      if (!cplx(elem(a.t)) && !cplx(elem(b.t)))
        return;
      int op = r.chance(1, 2) ? EQ : NE;
      const Slot &c = r.chance(1, 2) ? a : b;
      Arith e(op);
      std::string what = std::string(opnames[op]) + " of " + ds(a.t) + " and " + ds(c.t);
      auto call = [&] { n = op == EQ ? a.a == c.a : a.a != c.a; };
      if (dtype(a.t).k == OPT || dtype(c.t).k == OPT)
        return;
      if (!cplx(elem(a.t)) && !cplx(elem(c.t)))
        return;
      if (!result_type(e, {a.t, c.t}, rt)) {
        must_fail(what.c_str(), call);
        PROBE("refused");
        break;
      }
      P v = apply(e, rt, {a.t, c.t}, {a.p, c.p}, P(), ev);
      if (ev.ub)
        return;
      if (ev.err) {
        must_fail(what.c_str(), call);
        break;
      }
      must_do(what.c_str(), call);
      check_type(what.c_str(), n, rt);
      check_dump("wrong-result", what.c_str(), n, text(rt, v));
      PROBE("compared");
      drop(n);
      break;
    }
    case X_ASSIGN: {
      static const K ds_[] = {C64, C128, C64, C128, F32, F32, F32, F64, I8, I32, I64, U8, U64, BOOL};
      K k = r.pick(ds_);
      if (!cplx(k) && !cplx(elem(a.t)))
        k = r.chance(1, 2) ? C64 : C128;
      T el = r.chance(1, 6) ? opt(k) : scalar(k);
      T dt = redtype(a.t, el);
      if (dt.k == FIXED && dt.n != 1 && r.chance(1, 8))
        dt.n += r.chance(1, 2) && dt.n > 2 ? -1 : 1;
      else if (r.chance(1, 6))
        dt = dim(r.range(1, 3), dt);
      int mode = r.below(4), base[8] = {2, 2, 2, 2, 2, 2, 2, 2};
      Conv e(el, mode);
      P old = has(dt, VAR) ? blank(dt) : value(r, dt, base, false), v;
      nd::array d;
      if (has(dt, VAR)) {
        must_do("nd::empty", [&] { d = nd::empty(typed::make(dt)); });
      } else
        d = build(r, dt, old, true);
      std::string what = "assigning " + ds(a.t) + " to " + ds(dt) + ", mode " + modes[mode];
      auto call = [&] { d.assign(a.a, (assign_error_mode)mode); };
      if (!accepts(dt, {a.t})) {
        must_fail(what.c_str(), call);
        PROBE("refused assignment");
        drop(d);
        break;
      }
      if (has(dt, VAR) && !old->unset && !all_set(dt, old) && ndim(dt) > ndim(a.t)) {
        drop(d);
        return;
      }
      v = apply(e, dt, {a.t}, {a.p}, old, ev);
      if (!ev.ub && ev.err) {
        must_fail(what.c_str(), call);
        torn(what.c_str(), d, dt, old, v);
        PROBE("refused value");
      } else if (!ev.ub) {
        must_do(what.c_str(), call, [&] { torn(what.c_str(), d, dt, old, v); });
        what += " of " + text(a.t, a.p);
        check(what.c_str(), d, dt, v, false);
        PROBE("assigned");
        keep(dst, d, dt, v);
      }
      drop(d);
      break;
    }
    case X_UPDATE: {
      if (a.wild || b.wild || dtype(a.t).k == OPT || dtype(b.t).k == OPT || !cplx(elem(a.t)) || !accepts(a.t, {b.t}))
        return;
      int op = r.chance(1, 2) ? ADD : DIV;
      bool itself = r.chance(1, 4);
      InPlace e(op);
      nd::array d = build(r, a.t, a.p, true);
      const Slot &c = itself ? a : b;
      P v = apply(e, a.t, {a.t, c.t}, {a.p, c.p}, a.p, ev);
      std::string what = ds(a.t) + (op == ADD ? " += " : " /= ") + (itself ? "itself" : ds(b.t));
      if (!ev.ub && !ev.err) {
        Outcome oc = attempt([&] {
          if (op == ADD)
            d += itself ? d : b.a;
          else
            d /= itself ? d : b.a;
        });
        if (oc.ok) {
          check(what.c_str(), d, a.t, v, true);
          PROBE("updated");
          if (itself)
            PROBE("updated by itself");
        } else if (!rt::op_fired_mask())
          rt::violation("unexpected-error", "%s failed: %s", what.c_str(), oc.what.c_str());
      }
      drop(d);
      break;
    }
    case X_SUM: {
      if (a.wild || has(a.t, VAR) || has(a.t, OPT) || !cplx(elem(a.t)) || !ndim(a.t))
        return;
      int nd = ndim(a.t), axis = r.chance(1, 2) ? -1 : r.below(nd);
      std::string what = fmt("sum of %s, axis %d", ds(a.t).c_str(), axis);
      P v;
      if (axis < 0) {
        rt = scalar(elem(a.t));
        v = total(rt, a.t, a.p);
      } else {
        rt = without(a.t, axis);
        v = along(rt, a.t, a.p, axis);
      }
      must_do(what.c_str(), [&] {
        if (axis < 0)
          n = nd::sum(a.a);
        else
          n = nd::sum({a.a}, {{"axes", nd::array(std::vector<int32_t>{axis})}});
      });
      check_type(what.c_str(), n, rt);
      check(what.c_str(), n, rt, v, true);
      PROBE("sum");
      drop(n);
      break;
    }
    case X_AS: {
      if (ndim(a.t))
        return;
      int mode = r.below(4);
      switch (cplx(elem(a.t)) ? r.below(6) : r.below(2)) {
      case 0:
        as<dynd::complex<float>>(a, C64, mode);
        break;
      case 1:
        as<dynd::complex<double>>(a, C128, mode);
        break;
      case 2:
        as<float>(a, F32, mode);
        break;
      case 3:
        as<double>(a, F64, mode);
        break;
      case 4:
        as<int32_t>(a, I32, mode);
        break;
      default:
        as<uint8_t>(a, U8, mode);
      }
      break;
    }
    case X_NA: {
      if (dtype(a.t).k != OPT)
        return;
      rt = redtype(a.t, scalar(BOOL));
      P v = nas(a.t, a.p);
      must_do("is_na", [&] { n = nd::is_na(a.a); });
      check_type("is_na", n, rt);
      check_dump("wrong-result", "is_na", n, text(rt, v));
      PROBE("is_na");
      drop(n);
      break;
    }
    case X_LINE: {
      K k = r.chance(1, 2) ? C64 : C128;
      int m = r.range(2, 9);
      P x = element(r, scalar(k), false), y = element(r, scalar(k), false);
      nd::array s = build(r, scalar(k), x), e = build(r, scalar(k), y);
      rt = dim(m, scalar(k));
      P v = blank(rt);
      v->unset = false;
      for (int i = 0; i < m; i++) {
        v->v[i]->d = ((m - 1 - i) * x->d + i * y->d) / (m - 1);
        v->v[i]->im = ((m - 1 - i) * x->im + i * y->im) / (m - 1);
      }
      must_do("linspace", [&] { n = nd::old_linspace(s, e, m); });
      check_type("linspace", n, rt);
      check("linspace", n, rt, v, true);
      PROBE("linspace");
      drop(s), drop(e), drop(n);
      break;
    }
    }
    drop(n);
    check_dump("source-changed", names[o.kind % NK], a.a, a.set ? text(a.t, a.p) : "NULL");
    check_dump("source-changed", names[o.kind % NK], b.a, b.set ? text(b.t, b.p) : "NULL");
  }
  static P nas(const T &t, const P &p) {
    if (t.k == OPT)
      return box<bool>(p->na);
    P o(new V());
    o->unset = false;
    for (auto &c : p->v)
      o->v.push_back(nas(t.sub[0], c));
    return o;
  }
  static P plus(K k, const P &x, const P &y) {
    P p = box<double>(k == C64 ? (float)(x->d + y->d) : x->d + y->d);
    p->im = k == C64 ? (float)(x->im + y->im) : x->im + y->im;
    return p;
  }
  static P total(const T &el, const T &t, const P &p) {
    if (!ndim(t))
      return p;
    P s = box<double>(0);
    for (auto &c : p->v)
      s = plus(el.k, s, total(el, t.sub[0], c));
    return s;
  }
  static T without(const T &t, int axis) { return axis ? dim(t.n, without(t.sub[0], axis - 1)) : t.sub[0]; }
  static P sum_of(const T &t, const P &x, const P &y) {
    if (!ndim(t))
      return plus(t.k, x, y);
    P o(new V());
    o->unset = false;
    for (size_t i = 0; i < x->v.size(); i++)
      o->v.push_back(sum_of(t.sub[0], x->v[i], y->v[i]));
    return o;
  }
  static P zero(const T &t) {
    P o = blank(t);
    o->unset = false;
    return o;
  }
  static P along(const T &rt, const T &t, const P &p, int axis) {
    if (axis) {
      P o(new V());
      o->unset = false;
      for (auto &c : p->v)
        o->v.push_back(along(rt.sub[0], t.sub[0], c, axis - 1));
      return o;
    }
    P s = zero(rt);
    for (auto &c : p->v)
      s = sum_of(rt, s, c);
    return s;
  }
  void end() override {
    for (int f = 0; f < rt::MAXF; f++)
      for (Slot &s : res[f])
        if (s.set) {
          check_dump("wrong-contents", "a result at the end", s.a, text(s.t, s.p));
          clear(s);
        }
    for (Slot &s : fr) {
      check_dump("source-changed", "a shared operand at the end", s.a, text(s.t, s.p));
      clear(s);
    }
  }
};
Scenario *mk() { return new C20; }
Register reg("C20", "complex", mk, Tuning());
} // namespace
