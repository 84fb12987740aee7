// C04: elementwise arithmetic, comparison and logic with broadcasting, into new arrays, given destinations and in place;
// operands shared by all fibers, results chained per fiber.
#include "numeric.h"
#include <dynd/arithmetic.hpp>
#include <dynd/comparison.hpp>
using namespace numeric;

namespace {
enum { E_BIN, E_UN, E_DST, E_INPLACE, E_BAD, E_DROP, NK };
const char *const names[] = {"binary", "unary", "binary into", "in place", "refused", "drop"};
enum { NF = 8, NR = 3 };
struct Slot {
  nd::array a;
  T t;
  P p;
  bool set = false;
};

struct C04 : Scenario {
  Slot fr[NF], res[rt::MAXF][NR];
  int varmax = 2;

  void generate(Rng &r, Plan &p) override {
    p.nf = r.chance(1, 3) ? 1 : r.range(2, 4);
    int n = r.range(4, 18);
    static const int mix[] = {E_BIN, E_BIN, E_BIN, E_BIN, E_UN, E_DST, E_DST, E_DST, E_INPLACE, E_BAD, E_DROP};
    for (int i = 0; i < n; i++)
      p.add(r.range(1, p.nf), r.pick(mix), r.below(NOP), r.below(NF + NR), r.below(NF + NR), r.below(NR), r.below(30000), r.below(30000));
    p.params[0] = r.below(30000);
    p.params[1] = r.below(30000);
  }
  std::string show(const Plan &, const Op &o) override {
    return fmt("%s %s(%d, %d) -> %d r=%d,%d", names[o.kind % NK], opnames[o.a[0] % NOP], o.a[1], o.a[2], o.a[3], o.a[4], o.a[5]);
  }
  const char *opname(const Op &o) override { return names[o.kind % NK]; }

  static void set(Slot &s, nd::array &a, const T &t, const P &p) {
    {
      Mode m(M_SIM);
      s.a = std::move(a);
    }
    s.t = t, s.p = p, s.set = true;
  }
  static void clear(Slot &s) {
    drop(s.a);
    s.set = false;
    s.p.reset();
  }
  nd::array make_new(const T &t, const P &p, Rng *views) {
    nd::array a;
    if (views)
      return numeric::build(*views, t, p, !has(t, VAR));
    must_do("nd::empty", [&] { a = nd::empty(typed::make(t)); });
    Mode q(M_QUIET);
    fill(a, t, p);
    return a;
  }
  void begin(const Plan &p) override {
    Rng r(((uint64_t)(unsigned short)p.params[0] << 16) ^ (unsigned short)p.params[1]);
    int base[3];
    for (int &b : base)
      b = r.chance(1, 12) ? 0 : r.chance(1, 8) ? r.range(20, 150) : r.range(2, 5);
    if (base[1] > 5 || base[2] > 5)
      base[0] = std::min(base[0], 3), base[2] = std::min(base[2], base[1] > 5 ? 3 : 150);
    varmax = r.range(0, 4);
    for (int i = 0; i < NF; i++) {
      static const K ks[] = {BOOL, I8, I16, I32, I32, I32, I64, I64, U8, U16, U32, U64, F32, F64, F64};
      K k = r.pick(ks);
      T t = scalar(k);
      if (r.chance(1, 5))
        t = opt(k);
      int nd = r.range(0, 3);
      for (int d = 0; d < nd; d++) { // base[0] is the innermost
        int c = r.below(12);
        t = dim(c < 6 ? base[d] : c < 8 ? 1 : c < 9 ? r.range(2, 4) : -1, t);
      }
      P v = tree_ragged(r, t, base);
      nd::array a = make_new(t, v, &r);
      set(fr[i], a, t, v);
    }
  }
  // var dims are 1, or the base size of their level, or something else
  P tree_ragged(Rng &r, const T &t, const int *base) {
    if (t.k != FIXED && t.k != VAR)
      return tree(r, t, 0);
    int n = t.n;
    if (t.k == VAR) {
      int c = r.below(16);
      n = c < 12 ? base[ndim(t) - 1] : c < 15 ? 1 : r.below(3);
    }
    P p(new V());
    p->unset = false;
    for (int i = 0; i < n; i++)
      p->v.push_back(tree_ragged(r, t.sub[0], base));
    return p;
  }
  Slot &at(int f, int i) { return i % (NF + NR) < NF ? fr[i % (NF + NR)] : res[f][i % (NF + NR) - NF]; }
  void sources(const Slot &a, const Slot &b, const char *what) {
    check_dump("source-changed", what, a.a, text(a.t, a.p));
    check_dump("source-changed", what, b.a, text(b.t, b.p));
  }
  void exec(const Op &o, int) override {
    int f = o.fiber;
    Slot &a = at(f, o.a[1]), &b = at(f, o.a[2]), &dst = res[f][o.a[3] % NR];
    Rng r(((uint64_t)(unsigned short)o.a[4] << 16) ^ (unsigned short)o.a[5]);
    if (!a.set || !b.set)
      return;
    bool un = o.kind == E_UN;
    int op = un ? PLUS + o.a[0] % (NOP - PLUS) : o.a[0] % NBIN;
    if (un && dtype(a.t).k == BOOL && op != LNOT) // bool1 has operators of its own
      return;
    Arith e(op);
    std::vector<T> ts = {a.t};
    std::vector<P> vs = {a.p};
    if (!un)
      ts.push_back(b.t), vs.push_back(b.p);
    std::string what = std::string(opnames[op]) + "(" + ds(a.t) + (un ? "" : ", " + ds(b.t)) + ")";
    nd::array n;
    T rt;
    Ev ev;
    auto call = [&] {
      if (un)
        n = fn(op)(a.a);
      else
        n = fn(op)(a.a, b.a);
    };
    switch (o.kind) {
    case E_BIN:
    case E_UN: {
      if (!result_type(e, ts, rt)) {
        must_fail(what.c_str(), call);
        PROBE("refused");
        break;
      }
      P v = apply(e, rt, ts, vs, P(), ev);
      if (ev.ub)
        return;
      if (ev.err) {
        must_fail(what.c_str(), call);
        PROBE("failed while computing");
        break;
      }
      must_do(what.c_str(), call, [&] { sources(a, b, what.c_str()); });
      check_type(what.c_str(), n, rt);
      check_dump("wrong-result", what.c_str(), n, text(rt, v));
      set(dst, n, rt, v);
      if (rt.k == VAR)
        PROBE("ragged result");
      if (dtype(rt).k == OPT)
        PROBE("missing values");
      break;
    }
    case E_DST:
    case E_INPLACE: {
      bool joint = result_type(e, ts, rt);
      if (!joint) {
        T el;
        if (!e.type({dtype(a.t), dtype(b.t)}, el))
          return;
        rt = el;
      }
      T el;
      e.type({dtype(a.t), dtype(b.t)}, el);
      T dt = redtype(rt, el);
      bool bad = false;
      nd::array d;
      P old;
      Slot *own = nullptr;
      if (o.kind == E_INPLACE) {
        if (!dst.set || ds(dst.t) != ds(dt))
          return;
        own = &dst, old = dst.p, d = dst.a;
      } else {
        int c = r.below(10);
        T sh = ndim(a.t) > ndim(b.t) ? a.t : b.t;
        if (c == 0 && (ndim(dt) || ndim(sh)))
          dt = dim(r.range(0, 3), dt);
        else if (c == 1)
          dt = dim(-1, dt);
        else if (c == 2) { // any dims
          dt = redtype(fr[r.below(NF)].t, el);
        } else if (c == 3 && dt.k == FIXED && dt.n)
          dt.k = VAR, dt.n = 0;
        else if (c == 4) {
          static const K ks[] = {BOOL, I8, I32, I64, U16, F32, F64};
          K k = r.pick(ks);
          if (k == el.k)
            return;
          dt = redtype(dt, scalar(k));
          bad = true;
        }
        if (ndim(dt) > 0 && !ndim(a.t) && !ndim(b.t))
          bad = true; // scalars are not repeated
        old = r.chance(1, 2) && has(dt, VAR) ? blank(dt) : tree(r, dt, r.chance(1, 2) ? 1 : varmax);
        if (!has(dt, VAR) || all_set(dt, old)) {
          d = make_new(dt, old, &r);
        } else
          must_do("nd::empty", [&] { d = nd::empty(typed::make(dt)); });
      }
      what += " into " + ds(dt);
      auto into = [&] { n = fn(op)({a.a, b.a}, {{"dst", d}}); };
      bool alias = own && (own == &a || own == &b);
      if (alias && !((own == &a ? b : a).set))
        return;
      if (bad || !accepts(dt, ts)) {
        must_fail(what.c_str(), into);
        if (all_set(dt, old))
          check_dump("dst-changed", what.c_str(), d, text(dt, old));
        PROBE("unsuitable destination");
        break;
      }
      if (alias && (ds(redtype(own->t, scalar(I32))) != ds(redtype(rt, scalar(I32)))))
        return;
      P v = apply(e, dt, ts, vs, old, ev);
      if (ev.ub)
        return;
      if (!joint && !ev.err)
        break; // dimensions that do not go together but have no elements: refused or not
      if (ev.err)
        must_fail(what.c_str(), into);
      else if (alias) { // not repeated after a failure: a source has changed
        Outcome out = attempt(into);
        if (!out.ok && !rt::op_fired_mask())
          rt::violation("unexpected-error", "%s failed although nothing was injected: %s", what.c_str(), out.what.c_str());
        ev.err = !out.ok;
      } else
        must_do(what.c_str(), into, [&] { torn(what.c_str(), d, dt, old, v); sources(a, b, what.c_str()); });
      if (ev.err) {
        torn(what.c_str(), d, dt, old, v);
        if (own)
          clear(*own);
        PROBE("failed into a destination");
        break;
      }
      if (!own && false)
        return;
      check_dump("wrong-result", what.c_str(), d, text(dt, v));
      if (own) {
        own->p = v;
        PROBE("in place");
      } else {
        drop(n);
        set(dst, d, dt, v);
        PROBE("into a destination");
      }
      break;
    }
    case E_BAD: {
      switch (r.below(3)) {
      case 0:
        must_fail("an operation on one operand too many", [&] { n = fn(op)(a.a, b.a, a.a); });
        break;
      case 1:
        must_fail("an operation with an unknown keyword", [&] { n = fn(op)({a.a, b.a}, {{"whatever", b.a}}); });
        break;
      default: {
        nd::array s;
        must_do("making a string", [&] { s = nd::array("abc"); });
        if (op == LT || op == LE || op == EQ || op == NE || op == GE || op == GT)
          break;
        must_fail("arithmetic on a string", [&] { n = fn(op)(a.a, s); });
        drop(s);
      }
      }
      drop(n);
      break;
    }
    case E_DROP:
      clear(dst);
      break;
    }
    drop(n);
    check_dump("source-changed", what.c_str(), a.a, a.set ? text(a.t, a.p) : "NULL");
    check_dump("source-changed", what.c_str(), b.a, b.set ? text(b.t, b.p) : "NULL");
  }
  void end() override {
    for (int f = 0; f < rt::MAXF; f++)
      for (Slot &s : res[f])
        if (s.set) {
          check_dump("wrong-contents", "a result at the end", s.a, text(s.t, s.p));
          clear(s);
        }
    for (Slot &s : fr) {
      check_dump("source-changed", "a shared operand at the end", s.a, text(s.t, s.p));
      clear(s);
    }
  }
};
Scenario *mk() { return new C04; }
Tuning tune() {
  Tuning t;
  return t;
}
Register reg("C04", "elwise", mk, tune());
} // namespace
