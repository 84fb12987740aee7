// C16: += and /= in place, and equals_exact, against C++ arithmetic and a comparison of the model trees.
#include "numeric.h"
#include <functional>
using namespace numeric;

namespace {
enum { A_UPDATE, A_SELF, A_BOARD, A_SAME, A_CHANGED, A_OTHER, A_PART, A_RECORDS, NK };
const char *const names[] = {"update in place", "update by itself", "update an own row", "compare equal arrays", "compare a changed array", "compare unrelated arrays", "compare parts", "compare records"};
enum { NF = 4, COLS = 6 };
const K kinds[] = {I8, I16, I32, I64, U8, U16, U32, U64, F32, F64};

struct InPlace : Elem {
  int op;
  explicit InPlace(int o) : op(o) {}
  bool type(const std::vector<T> &a, T &out) const override {
    out = a[0];
    return true;
  }
  P value(const std::vector<T> &ts, const std::vector<const V *> &a, bool &ub) const override {
    Res x = binary(op, ts[0].k, a[0], ts[1].k, a[1]);
    if (x.zero)
      return P();
    if (x.ub || !x.v) {
      ub = true;
      return blank(ts[0]);
    }
    K k = ts[0].k;
    bool fl = x.k >= F32;
    if (fl && k < F32 && !(std::fabs(x.v->d) < 100)) // may not fit
      ub = true;
    if (fl && k >= U8 && k <= U64 && x.v->d <= -1)
      ub = true;
    if (ub)
      return blank(ts[0]);
    V v = *x.v;
    bool u64 = x.k == U64;
    return with(k, [&](auto z) {
      typedef decltype(z) A;
      return fl ? box<A>((A)v.d) : u64 ? box<A>((A)(unsigned long long)v.i) : box<A>((A)v.i);
    });
  }
};
// equal by value, as the library documents ==
bool eq(const T &t, const P &a, const P &b) {
  switch (t.k) {
  case F32:
    return (float)a->d == (float)b->d;
  case F64:
    return a->d == b->d;
  case STR:
  case BYTES:
  case FSTR:
  case FBYTES:
    return a->s == b->s;
  case OPT:
    return a->na || b->na ? a->na == b->na : eq(t.sub[0], a->v[0], b->v[0]);
  case FIXED:
  case VAR:
    if (a->v.size() != b->v.size())
      return false;
    for (size_t i = 0; i < a->v.size(); i++)
      if (!eq(t.sub[0], a->v[i], b->v[i]))
        return false;
    return true;
  case TUPLE:
  case STRUCT:
    for (size_t i = 0; i < t.sub.size(); i++)
      if (!eq(t.sub[i], a->v[i], b->v[i]))
        return false;
    return true;
  default:
    return a->i == b->i;
  }
}

struct C16 : Scenario {
  struct Slot {
    nd::array a;
    T t;
    P p;
  } shared[NF];
  Slot board;
  int nf = 1;
  Gen g;
  C16() {
    g.fstr = g.fbytes = false; // there is no == for them
    g.rich = true;
    g.maxdim = 5;
  }
  void generate(Rng &r, Plan &p) override {
    p.nf = r.chance(1, 3) ? 1 : r.range(2, 4);
    int n = r.range(5, 18);
    static const int mix[] = {A_UPDATE, A_UPDATE, A_UPDATE, A_SELF, A_BOARD, A_BOARD, A_SAME, A_CHANGED, A_CHANGED, A_OTHER, A_PART, A_RECORDS};
    for (int i = 0; i < n; i++)
      p.add(r.range(1, p.nf), r.pick(mix), r.below(30000), r.below(30000));
    p.params[0] = r.below(30000);
    p.params[1] = r.below(30000);
  }
  std::string show(const Plan &, const Op &o) override { return fmt("%s r=%d,%d", names[o.kind % NK], o.a[0], o.a[1]); }
  const char *opname(const Op &o) override { return names[o.kind % NK]; }
  static nd::array fresh(const T &t, const P &p) {
    nd::array a;
    must_do("nd::empty", [&] { a = nd::empty(typed::make(t)); });
    Mode q(M_QUIET);
    fill(a, t, p);
    return a;
  }
  void gen(Rng &r, T &t, P &p) {
    do {
      t = gen_type(r, g, r.below(4));
      p = gen_value(r, g, t);
    } while (leaves(t, p) > 120);
  }
  void begin(const Plan &p) override {
    Rng r(((uint64_t)(unsigned short)p.params[0] << 16) ^ (unsigned short)p.params[1]);
    for (Slot &s : shared) {
      gen(r, s.t, s.p);
      nd::array a = fresh(s.t, s.p);
      Mode m(M_QUIET);
      s.a = std::move(a);
    }
    nf = p.nf;
    board.t = dim(nf, dim(COLS, scalar(r.pick(kinds))));
    board.p = tree(r, board.t, 3);
    nd::array a = fresh(board.t, board.p);
    Mode m(M_QUIET);
    board.a = std::move(a);
  }
  static void unexpected(const char *what, const Outcome &o, const std::string &on) {
    rt::violation("unexpected-error", "%s of %s: %s: %s", what, on.c_str(), o.type.c_str(), o.what.c_str());
  }
  // dst op= src; returns whether it ran to its end
  static void update(nd::array &dst, int op, const nd::array &src) {
    if (op == ADD)
      dst += src;
    else
      dst /= src;
  }
  static const char *opname(int op) { return op == ADD ? "+=" : "/="; }
  static T shape(Rng &r, K k, int nd, bool vars) {
    T t = scalar(k);
    while (nd-- > 0)
      t = dim(vars && r.chance(1, 4) ? -1 : r.chance(1, 12) ? 0 : r.range(1, 5), t);
    return t;
  }
  // an operand whose dims broadcast into those of t, mostly
  static T operand(Rng &r, const T &t, K k) {
    std::vector<const T *> d;
    for (const T *x = &t; x->k == FIXED || x->k == VAR; x = &x->sub[0])
      d.push_back(x);
    T o = scalar(k);
    int n = r.below((int)d.size() + 1) + (r.chance(1, 15) ? 1 : 0);
    for (int i = 0; i < n; i++) {
      bool in = i < (int)d.size();
      const T *x = in ? d[d.size() - 1 - i] : nullptr;
      if (r.chance(1, 20) || !in)
        o = dim(r.range(1, 5), o);
      else if (r.chance(1, 5))
        o = dim(1, o);
      else
        o = dim(x->k == VAR ? (r.chance(1, 2) ? -1 : 3) : x->n, o);
    }
    return o;
  }
  // one thing in the tree becomes another
  bool change(Rng &r, const T &t, const P &p) {
    switch (t.k) {
    case VAR:
    case FIXED:
      if (t.k == VAR && r.chance(1, 4)) {
        if (!p->v.empty() && r.chance(1, 2))
          p->v.pop_back();
        else
          p->v.push_back(gen_value(r, g, t.sub[0]));
        return true;
      }
      if (p->v.empty())
        return false;
      return change(r, t.sub[0], p->v[r.chance(1, 3) ? (int)p->v.size() - 1 : r.below((int)p->v.size())]);
    case TUPLE:
    case STRUCT: {
      if (t.sub.empty())
        return false;
      int i = r.below((int)t.sub.size());
      return change(r, t.sub[i], p->v[i]);
    }
    default:
      for (int i = 0; i < 20; i++) {
        P q = gen_value(r, g, t);
        if (!eq(t, p, q)) {
          V &v = *p;
          v.i = q->i, v.d = q->d, v.s = q->s, v.na = q->na, v.v = q->v;
          return true;
        }
      }
      return false;
    }
  }
  void compare(const nd::array &a, const nd::array &b, bool want, const std::string &ta, const std::string &tb) {
    bool got = false;
    Outcome o;
    for (int i = 0; i < 2; i++) {
      o = attempt([&] { got = a.equals_exact(b); });
      if (o.ok || !rt::op_fired_mask() || o.type != "std::bad_alloc")
        break;
      rt::op_faults_off();
    }
    if (!o.ok)
      unexpected("equals_exact", o, type_str(a.get_type()) + " and " + type_str(b.get_type()));
    if (got != want)
      rt::violation("wrong-value", "equals_exact of %s and %s of %s gives %d", ta.c_str(), tb.c_str(), type_str(a.get_type()).c_str(), got);
  }
  static void part(Rng &r, nd::array &a, T &t, P &p) {
    for (int depth = r.range(1, 3); depth > 0; depth--) {
      nd::array b;
      if (t.k == FIXED && t.n > 0 && r.chance(1, 2)) {
        int step = r.pickl({1, 2, 3, -1, -2}), n = t.n, start = r.below(n);
        std::vector<P> v;
        must_do("slicing", [&] { b = step > 0 ? a(irange(start, n, step)) : a(irange(start, std::numeric_limits<intptr_t>::max(), step)); });
        for (int i = start; i >= 0 && i < n; i += step)
          v.push_back(p->v[i]);
        P q(new V());
        q->unset = false;
        q->v = v;
        p = q;
        t.n = (int)v.size();
      } else if ((t.k == FIXED || t.k == VAR) && !p->v.empty()) {
        int i = r.below((int)p->v.size());
        must_do("indexing", [&] { b = a(i); });
        T e = t.sub[0];
        t = e;
        p = P(p->v[i]);
      } else if ((t.k == TUPLE || t.k == STRUCT) && !t.sub.empty()) {
        int i = r.below((int)t.sub.size());
        must_do("taking a field", [&] { b = a(i); });
        T e = t.sub[i];
        t = e;
        p = P(p->v[i]);
      } else
        return;
      Mode m(M_SIM);
      a = std::move(b);
    }
  }
  static bool flat(const T &t) { // no dims, no options inside
    for (auto &e : t.sub)
      if (!flat(e))
        return false;
    return t.k != FIXED && t.k != VAR && t.k != OPT;
  }
  void exec(const Op &o, int) override {
    Rng r(((uint64_t)(unsigned short)o.a[0] << 16) ^ (unsigned short)o.a[1]);
    switch (o.kind) {
    case A_UPDATE: {
      int op = r.chance(1, 2) ? ADD : DIV;
      T dt, st;
      P dp, sp, want;
      Ev ev;
      bool ok;
      for (;;) {
        dt = shape(r, r.pick(kinds), r.below(4), true);
        st = operand(r, dt, r.pick(kinds));
        dp = has(dt, VAR) ? ragged(r, dt, 4) : tree(r, dt, 3);
        sp = tree(r, st, r.range(1, 3));
        ok = accepts(dt, {st});
        ev = Ev();
        if (ok)
          want = apply(InPlace(op), dt, {dt, st}, {dp, sp}, dp, ev);
        if (!ev.ub)
          break;
      }
      // the array is part of a bigger one, whose other elements stay
      bool bigger = dt.k == FIXED && dt.n > 0 && r.chance(1, 2);
      T wt = dt;
      P wp = dp;
      nd::array whole, dst;
      if (bigger) {
        wt.n = 2 * dt.n + 1;
        wp = P(new V());
        wp->unset = false;
        for (int i = 0; i < wt.n; i++)
          wp->v.push_back(i % 2 && i / 2 < dt.n ? dp->v[i / 2] : has(dt, VAR) ? ragged(r, dt.sub[0], 4) : tree(r, dt.sub[0], 3));
        whole = fresh(wt, wp);
        must_do("slicing", [&] { dst = whole(irange(1, wt.n, 2)); });
      } else {
        whole = fresh(wt, wp);
        Mode m(M_SIM);
        dst = whole;
      }
      nd::array src = build(r, st, sp);
      std::string on = ds(dt) + " " + opname(op) + " " + ds(st);
      Outcome oc = attempt([&] { update(dst, op, src); });
      bool fired = rt::op_fired_mask();
      if (!ok) {
        if (oc.ok)
          rt::violation("lost-error", "%s was accepted", on.c_str());
        check_dump("wrong-value", ("refused: " + on).c_str(), whole, text(wt, wp));
        PROBE("refused");
      } else if (oc.ok) {
        if (ev.err)
          rt::violation("lost-error", "%s of %s and %s was accepted", on.c_str(), text(dt, dp).c_str(), text(st, sp).c_str());
        P now = want;
        if (bigger) {
          now = P(new V());
          now->unset = false;
          for (int i = 0; i < wt.n; i++)
            now->v.push_back(i % 2 && i / 2 < dt.n ? want->v[i / 2] : wp->v[i]);
        }
        check_dump("wrong-value", (on + " of " + text(dt, dp) + " and " + text(st, sp)).c_str(), whole, text(wt, now));
        PROBE("updated");
        if (ndim(st) < ndim(dt))
          PROBE("spread over more dimensions");
      } else {
        if (!ev.err && !fired)
          unexpected("updating", oc, on);
        if (!bigger)
          torn(on.c_str(), whole, wt, wp, want);
        PROBE("failed on the way");
        if (ev.err && !fired && oc.type.find("zero_division") != std::string::npos)
          PROBE("divided by zero");
      }
      check_dump("source-changed", "the operand", src, text(st, sp));
      drop(src), drop(dst), drop(whole);
      break;
    }
    case A_SELF: {
      int op = r.chance(1, 2) ? ADD : DIV;
      T t;
      P p, want;
      Ev ev;
      do {
        t = shape(r, r.pick(kinds), r.below(3), false);
        p = tree(r, t, 3);
        ev = Ev();
        want = apply(InPlace(op), t, {t, t}, {p, p}, p, ev);
      } while (ev.ub || ev.err);
      nd::array a = fresh(t, p), b;
      {
        Mode m(M_SIM);
        b = a;
      }
      Outcome oc = attempt([&] { update(a, op, b); });
      if (oc.ok)
        check_dump("wrong-value", fmt("%s of %s by itself", opname(op), text(t, p).c_str()).c_str(), a, text(t, want));
      else if (!rt::op_fired_mask())
        unexpected("updating by itself", oc, ds(t));
      drop(b), drop(a);
      PROBE("by itself");
      break;
    }
    case A_BOARD: {
      int row = rt::cur_fiber() % nf, op;
      nd::array a, src;
      const T &t = board.t.sub[0];
      T st;
      P sp, want;
      Ev ev;
      do {
        op = r.chance(2, 3) ? ADD : DIV;
        st = r.chance(1, 2) ? dim(COLS, scalar(r.pick(kinds))) : scalar(r.pick(kinds));
        sp = tree(r, st, 3);
        ev = Ev();
        want = apply(InPlace(op), t, {t, st}, {board.p->v[row], sp}, board.p->v[row], ev);
      } while (ev.ub || ev.err);
      must_do("indexing", [&] { a = board.a(row); });
      src = fresh(st, sp);
      Outcome oc = attempt([&] { update(a, op, src); });
      if (!oc.ok && !rt::op_fired_mask())
        unexpected("updating", oc, ds(t));
      if (oc.ok)
        board.p->v[row] = want;
      check_dump("wrong-value", oc.ok ? "an own row" : "an own row after a failure", a, text(t, board.p->v[row]));
      drop(src), drop(a);
      PROBE("own rows");
      break;
    }
    case A_SAME: {
      Slot &s = shared[r.below(NF)];
      nd::array b = fresh(s.t, s.p);
      bool want = eq(s.t, s.p, s.p);
      compare(s.a, b, want, text(s.t, s.p), "its copy");
      compare(b, s.a, want, "a copy", text(s.t, s.p));
      compare(s.a, s.a, true, text(s.t, s.p), "itself");
      drop(b);
      PROBE("equal");
      break;
    }
    case A_CHANGED: {
      Slot &s = shared[r.below(NF)];
      P p = clone(s.t, s.p);
      change(r, s.t, p);
      nd::array b = fresh(s.t, p);
      bool want = eq(s.t, s.p, p);
      compare(s.a, b, want, text(s.t, s.p), text(s.t, p));
      compare(b, s.a, want, text(s.t, p), text(s.t, s.p));
      drop(b);
      if (!want)
        PROBE("different");
      break;
    }
    case A_OTHER: {
      T t;
      P p;
      gen(r, t, p);
      Slot &s = shared[r.below(NF)];
      nd::array b = fresh(t, p), none;
      bool want = ds(t) == ds(s.t) && eq(t, s.p, p);
      compare(s.a, b, want, text(s.t, s.p), text(t, p));
      compare(b, s.a, want, text(t, p), text(s.t, s.p));
      compare(none, s.a, false, "a null array", text(s.t, s.p));
      compare(s.a, none, false, text(s.t, s.p), "a null array");
      drop(b);
      PROBE("unrelated");
      break;
    }
    case A_PART: { // of an array and of a copy with something changed: equal where the change is not seen
      Slot &s = shared[r.below(NF)];
      P p = clone(s.t, s.p);
      change(r, s.t, p);
      nd::array a, b = fresh(s.t, p);
      {
        Mode m(M_SIM);
        a = s.a;
      }
      Rng r1 = r, r2 = r;
      T t1 = s.t, t2 = s.t;
      P p1 = s.p, p2 = p;
      part(r1, a, t1, p1);
      part(r2, b, t2, p2);
      compare(a, b, ds(t1) == ds(t2) && eq(t1, p1, p2), text(t1, p1), text(t2, p2));
      drop(a), drop(b);
      PROBE("parts");
      break;
    }
    case A_RECORDS: {
      T t;
      P p, q;
      do {
        t = T();
        t.k = r.chance(1, 2) ? TUPLE : STRUCT;
        int n = r.range(1, 4);
        Gen h = g;
        h.opts = h.vars = h.fixeds = false;
        for (int i = 0; i < n; i++) {
          t.sub.push_back(gen_type(r, h, r.below(2)));
          t.names.push_back(fmt("f%d", i));
        }
      } while (!flat(t));
      p = gen_value(r, g, t);
      q = clone(t, p);
      if (r.chance(2, 3))
        change(r, t, q);
      int n = r.below(3);
      for (int i = 0; i < n; i++)
        t = dim(r.range(1, 3), t);
      std::function<P(const T &, const P &)> spread = [&](const T &x, const P &v) {
        if (x.k != FIXED)
          return v;
        P w(new V());
        w->unset = false;
        for (int i = 0; i < x.n; i++)
          w->v.push_back(spread(x.sub[0], v));
        return w;
      };
      bool same = eq(dtype(t), p, q), ne = r.chance(1, 2);
      nd::array a = fresh(t, spread(t, p)), b = fresh(t, spread(t, q)), c;
      Outcome oc;
      for (int i = 0; i < 2; i++) {
        oc = attempt([&] { c = ne ? a != b : a == b; });
        if (oc.ok || !rt::op_fired_mask() || oc.type != "std::bad_alloc")
          break;
        rt::op_faults_off();
      }
      if (!oc.ok)
        unexpected(ne ? "!=" : "==", oc, ds(t));
      T bt = redtype(t, scalar(BOOL));
      P bv(new V());
      bv->unset = false;
      bv->i = ne ? !same : same;
      check_type("a comparison of records", c, bt);
      check_dump("wrong-value", fmt("%s of %s and %s", ne ? "!=" : "==", text(dtype(t), p).c_str(), text(dtype(t), q).c_str()).c_str(), c, text(bt, spread(bt, bv)));
      drop(a), drop(b), drop(c);
      PROBE("records");
      break;
    }
    }
  }
  void end() override {
    for (Slot &s : shared) {
      check_dump("source-changed", "a compared array at the end", s.a, text(s.t, s.p));
      drop(s.a);
    }
    check_dump("wrong-value", "the rows of all threads at the end", board.a, text(board.t, board.p));
    drop(board.a);
  }
};
Register reg("C16", "inplace", []() -> Scenario * { return new C16; }, Tuning());
} // namespace
