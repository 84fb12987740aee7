// C15: missing values.  Options in fixed and var dimensions and in fields of records, seen through any view, against a model
// that knows for every element whether it is missing.
#include "numeric.h"
#include <functional>
#include <dynd/option.hpp>
using namespace numeric;

namespace {
enum { A_SEE, A_SCALARS, A_SET, A_BOARD, A_CONVERT, A_EXTRACT, A_WRAP, A_CALC, NK };
const char *const names[] = {"is_na", "is_na of the elements", "assign_na", "assign_na to an own row", "assign to options", "assign to values", "assign values to options", "calculate"};
enum { NF = 4, COLS = 5 };
const K kinds[] = {BOOL, I8, I16, I32, I64, U8, U16, U32, U64, F32, F64};

bool missing(const T &t, const P &p) { return p->na || (t.sub[0].k >= F32 && std::isnan(p->v[0]->d)); }
P na_value(K k) {
  P p(new V());
  p->unset = false;
  p->na = true;
  P v(new V());
  v->unset = false;
  p->v = {v};
  (void)k;
  return p;
}
// a value that option[k] can hold
P some(Rng &r, K k, bool na) {
  P p(new V());
  p->unset = false;
  p->na = na && r.chance(1, 3);
  do
    p->v = {number(r, k)};
  while (is_sentinel(k, *p->v[0]) || (k >= F32 && std::isnan(p->v[0]->d)));
  return p;
}
P values(Rng &r, const T &t) {
  P p(new V());
  p->unset = false;
  if (t.k == OPT)
    return some(r, t.sub[0].k, true);
  if (t.k == STRUCT || t.k == TUPLE) {
    for (auto &e : t.sub)
      p->v.push_back(values(r, e));
    return p;
  }
  if (t.k == FIXED || t.k == VAR) {
    int n = t.k == FIXED ? t.n : r.chance(1, 5) ? 0 : r.range(1, 5);
    for (int i = 0; i < n; i++)
      p->v.push_back(values(r, t.sub[0]));
    return p;
  }
  return number(r, t.k);
}
T dims(Rng &r, T t, bool rec) {
  for (int n = r.pickl({0, 1, 1, 1, 2, 2, 3}); n > 0; n--)
    t = dim(r.chance(1, 3) ? -1 : r.chance(1, 12) ? 0 : r.range(1, 6), t);
  (void)rec;
  return t;
}
T element(Rng &r, bool rec) {
  T e = opt(r.pick(kinds));
  if (!rec || r.chance(2, 3))
    return e;
  T s;
  s.k = STRUCT;
  int n = r.range(1, 3);
  static const char *const fn[] = {"a", "b", "c"};
  for (int i = 0; i < n; i++) {
    s.sub.push_back(opt(r.pick(kinds)));
    s.names.push_back(fn[i]);
  }
  return s;
}
P map_leaves(const T &t, const P &p, const std::function<P(const T &, const P &)> &f) {
  if (t.k != FIXED && t.k != VAR)
    return f(t, p);
  P q(new V());
  q->unset = false;
  for (auto &e : p->v)
    q->v.push_back(map_leaves(t.sub[0], e, f));
  return q;
}
void each(const T &t, const P &p, const std::function<void(const T &, const P &)> &f) {
  if (t.k == OPT)
    f(t, p);
  else if (t.k == FIXED || t.k == VAR)
    for (auto &e : p->v)
      each(t.sub[0], e, f);
  else
    for (size_t i = 0; i < t.sub.size(); i++)
      each(t.sub[i], p->v[i], f);
}
P bools(const T &t, const P &p) {
  return map_leaves(t, p, [](const T &e, const P &v) {
    P b(new V());
    b->unset = false;
    b->i = missing(e, v);
    return b;
  });
}

struct C15 : Scenario {
  struct Slot {
    nd::array a;
    T t;
    P p;
  } shared[NF];
  Slot board; // every thread has rows of its own
  int nf = 1;

  void generate(Rng &r, Plan &p) override {
    p.nf = r.chance(1, 3) ? 1 : r.range(2, 4);
    int n = r.range(5, 20);
    static const int mix[] = {A_SEE, A_SEE, A_SEE, A_SCALARS, A_SET, A_SET, A_SET, A_BOARD, A_BOARD, A_CONVERT, A_CONVERT, A_EXTRACT, A_WRAP, A_CALC};
    for (int i = 0; i < n; i++)
      p.add(r.range(1, p.nf), r.pick(mix), r.below(30000), r.below(30000));
    p.params[0] = r.below(30000);
    p.params[1] = r.below(30000);
  }
  std::string show(const Plan &, const Op &o) override { return fmt("%s r=%d,%d", names[o.kind % NK], o.a[0], o.a[1]); }
  const char *opname(const Op &o) override { return names[o.kind % NK]; }

  static nd::array fresh(const T &t, const P &p) {
    nd::array a;
    must_do("nd::empty", [&] { a = nd::empty(typed::make(t)); });
    Mode q(M_QUIET);
    fill(a, t, p);
    return a;
  }
  void begin(const Plan &p) override {
    Rng r(((uint64_t)(unsigned short)p.params[0] << 16) ^ (unsigned short)p.params[1]);
    for (Slot &s : shared) {
      s.t = dims(r, element(r, true), true);
      s.p = values(r, s.t);
      nd::array a = fresh(s.t, s.p);
      Mode m(M_QUIET);
      s.a = std::move(a);
    }
    nf = p.nf;
    board.t = dim(nf, dim(COLS, opt(r.pick(kinds))));
    board.p = values(r, board.t);
    nd::array a = fresh(board.t, board.p);
    Mode m(M_QUIET);
    board.a = std::move(a);
  }
  // A part of an array; the model of the part shares the nodes of the whole.  Ends at options.
  static void part(Rng &r, nd::array &a, T &t, P &p) {
    for (int depth = r.below(4); depth > 0 || dtype(t).k == STRUCT; depth--) {
      nd::array b;
      if (dtype(t).k == STRUCT && (depth <= 0 || r.chance(1, 2))) {
        int i = r.below((int)dtype(t).sub.size());
        std::string name = dtype(t).names[i];
        must_do("taking a field", [&] { b = a.p(name); });
        T f = dtype(t).sub[i];
        p = map_leaves(t, p, [&](const T &, const P &v) { return v->v[i]; });
        t = redtype(t, f);
      } else if (t.k == FIXED && t.n > 0 && r.chance(1, 2)) {
        int step = r.pickl({1, 2, 3, -1, -2}), n = t.n, start = r.below(n);
        std::vector<P> v;
        must_do("slicing", [&] { b = step > 0 ? a(irange(start, n, step)) : a(irange(start, std::numeric_limits<intptr_t>::max(), step)); });
        for (int i = start; i >= 0 && i < n; i += step)
          v.push_back(p->v[i]);
        P q(new V());
        q->unset = false;
        q->v = v;
        p = q;
        t.n = (int)v.size();
      } else if ((t.k == FIXED || t.k == VAR) && !p->v.empty()) {
        int i = r.below((int)p->v.size());
        must_do("indexing", [&] { b = a(i); });
        T e = t.sub[0];
        t = e;
        p = P(p->v[i]);
      } else if (t.k == FIXED && t.n > 0) {
        continue;
      } else if (dtype(t).k == STRUCT) {
        depth = 0;
        continue;
      } else
        return;
      Mode m(M_SIM);
      a = std::move(b);
    }
  }
  Slot &any(Rng &r) { return shared[r.below(NF)]; }
  // what the elements are after a failed or successful change of some of them
  static void check_some(const char *what, bool ok, const nd::array &whole, const T &t, const P &before, const P &after) {
    if (ok)
      check_dump("wrong-value", what, whole, text(t, after));
    else {
      // fields of records too: compare the flat lists
      std::vector<std::string> x = words(dump(whole)), y = words(text(t, before)), z = words(text(t, after));
      bool fine = x.size() == y.size() && y.size() == z.size();
      for (size_t i = 0; fine && i < x.size(); i++)
        fine = x[i] == y[i] || x[i] == z[i];
      if (!fine)
        rt::violation("torn-write", "%s failed and left %s; before %s, wanted %s", what, dump(whole).c_str(), text(t, before).c_str(), text(t, after).c_str());
    }
  }
  static std::vector<std::string> words(const std::string &s) {
    std::vector<std::string> o;
    std::string e;
    for (char c : s)
      if (strchr("[](){}, ", c)) {
        if (!e.empty())
          o.push_back(e);
        e.clear();
      } else
        e += c;
    if (!e.empty())
      o.push_back(e);
    return o;
  }
  static Outcome retried(const std::function<void()> &f) {
    Outcome o;
    for (int i = 0; i < 2; i++) {
      o = attempt(f);
      if (o.ok || !rt::op_fired_mask() || o.type != "std::bad_alloc")
        break;
      rt::op_faults_off();
    }
    return o;
  }
  static void unexpected(const char *what, const Outcome &o, const std::string &on) {
    rt::violation("unexpected-error", "%s of %s: %s: %s", what, on.c_str(), o.type.c_str(), o.what.c_str());
  }
  static T plain(const T &t, K k) { return redtype(t, scalar(k)); }
  // value of K a as one of K b, NULL where it does not fit
  static P converted(K a, const P &v, K b) {
    if (a == b)
      return v;
    double x = a >= F32 ? v->d : (a == U64 ? (double)(unsigned long long)v->i : (double)v->i);
    if (!(std::fabs(x) < 100) || x != std::floor(x) || (b >= U8 && b <= U64 && x < 0) || b == BOOL || a == BOOL)
      return P();
    P o(new V());
    o->unset = false;
    if (b >= F32)
      o->d = x;
    else
      o->i = (long long)x;
    return o;
  }
  void exec(const Op &o, int) override {
    Rng r(((uint64_t)(unsigned short)o.a[0] << 16) ^ (unsigned short)o.a[1]);
    switch (o.kind) {
    case A_SEE: {
      Slot &s = any(r);
      nd::array a;
      {
        Mode m(M_SIM);
        a = s.a;
      }
      T t = s.t;
      P p = s.p;
      if (r.chance(1, 3)) { // other strides
        drop(a);
        t = dims(r, element(r, false), false);
        p = values(r, t);
        a = build(r, t, p);
      }
      part(r, a, t, p);
      T rt_ = redtype(t, scalar(BOOL));
      P want = bools(t, p);
      nd::array b;
      Outcome oc;
      bool given = !has(t, VAR) && r.chance(1, 3);
      if (given) {
        P init = map_leaves(t, p, [&](const T &, const P &) { return number(r, BOOL); });
        nd::array d = build(r, rt_, init);
        oc = retried([&] { b = nd::is_na({a}, {{"dst", d}}); });
        if (!oc.ok)
          unexpected("is_na", oc, ds(t));
        check_dump("wrong-value", "the destination of is_na", d, text(rt_, want));
        drop(d);
        PROBE("into a destination");
      } else {
        oc = retried([&] { b = nd::is_na(a); });
        if (!oc.ok)
          unexpected("is_na", oc, ds(t));
        check_type("is_na", b, rt_);
      }
      check_dump("wrong-value", fmt("is_na of %s", text(t, p).c_str()).c_str(), b, text(rt_, want));
      drop(b);
      drop(a);
      PROBE("seen");
      if (has(t, VAR))
        PROBE("in var dimensions");
      break;
    }
    case A_SCALARS: {
      Slot &s = any(r);
      nd::array a;
      {
        Mode m(M_SIM);
        a = s.a;
      }
      T t = s.t;
      P p = s.p;
      part(r, a, t, p);
      for (int i = 0; i < 6 && (t.k == FIXED || t.k == VAR) && !p->v.empty(); i++) {
        nd::array b;
        int k = r.below((int)p->v.size());
        must_do("indexing", [&] { b = a(k); });
        T e = t.sub[0];
        t = e;
        p = P(p->v[k]);
        Mode m(M_SIM);
        a = std::move(b);
      }
      bool got = false;
      Outcome oc = retried([&] { got = a.is_na(); });
      if (!oc.ok)
        unexpected("is_na", oc, ds(t));
      if (got != (t.k == OPT && missing(t, p)))
        rt::violation("wrong-value", "is_na of %s %s is %d", ds(t).c_str(), text(t, p).c_str(), got);
      drop(a);
      PROBE("a single element");
      break;
    }
    case A_SET: {
      T t = dims(r, element(r, true), true);
      P p = values(r, t);
      nd::array whole = fresh(t, p), a = whole;
      P before = clone(t, p);
      T vt = t;
      P vp = p;
      part(r, a, vt, vp);
      std::string on = ds(vt);
      bool elem = r.chance(1, 4);
      Outcome oc = attempt([&] {
        if (elem)
          nd::assign_na({}, {{"dst", a}});
        else
          a.assign_na();
      });
      if (!oc.ok && !rt::op_fired_mask())
        unexpected("assign_na", oc, on);
      each(vt, vp, [](const T &, const P &v) { v->na = true; });
      check_some(fmt("assign_na to a part of %s", text(t, before).c_str()).c_str(), oc.ok, whole, t, before, p);
      if (!oc.ok) {
        rt::op_faults_off();
        must_do("assign_na after a failure", [&] { a.assign_na(); });
        check_dump("wrong-value", "assign_na after a failure", whole, text(t, p));
        PROBE("set after a failure");
      }
      drop(a);
      drop(whole);
      PROBE("set");
      if (vt.k != t.k || vt.n != t.n)
        PROBE("set in a part");
      break;
    }
    case A_BOARD: {
      int row = rt::cur_fiber() % nf;
      nd::array a;
      must_do("indexing", [&] { a = board.a(row); });
      P p = board.p->v[row];
      int lo = r.below(COLS), step = r.pickl({1, 2, -1});
      std::vector<int> at;
      if (step > 0)
        for (int i = lo; i < COLS; i += step)
          at.push_back(i);
      else
        for (int i = lo; i >= 0; i--)
          at.push_back(i);
      nd::array b;
      must_do("slicing", [&] { b = step > 0 ? a(irange(lo, COLS, step)) : a(irange(lo, std::numeric_limits<intptr_t>::max(), -1)); });
      T rt_ = board.t.sub[0];
      P before = clone(rt_, p);
      bool back = r.chance(1, 3);
      nd::array c;
      if (back) { // values again
        T vt = dim((int)at.size(), board.t.sub[0].sub[0]);
        P vp = values(r, vt);
        c = fresh(vt, vp);
        for (size_t i = 0; i < at.size(); i++)
          p->v[at[i]] = vp->v[i];
      } else
        for (int i : at)
          p->v[i]->na = true;
      Outcome oc = attempt([&] {
        if (back)
          b.assign(c);
        else
          b.assign_na();
      });
      if (!oc.ok && !rt::op_fired_mask())
        unexpected(back ? "assignment" : "assign_na", oc, ds(rt_));
      check_some("an own row", oc.ok, a, rt_, before, p);
      if (!oc.ok) {
        rt::op_faults_off();
        must_do("again", [&] {
          if (back)
            b.assign(c);
          else
            b.assign_na();
        });
        check_dump("wrong-value", "an own row after a failure", a, text(rt_, p));
      }
      drop(c);
      drop(b);
      drop(a);
      PROBE("own rows");
      break;
    }
    case A_CONVERT: { // option to option: what is missing stays missing, what is there stays there
      K k1 = r.pick(kinds), k2 = r.chance(1, 3) ? k1 : r.pick(kinds);
      T t = dims(r, opt(k1), false);
      P p = values(r, t);
      P want = map_leaves(t, p, [&](const T &, const P &v) {
        P c = converted(k1, v->v[0], k2);
        if (!c) { // a value that fits
          v->v[0] = P(new V());
          v->v[0]->unset = false;
          c = v->v[0];
          if (k1 == BOOL || k2 == BOOL)
            ;
        }
        P q(new V());
        q->unset = false;
        q->na = v->na;
        q->v = {c};
        return q;
      });
      if ((k1 == BOOL) != (k2 == BOOL))
        break;
      T dt = redtype(t, opt(k2));
      nd::array src = build(r, t, p), dst;
      P init = clone(dt, want);
      each(dt, init, [&](const T &, const P &v) { *v = *some(r, k2, true); });
      dst = fresh(dt, init);
      Outcome oc = attempt([&] { dst.assign(src); });
      if (!oc.ok && !rt::op_fired_mask())
        unexpected("assignment", oc, ds(t) + " to " + ds(dt));
      check_some(fmt("assigning %s to %s", text(t, p).c_str(), ds(dt).c_str()).c_str(), oc.ok, dst, dt, init, want);
      drop(src);
      drop(dst);
      PROBE("to other options");
      break;
    }
    case A_EXTRACT: { // option to value: an error exactly if something is missing
      K k = r.pick(kinds);
      T t = dims(r, opt(k), false), dt = redtype(t, scalar(k));
      P p = values(r, t);
      if (r.chance(1, 2))
        each(t, p, [](const T &, const P &v) { v->na = false; });
      bool any = false;
      P want = map_leaves(t, p, [&](const T &, const P &v) {
        any |= v->na;
        return v->v[0];
      });
      P init = map_leaves(t, p, [&](const T &, const P &) { return number(r, k); });
      nd::array src = build(r, t, p), dst = fresh(dt, init);
      Outcome oc = attempt([&] { dst.assign(src); });
      if (oc.ok && any)
        rt::violation("lost-error", "missing values of %s were assigned to %s", text(t, p).c_str(), ds(dt).c_str());
      if (!oc.ok && !any && !rt::op_fired_mask())
        unexpected("assignment", oc, ds(t) + " to " + ds(dt));
      check_some(fmt("assigning %s to %s", text(t, p).c_str(), ds(dt).c_str()).c_str(), oc.ok, dst, dt, init, want);
      drop(src);
      drop(dst);
      if (any)
        PROBE("refused to store a missing value");
      else
        PROBE("to values");
      break;
    }
    case A_WRAP: { // values to options: nothing becomes missing
      K k = r.pick(kinds);
      T t = dims(r, scalar(k), false), dt = redtype(t, opt(k));
      P p = map_leaves(t, values(r, t), [&](const T &, const P &) { return some(r, k, false)->v[0]; });
      P want = map_leaves(t, p, [&](const T &, const P &v) {
        P q(new V());
        q->unset = false;
        q->v = {v};
        return q;
      });
      P init = clone(dt, want);
      each(dt, init, [&](const T &, const P &v) { *v = *some(r, k, true); });
      nd::array src = build(r, t, p), dst = fresh(dt, init);
      Outcome oc = attempt([&] { dst.assign(src); });
      if (!oc.ok && !rt::op_fired_mask())
        unexpected("assignment", oc, ds(t) + " to " + ds(dt));
      check_some(fmt("assigning %s to %s", text(t, p).c_str(), ds(dt).c_str()).c_str(), oc.ok, dst, dt, init, want);
      drop(src);
      drop(dst);
      PROBE("from values");
      break;
    }
    case A_CALC: { // missing operands give missing results, and only they do
      K k = (K)r.pickl({I32, I64, F64});
      T ta = dim(r.range(1, 6), opt(k)), tb = r.chance(1, 2) ? ta : dim(ta.n, scalar(k));
      P pa = values(r, ta), pb = values(r, tb);
      auto tame = [&](const T &, const P &v) {
        P x = v->v.empty() ? v : v->v[0];
        x->i = r.below(2000) - 1000;
        x->d = r.below(2000) / 4.0;
        return v;
      };
      pa = map_leaves(ta, pa, tame), pb = map_leaves(tb, pb, tame);
      nd::array a = fresh(ta, pa), b = fresh(tb, pb), c, d;
      bool swap = r.chance(1, 2), less = r.chance(1, 3);
      Outcome oc = retried([&] {
        if (swap)
          c = less ? b < a : b + a;
        else
          c = less ? a < b : a + b;
      });
      if (!oc.ok)
        unexpected("calculating", oc, ds(ta) + " and " + ds(tb));
      oc = retried([&] { d = nd::is_na(c); });
      if (!oc.ok)
        unexpected("is_na", oc, type_str(c.get_type()));
      std::string want = "[";
      for (int i = 0; i < ta.n; i++)
        want += (i ? ", " : "") + B(pa->v[i]->na || pb->v[i]->na);
      check_dump("wrong-value", fmt("is_na of %s and %s", text(ta, pa).c_str(), text(tb, pb).c_str()).c_str(), d, want + "]");
      drop(a), drop(b), drop(c), drop(d);
      PROBE("calculated");
      break;
    }
    }
  }
  void end() override {
    for (Slot &s : shared) {
      check_dump("source-changed", "an array at the end", s.a, text(s.t, s.p));
      drop(s.a);
    }
    check_dump("wrong-value", "the rows of all threads at the end", board.a, text(board.t, board.p));
    drop(board.a);
  }
};
Register reg("C15", "missing", []() -> Scenario * { return new C15; }, Tuning());
} // namespace
