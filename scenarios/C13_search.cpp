// C13: sorting, searching, taking, finding positions, and ranges.  A sort keeps the elements whatever happens.
#include "numeric.h"
#include <algorithm>
#include <cmath>
#include <dynd/array_range.hpp>
#include <dynd/comparison.hpp>
#include <dynd/functional.hpp>
#include <dynd/index.hpp>
#include <dynd/range.hpp>
#include <dynd/search.hpp>
#include <dynd/sort.hpp>
using namespace numeric;

namespace {
enum { A_SORT, A_SEARCH, A_MASK, A_TAKE, A_RANGE, A_OLD, A_WHERE, A_EQUAL, A_BAD, NK };
const char *const names[] = {"sort", "binary search", "masked take", "indexed take", "range", "range of C++ values", "where", "all equal", "refused"};
enum { NF = 4 };
struct Slot {
  nd::array a;
  T t;
  P p;
};
nd::callable below11, shared_where, shared_text;
bool less_p(K k, const P &a, const P &b) {
  if (k == STR)
    return a->s < b->s;
  if (k == F32 || k == F64)
    return a->d < b->d;
  if (k == U64)
    return (unsigned long long)a->i < (unsigned long long)b->i;
  return a->i < b->i;
}
std::string bits(K k, const P &a) { return text(scalar(k), a); }

struct C13 : Scenario {
  Slot sorted[NF], any[NF], mask[NF], idx[NF]; // shared
  Gen g;

  void generate(Rng &r, Plan &p) override {
    p.nf = r.chance(1, 3) ? 1 : r.range(2, 4);
    int n = r.range(4, 18);
    static const int mix[] = {A_SORT, A_SORT, A_SORT, A_SEARCH, A_SEARCH, A_MASK, A_MASK, A_TAKE, A_TAKE, A_RANGE, A_OLD, A_WHERE, A_EQUAL, A_BAD};
    for (int i = 0; i < n; i++)
      p.add(r.range(1, p.nf), r.pick(mix), r.below(30000), r.below(30000));
    p.params[0] = r.below(30000);
    p.params[1] = r.below(30000);
  }
  std::string show(const Plan &, const Op &o) override { return fmt("%s r=%d,%d", names[o.kind % NK], o.a[0], o.a[1]); }
  const char *opname(const Op &o) override { return names[o.kind % NK]; }

  static P leaf(Rng &r, K k, int alike) {
    if (k == STR) {
      P p(new V());
      p->unset = false;
      int n = r.chance(1, 4) ? r.range(14, 30) : r.below(4);
      for (int i = 0; i < n; i++)
        p->s += i < 13 && n > 13 ? 'm' : "ab\xc3z"[r.below(5)];
      return p;
    }
    P p = number(r, k);
    if (alike && k != F32 && k != F64)
      p->i = k == BOOL ? r.below(2) : r.below(alike);
    if ((k == F32 || k == F64) && alike)
      p->d = r.below(alike) * 0.5;
    return p;
  }
  static nd::array make_new(const T &t, const P &p, Rng *views, nd::array *whole = nullptr, T *wt = nullptr, P *wv = nullptr) {
    nd::array a;
    T w = t;
    P wp = p;
    int how = views && t.k == FIXED && t.n > 0 ? views->below(4) : 0;
    if (how == 1 || how == 2) { // every other element of something bigger, perhaps backwards
      w.n = 2 * t.n + 1;
      wp = P(new V());
      wp->unset = false;
      for (int i = 0; i < w.n; i++)
        wp->v.push_back(p->v[views->below(t.n)]);
      for (int i = 0; i < t.n; i++)
        wp->v[2 * (how == 2 ? t.n - 1 - i : i)] = p->v[i];
    }
    must_do("nd::empty", [&] { a = nd::empty(typed::make(w)); });
    {
      Mode q(M_QUIET);
      fill(a, w, wp);
    }
    if (whole) {
      Mode q(M_QUIET);
      *whole = a;
      *wt = w, *wv = wp;
    }
    Mode q(M_QUIET);
    if (how == 1)
      a = a(irange(0, 2 * t.n, 2));
    else if (how == 2)
      a = a(irange(2 * t.n - 2, std::numeric_limits<intptr_t>::max(), -2));
    return a;
  }
  static void set(Slot &s, nd::array &&a, const T &t, const P &p) {
    Mode m(M_QUIET);
    s.a = std::move(a);
    s.t = t, s.p = p;
  }
  void begin(const Plan &p) override {
    Rng r(((uint64_t)(unsigned short)p.params[0] << 16) ^ (unsigned short)p.params[1]);
    for (Slot &s : sorted) {
      static const K ks[] = {I32, I32, STR, BOOL};
      K k = r.pick(ks);
      int n = r.chance(1, 8) ? 0 : r.chance(1, 6) ? 1 : r.range(2, 40), alike = r.chance(1, 2) ? 0 : r.range(2, 60);
      std::vector<P> v;
      for (int i = 0; i < n; i++)
        v.push_back(leaf(r, k, alike));
      std::sort(v.begin(), v.end(), [&](const P &a, const P &b) { return less_p(k, a, b); });
      if (r.chance(1, 5) && n > 1) // not sorted after all
        std::swap(v[r.below(n)], v[r.below(n)]);
      T t = dim(n, scalar(k));
      P q(new V());
      q->unset = false;
      q->v = v;
      set(s, make_new(t, q, &r), t, q);
    }
    for (int i = 0; i < NF; i++) {
      int n = r.chance(1, 8) ? 0 : r.chance(1, 6) ? 1 : r.range(2, 12);
      T e = gen_type(r, g, r.below(3)), t = dim(n, e);
      P q = gen_value(r, g, t);
      set(any[i], make_new(t, q, &r), t, q);
      T mt = dim(n, scalar(BOOL)), it = dim(r.below(9), scalar(I64));
      P mv(new V()), iv(new V());
      mv->unset = iv->unset = false;
      int some = r.below(4);
      for (int j = 0; j < n; j++)
        mv->v.push_back(box<bool>(some == 0 ? false : some == 1 ? true : r.chance(1, 2)));
      for (int j = 0; j < it.n; j++)
        iv->v.push_back(box<int64_t>(r.range(-n, std::max(n - 1, -n)) + (r.chance(1, 30) || !n ? n * r.range(-2, 2) : 0)));
      set(mask[i], make_new(mt, mv, &r), mt, mv);
      set(idx[i], make_new(it, iv, &r), it, iv);
    }
    Mode q(M_QUIET);
    shared_where = nd::functional::where([](int x) {
      callback();
      return x < 11;
    });
    shared_text = nd::functional::where([](const dynd::string &x) {
      callback();
      return x.size() < 2;
    });
  }
  void unchanged(const Slot &s, const char *what) { check_dump("source-changed", what, s.a, text(s.t, s.p)); }

  void exec(const Op &o, int) override {
    Rng r(((uint64_t)(unsigned short)o.a[0] << 16) ^ (unsigned short)o.a[1]);
    nd::array n;
    switch (o.kind) {
    case A_SORT:
      sort(r);
      break;
    case A_SEARCH: {
      Slot &s = sorted[r.below(NF)];
      K k = s.t.sub[0].k;
      P v = !s.p->v.empty() && r.chance(2, 3) ? s.p->v[r.below((int)s.p->v.size())] : leaf(r, k, r.below(60));
      nd::array x = make_new(scalar(k), v, nullptr);
      if (r.chance(1, 12)) {
        nd::array y;
        must_do("making a value", [&] { y = nd::array(2.5); });
        must_fail("binary_search for a value of another type", [&] { n = nd::binary_search(s.a, y); });
        drop(y);
        drop(x);
        PROBE("searching was refused");
        break;
      }
      must_do("binary_search", [&] { n = nd::binary_search(s.a, x); }, [&] { unchanged(s, "a failed search"); });
      check_type("binary_search", n, scalar(I64));
      long long at = rd_int(n);
      bool there = false, ordered = true;
      for (size_t i = 0; i < s.p->v.size(); i++) {
        there |= same(scalar(k), s.p->v[i], v);
        ordered &= !i || !less_p(k, s.p->v[i], s.p->v[i - 1]);
      }
      if (at < -1 || at >= (long long)s.p->v.size())
        rt::violation("wrong-position", "binary_search in %d elements found position %lld", (int)s.p->v.size(), at);
      if (at >= 0 && !same(scalar(k), s.p->v[at], v))
        rt::violation("wrong-position", "binary_search for %s in %s found position %lld", bits(k, v).c_str(), text(s.t, s.p).c_str(), at);
      if (at < 0 && there && ordered)
        rt::violation("wrong-position", "binary_search for %s in %s did not find it", bits(k, v).c_str(), text(s.t, s.p).c_str());
      drop(x);
      unchanged(s, "binary_search");
      if (at >= 0)
        PROBE("found");
      else
        PROBE("not found");
      break;
    }
    case A_MASK: {
      int i = r.below(NF), j = r.chance(1, 6) ? r.below(NF) : i;
      Slot &s = any[i], &m = mask[j];
      T rt = dim(-1, s.t.sub[0]);
      bool into = s.t.sub[0].k != FIXED && s.t.sub[0].k != VAR && r.chance(1, 3);
      nd::array d;
      if (into)
        must_do("nd::empty", [&] { d = nd::empty(typed::make(rt)); });
      auto call = [&] {
        if (into)
          n = nd::take({s.a, m.a}, {{"dst", d}});
        else
          n = nd::take(s.a, m.a);
      };
      std::string what = "take(" + ds(s.t) + ", " + ds(m.t) + ")";
      auto sources = [&] { unchanged(s, what.c_str()), unchanged(m, what.c_str()); };
      if (s.t.n != m.t.n) {
        must_fail(what.c_str(), call);
        PROBE("taking was refused");
      } else {
        P v(new V());
        v->unset = false;
        for (int e = 0; e < s.t.n; e++)
          if (m.p->v[e]->i)
            v->v.push_back(s.p->v[e]);
        must_do(what.c_str(), call, sources);
        check_type(what.c_str(), n, rt);
        check_dump("wrong-result", what.c_str(), n, text(rt, v));
        PROBE("taken by a mask");
      }
      drop(d);
      sources();
      break;
    }
    case A_TAKE: {
      Slot &s = any[r.below(NF)], &x = idx[r.below(NF)];
      T rt = dim(x.t.n, s.t.sub[0]);
      bool bad = false;
      P v(new V());
      v->unset = false;
      for (auto &e : x.p->v) {
        long long i = e->i < 0 ? e->i + s.t.n : e->i;
        if (i < 0 || i >= s.t.n)
          bad = true;
        else
          v->v.push_back(s.p->v[i]);
      }
      bool into = s.t.sub[0].k != FIXED && s.t.sub[0].k != VAR && r.chance(1, 3);
      nd::array d;
      if (into)
        must_do("nd::empty", [&] { d = nd::empty(typed::make(rt)); });
      auto call = [&] {
        if (into)
          n = nd::take({s.a, x.a}, {{"dst", d}});
        else
          n = nd::take(s.a, x.a);
      };
      std::string what = "take(" + ds(s.t) + ", " + ds(x.t) + ")";
      auto sources = [&] { unchanged(s, what.c_str()), unchanged(x, what.c_str()); };
      if (bad) {
        Outcome oc = attempt(call);
        if (oc.ok || (oc.type.find("index_out_of_bounds") == std::string::npos && !rt::op_fired_mask()))
          rt::violation("missing-error", "%s with an index out of bounds %s", what.c_str(), oc.ok ? "succeeded" : oc.type.c_str());
        PROBE("an index was out of bounds");
      } else {
        must_do(what.c_str(), call, sources);
        check_type(what.c_str(), n, rt);
        check_dump("wrong-result", what.c_str(), n, text(rt, v));
        PROBE("taken by positions");
      }
      drop(d);
      sources();
      break;
    }
    case A_RANGE:
      range(r, n);
      break;
    case A_OLD:
      old(r, n);
      break;
    case A_WHERE: {
      bool txt = r.chance(1, 3), mine = r.chance(1, 3);
      int len = r.chance(1, 8) ? 0 : r.range(1, 20);
      K k = txt ? STR : I32;
      T t = dim(len, scalar(k));
      P p(new V()), v(new V());
      p->unset = v->unset = false;
      for (int i = 0; i < len; i++) {
        p->v.push_back(leaf(r, k, r.chance(1, 2) ? 22 : 0));
        if (txt ? p->v[i]->s.size() < 2 : p->v[i]->i < 11) {
          P one(new V());
          one->unset = false;
          one->v.push_back(box<int64_t>(i));
          v->v.push_back(one);
        }
      }
      T rt = dim(-1, dim(1, scalar(I64)));
      nd::array a = make_new(t, p, &r);
      nd::callable f = txt ? shared_text : shared_where;
      if (mine && !txt)
        must_do("functional::where", [&] {
          f = nd::functional::where([](int x) {
            callback();
            return x < 11;
          });
        });
      auto call = [&] { n = f(a); };
      for (int tries = 0; tries < 2; tries++) {
        Outcome oc = attempt(call);
        if (oc.ok)
          break;
        if (!rt::op_fired_mask())
          rt::violation("unexpected-error", "where over %s failed: %s: %s", ds(t).c_str(), oc.type.c_str(), oc.what.c_str());
        check_dump("source-changed", "a failed where", a, text(t, p));
        rt::op_faults_off();
      }
      check_type("where", n, rt);
      check_dump("wrong-result", "where", n, text(rt, v));
      check_dump("source-changed", "where", a, text(t, p));
      drop(a);
      Mode q(M_SIM);
      f = nd::callable();
      PROBE("positions found");
      break;
    }
    case A_EQUAL: {
      if (r.chance(1, 3)) {
        order(r, n);
        break;
      }
      static const K ks[] = {I8, I16, I32, I64, U8, U16, U32, F32, F64};
      K ka = r.pick(ks), kb = r.pick(ks);
      int nd = r.below(3);
      T ta = scalar(ka), tb = scalar(kb);
      for (int i = 0; i < nd; i++) {
        int d = r.below(5);
        ta = dim(d, ta), tb = dim(d, tb);
      }
      P pa = twin(r, ta), pb = mutate(r, tb, pa, r.chance(1, 2));
      nd::array a = make_new(ta, pa, &r), b = make_new(tb, pb, &r);
      bool want = equal_trees(pa, pb);
      std::string what = "all_equal(" + ds(ta) + ", " + ds(tb) + ")";
      must_do(what.c_str(), [&] { n = nd::all_equal(a, b); });
      check_type(what.c_str(), n, scalar(BOOL));
      check_dump("wrong-result", what.c_str(), n, B(want));
      drop(a);
      drop(b);
      PROBE("compared as a whole");
      break;
    }
    case A_BAD: {
      Slot &s = any[r.below(NF)];
      nd::array v;
      must_do("making a ragged array", [&] { v = nd::empty(ndt::type(std::string("var * int32"))); });
      {
        Mode q(M_QUIET);
        v.vals() = nd::array({3, 1, 2});
      }
      switch (r.below(6)) {
      case 0:
        must_fail("sorting a ragged dimension", [&] { nd::sort(v); });
        check_dump("source-changed", "a refused sort", v, "{3, 1, 2}");
        break;
      case 1:
        must_fail("searching a ragged dimension", [&] { n = nd::binary_search(v, nd::array(3)); });
        break;
      case 2:
        must_fail("taking by ragged positions", [&] { n = nd::take(s.a, v); });
        break;
      case 3:
        must_fail("taking from a ragged dimension", [&] { n = nd::take(v, r.chance(1, 2) ? mask[0].a : idx[0].a); });
        break;
      case 4:
        must_fail("taking into another type", [&] { n = nd::take({s.a, idx[0].a}, {{"dst", v}}); });
        break;
      case 5:
        must_fail("taking without positions", [&] { n = nd::take(s.a); });
        break;
      }
      drop(v);
      PROBE("refused");
      break;
    }
    }
    drop(n);
  }
  // the order binary_search relies on
  void order(Rng &r, nd::array &n) {
    static const K ks[] = {I32, STR, BOOL};
    K k = r.pick(ks), other = ks[(k == I32 ? 0 : k == STR ? 1 : 2) + 1 == 3 ? 0 : (k == I32 ? 1 : 2)];
    P pa = leaf(r, k, r.chance(1, 2) ? 4 : 0), pb = r.chance(1, 4) ? pa : leaf(r, k, r.chance(1, 2) ? 4 : 0);
    if (r.chance(1, 8)) {
      nd::array a = make_new(scalar(k), pa, nullptr), b = make_new(scalar(other), leaf(r, other, 4), nullptr);
      must_fail("total_order of two types", [&] { n = nd::total_order(a, b); });
      drop(a);
      drop(b);
      PROBE("ordering was refused");
      return;
    }
    nd::array a = make_new(scalar(k), pa, nullptr), b = make_new(scalar(k), pb, nullptr);
    std::string what = "total_order(" + bits(k, pa) + ", " + bits(k, pb) + ")";
    must_do(what.c_str(), [&] { n = nd::total_order(a, b); });
    check_type(what.c_str(), n, scalar(I32));
    check_dump("wrong-result", what.c_str(), n, I(less_p(k, pa, pb)));
    check_dump("source-changed", what.c_str(), a, bits(k, pa));
    check_dump("source-changed", what.c_str(), b, bits(k, pb));
    drop(a);
    drop(b);
    PROBE("ordered");
  }
  static long long rd_int(const nd::array &a) {
    Mode q(M_PEEK);
    return *reinterpret_cast<const long long *>(a.cdata());
  }
  P twin(Rng &r, const T &t) {
    if (t.k != FIXED) {
      P p(new V());
      p->unset = false;
      p->i = r.below(3);
      p->d = p->i;
      return p;
    }
    P p(new V());
    p->unset = false;
    for (int i = 0; i < t.n; i++)
      p->v.push_back(twin(r, t.sub[0]));
    return p;
  }
  P mutate(Rng &r, const T &t, const P &q, bool change) {
    P p(new V());
    p->unset = false;
    p->i = q->i, p->d = q->d;
    if (t.k != FIXED && change && r.chance(1, 3))
      p->i++, p->d++;
    for (auto &c : q->v)
      p->v.push_back(mutate(r, t.sub[0], c, change));
    return p;
  }
  static bool equal_trees(const P &a, const P &b) {
    if (a->v.empty() && a->i != b->i)
      return false;
    for (size_t i = 0; i < a->v.size(); i++)
      if (!equal_trees(a->v[i], b->v[i]))
        return false;
    return true;
  }
  void sort(Rng &r) {
    static const K ks[] = {I8, I16, I32, I32, I64, U8, U16, U32, U64, F32, F64, BOOL, STR, STR, STR};
    K k = r.pick(ks);
    int n = r.chance(1, 8) ? r.below(2) : r.chance(1, 2) ? r.range(2, 16) : r.range(17, 80), alike = r.chance(1, 2) ? 0 : r.range(2, 12);
    bool nan = false;
    T t = dim(n, scalar(k));
    P p(new V());
    p->unset = false;
    int shape = r.below(5);
    for (int i = 0; i < n; i++) {
      p->v.push_back(leaf(r, k, alike));
      nan |= (k == F32 || k == F64) && p->v[i]->d != p->v[i]->d;
    }
    std::vector<P> want = p->v;
    auto cmp = [&](const P &a, const P &b) { return less_p(k, a, b); };
    if (!nan && shape < 3) { // already in order, or backwards, or nearly
      std::stable_sort(p->v.begin(), p->v.end(), cmp);
      if (shape == 1)
        std::reverse(p->v.begin(), p->v.end());
      if (shape == 2 && n > 1)
        std::swap(p->v[r.below(n)], p->v[r.below(n)]);
    }
    std::vector<std::string> before, wanted;
    for (auto &e : p->v)
      before.push_back(bits(k, e));
    if (!nan)
      std::stable_sort(want.begin(), want.end(), cmp);
    nd::array whole;
    T wt;
    P wv;
    nd::array a = make_new(t, p, &r, &whole, &wt, &wv);
    std::string what = "sort(" + ds(t) + ")";
    int tries = 0;
    for (; tries < 2; tries++) {
      Outcome oc = attempt([&] { nd::sort(a); });
      if (oc.ok)
        break;
      if (!rt::op_fired_mask() || tries)
        rt::violation("unexpected-error", "%s failed: %s: %s", what.c_str(), oc.type.c_str(), oc.what.c_str());
      conserved(what.c_str(), a, k, n, before);
      rt::op_faults_off();
      PROBE("a sort failed");
    }
    std::vector<std::string> now = conserved(what.c_str(), a, k, n, before);
    for (int i = 0; !nan && i < n; i++)
      if (now[i] != bits(k, want[i]) && !(!less_p(k, want[i], want[i]) && zero(now[i]) && zero(bits(k, want[i]))))
        rt::violation("not-sorted", "%s gives %s, element %d has to be %s", what.c_str(), dump(a).c_str(), i, bits(k, want[i]).c_str());
    // what lies between the elements of a strided array is as before
    if (wt.n != t.n) {
      std::string got = dump(whole), exp = text(wt, wv);
      std::vector<std::string> g1 = elements(got), e1 = elements(exp);
      for (size_t i = 1; i < g1.size(); i += 2)
        if (g1[i] != e1[i])
          rt::violation("source-changed", "%s of every other element changed the others", what.c_str());
      PROBE("sorted through a view");
    }
    {
      Mode q(M_SIM);
      a = nd::array();
      whole = nd::array();
    }
    PROBE("sorted");
    if (k == STR)
      PROBE("sorted strings");
  }
  static bool zero(const std::string &s) { return s == R(0.0) || s == R(-0.0); }
  static std::vector<std::string> elements(const std::string &s) {
    std::vector<std::string> o;
    std::string e;
    bool in = false;
    for (size_t i = 1; i + 1 < s.size(); i++) {
      if (s[i] == '"')
        in = !in;
      if (!in && s[i] == ',' && s[i + 1] == ' ') {
        o.push_back(e);
        e.clear();
        i++;
      } else
        e += s[i];
    }
    if (!e.empty())
      o.push_back(e);
    return o;
  }
  std::vector<std::string> conserved(const char *what, const nd::array &a, K, int n, std::vector<std::string> before) {
    std::vector<std::string> now = elements(dump(a)), sorted_now = now;
    std::sort(sorted_now.begin(), sorted_now.end());
    std::sort(before.begin(), before.end());
    if ((int)now.size() != n || sorted_now != before)
      rt::violation("not-a-permutation", "%s lost or made up elements: %s", what, dump(a).c_str());
    return now;
  }
  static P num(K k, double v) {
    P p(new V());
    p->unset = false;
    p->i = (long long)v, p->d = v;
    if (k == F32)
      p->d = (float)v;
    return p;
  }
  // start, start + step, ... before stop, in the arithmetic of the type
  template <class A> static P series(A start, A step, long long count) {
    P p(new V());
    p->unset = false;
    for (long long i = 0; i < count; i++)
      p->v.push_back(box<A>((A)(start + (A)i * step)));
    return p;
  }
  static long long count_of(K k, double start, double stop, double step) {
    double n = (stop - start) / step;
    if (n <= 0)
      return 0;
    return (long long)(k == F32 || k == F64 ? std::floor(n + 0.5) : std::ceil(n));
  }
  nd::array value(K k, double v) {
    nd::array a;
    must_do("making a number", [&] {
      if (k == I32)
        a = nd::array((int)v);
      else if (k == I64)
        a = nd::array((int64_t)v);
      else if (k == F32)
        a = nd::array((float)v);
      else
        a = nd::array(v);
    });
    return a;
  }
  void bounds(Rng &r, K k, double &start, double &stop, double &step) {
    bool fl = k == F32 || k == F64;
    start = r.range(-40, 40), step = r.range(-7, 7);
    if (fl)
      start *= 0.5, step *= 0.25;
    stop = fl ? start + step * r.range(-5, 60) : r.range(-60, 60);
    if (k == I32 && r.chance(1, 8)) // nearly as far apart as the type allows
      start = r.chance(1, 2) ? -2147483647 : 2147483647, step = start < 0 ? 500000000 : -500000000, stop = -start;
    if (fl && r.chance(1, 8))
      stop = start - step * 3e9;
  }
  void range(Rng &r, nd::array &n) {
    static const K ks[] = {I32, I64, F32, F64};
    if (r.chance(1, 5))
      return inexact(r, n, false);
    K k = r.pick(ks);
    double start, stop, step;
    bounds(r, k, start, stop, step);
    int form = r.below(5);
    nd::array a[3];
    if (form != 1 && form != 2)
      a[0] = value(k, form == 0 ? stop : start);
    if (form != 0)
      a[1] = value(k, stop);
    if (form == 2 || form == 4)
      a[2] = value(k, step);
    if (form < 3)
      start = 0;
    if (form != 2 && form != 4)
      step = 1;
    auto call = [&] {
      switch (form) {
      case 0:
        n = nd::range({}, {{"start", a[0]}});
        break;
      case 1:
        n = nd::range({}, {{"stop", a[1]}});
        break;
      case 2:
        n = nd::range({}, {{"stop", a[1]}, {"step", a[2]}});
        break;
      case 3:
        n = nd::range({}, {{"start", a[0]}, {"stop", a[1]}});
        break;
      default:
        n = nd::range({}, {{"start", a[0]}, {"stop", a[1]}, {"step", a[2]}});
      }
    };
    std::string what = fmt("range %g to %g by %g", start, stop, step);
    long long c = step == 0 ? 0 : count_of(k, start, stop, step);
    if (step == 0)
      must_fail(what.c_str(), call);
    else if (c < 10000 && !((k == F32 || k == F64) && std::fabs(std::fmod((stop - start) / step, 1.0)) != 0 && c > 0)) {
      must_do(what.c_str(), call);
      check_series(what, n, k, start, step, c);
      PROBE("a range");
    }
    for (nd::array &x : a)
      drop(x);
  }
  // steps that are no binary fractions: every element is start + i * step, up to rounding that does not add up
  void inexact(Rng &r, nd::array &n, bool old) {
    K k = r.chance(1, 2) ? F32 : F64;
    int c = r.chance(1, 8) ? 0 : r.range(2, 600);
    double start = r.range(-40, 40) * 0.3, step = (r.chance(1, 2) ? 1 : -1) * r.range(1, 30) * 0.1;
    if (k == F32)
      start = (float)start, step = (float)step;
    double stop = start + c * step;
    if (k == F32)
      stop = (float)stop;
    std::string what = fmt("range %.17g to %.17g by %.17g", start, stop, step);
    nd::array a[3];
    if (old)
      must_do(what.c_str(), [&] { n = k == F32 ? nd::old_range((float)start, (float)stop, (float)step) : nd::old_range(start, stop, step); });
    else {
      a[0] = value(k, start), a[1] = value(k, stop), a[2] = value(k, step);
      must_do(what.c_str(), [&] { n = nd::range({}, {{"start", a[0]}, {"stop", a[1]}, {"step", a[2]}}); });
    }
    check_type(what.c_str(), n, dim(c, scalar(k)));
    intptr_t stride = c < 2 ? 0 : reinterpret_cast<const fixed_dim_type_arrmeta *>(n.get()->metadata())->stride;
    double eps = k == F32 ? 1.2e-7 : 2.3e-16;
    for (int i = 0; i < c; i++) {
      const char *d = n.cdata() + i * stride;
      double x = k == F32 ? *reinterpret_cast<const float *>(d) : *reinterpret_cast<const double *>(d), y = start + i * step;
      if (!(std::fabs(x - y) <= 3 * eps * (std::fabs(start) + std::fabs(i * step))))
        rt::violation("wrong-result", "%s: element %d is %.17g instead of %.17g", what.c_str(), i, x, y);
    }
    PROBE("by a decimal step");
    for (nd::array &x : a)
      drop(x);
  }
  void check_series(const std::string &what, const nd::array &n, K k, double start, double step, long long c) {
    T t = dim((int)c, scalar(k));
    check_type(what.c_str(), n, t);
    P v = with(k, [&](auto z) -> P { return series<decltype(z)>((decltype(z))start, (decltype(z))step, c); });
    check_dump("wrong-result", what.c_str(), n, text(t, v));
  }
  void old(Rng &r, nd::array &n) {
    static const K ks[] = {I8, I16, I32, I64, U8, U16, U32, U64, F32, F64};
    K k = r.pick(ks);
    double start, stop, step;
    bounds(r, k, start, stop, step);
    if (k == U8 || k == U16 || k == U32 || k == U64)
      start = std::fabs(start), stop = std::fabs(stop), step = std::fabs(step);
    if (r.chance(1, 5)) { // evenly spaced
      int c = r.range(0, 20);
      double a = r.range(-40, 40), b = r.range(-40, 40);
      auto call = [&] { n = nd::old_linspace(a, b, c); };
      if (c < 2)
        must_fail("linspace of less than two", call);
      else {
        must_do("linspace", call);
        T t = dim(c, scalar(F64));
        P v(new V());
        v->unset = false;
        for (int i = 0; i < c; i++)
          v->v.push_back(box<double>(((c - i - 1) * a + i * b) / (double)(c - 1)));
        check_type("linspace", n, t);
        check_dump("wrong-result", "linspace", n, text(t, v));
      }
      PROBE("evenly spaced");
      return;
    }
    if (r.chance(1, 5))
      return inexact(r, n, true);
    std::string what = fmt("old_range %g to %g by %g", start, stop, step);
    auto call = [&] {
      with(k, [&](auto z) -> int {
        n = nd::old_range((decltype(z))start, (decltype(z))stop, (decltype(z))step);
        return 0;
      });
    };
    long long c = step == 0 ? 0 : count_of(k, start, stop, step);
    if (step == 0)
      must_fail(what.c_str(), call);
    else if (c < 10000 && !((k == F32 || k == F64) && std::fabs(std::fmod((stop - start) / step, 1.0)) != 0 && c > 0)) {
      must_do(what.c_str(), call);
      check_series(what, n, k, start, step, c);
      PROBE("a range of C++ values");
    }
  }
  void end() override {
    for (int i = 0; i < NF; i++)
      for (Slot *s : {&sorted[i], &any[i], &mask[i], &idx[i]}) {
        unchanged(*s, "a shared array at the end");
        drop(s->a);
      }
    Mode q(M_SIM);
    shared_where = nd::callable();
    shared_text = nd::callable();
  }
};
Tuning tune() {
  Tuning t;
  t.callback = true;
  return t;
}
Register reg("C13", "search", []() -> Scenario * { return new C13; }, tune());
} // namespace
