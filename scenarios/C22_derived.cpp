// C22: questions about types and types made from types.  Types are shared, immutable and counted: every operation on one gives a
// new type, an answer or an error.  The model computes the same on a tree of its own.
#include "typed.h"
#include <algorithm>
#include <functional>
#include <dynd/access.hpp>
#include <dynd/types/datashape_formatter.hpp>
#include <dynd/types/pointer_type.hpp>
using namespace typed;

namespace {
enum { D_NEW, D_ASK, D_REPLACE, D_AXIS, D_INDEX, D_FIELD, D_FORMAT, D_ARRAY, D_ACCESS, D_DROP, NK };
const char *const opnames[] = {"new", "ask", "replace the dtype", "add axes", "index", "fields", "format", "index an array", "access a field", "drop"};
enum { NF = 4, NC = 3, NS = 3 };

int ndim(const T &t) { return t.k == FIXED || t.k == VAR ? 1 + ndim(t.sub[0]) : 0; }
T pointer(const T &to) {
  T t;
  t.k = PTR, t.sub.push_back(to);
  return t;
}
T strip(const T &t, int k) { return k == 0 ? t : strip(t.sub[0], k - 1); }
bool pointers_in_dims(const T &t) { return t.k == PTR || ((t.k == FIXED || t.k == VAR) && pointers_in_dims(t.sub[0])); }
void add_pointers(Rng &r, T &t) {
  if (t.k == OPT || t.k == PTR)
    return;
  for (T &e : t.sub) {
    add_pointers(r, e);
    if (r.chance(1, 4) && e.k != PTR)
      e = pointer(T(e));
  }
}
T replaced(const T &t, int keep, const T &by) {
  if (keep == 0)
    return by;
  T o = t;
  o.sub[0] = replaced(t.sub[0], keep - 1, by);
  return o;
}
T wrapped(const T &t, int n) {
  T o = t;
  for (; n > 0; n--) {
    T d;
    d.k = FIXED, d.n = 1, d.sub.push_back(o);
    o = d;
  }
  return o;
}
int depth(const T &t) {
  int d = 0;
  for (const T &s : t.sub)
    d = std::max(d, depth(s));
  return d + 1;
}
int weight(const T &t) {
  int n = 1;
  for (const T &s : t.sub)
    n += weight(s);
  return n;
}
struct Ix {
  bool one = false, nop = false;
  long lo = 0, hi = 0, step = 1; // as given
  irange ir;
};
enum Verdict { OK, WRONG, VAGUE };
// The positions that an index selects among n
Verdict select(const Ix &x, long n, std::vector<long> &at) {
  if (x.nop) {
    for (long i = 0; i < n; i++)
      at.push_back(i);
    return OK;
  }
  long lo = x.lo < 0 ? x.lo + n : x.lo;
  if (lo < 0 || lo >= n)
    return lo < 0 && !x.one ? VAGUE : WRONG;
  if (x.one) {
    at.push_back(lo);
    return OK;
  }
  bool all = x.hi == std::numeric_limits<intptr_t>::max();
  if (x.step > 0) {
    long hi = all ? n : x.hi < 0 ? x.hi + n : std::min(x.hi, n);
    if (hi < 0)
      return VAGUE;
    for (long i = lo; i < hi; i += x.step)
      at.push_back(i);
  } else {
    long hi = all ? -1 : x.hi;
    if (!all && (hi < 0 || hi >= n))
      return VAGUE;
    for (long i = lo; i > hi; i += x.step)
      at.push_back(i);
  }
  return OK;
}
Verdict indexed(const T &t, const std::vector<Ix> &ix, size_t k, bool leading, T &out) {
  if (k == ix.size()) {
    out = t;
    return OK;
  }
  std::vector<long> at;
  switch (t.k) {
  case FIXED: {
    Verdict v = select(ix[k], t.n, at);
    if (v != OK)
      return v;
    T e;
    v = indexed(t.sub[0], ix, k + 1, leading && ix[k].one, e);
    if (v != OK)
      return v;
    if (ix[k].one)
      out = e;
    else {
      out = T();
      out.k = FIXED, out.n = (int)at.size(), out.sub.push_back(e);
    }
    return OK;
  }
  case VAR: {
    if (ix[k].one ? !leading : !ix[k].nop) // not done by the library
      return VAGUE;
    T e;
    Verdict v = indexed(t.sub[0], ix, k + 1, leading && ix[k].one, e);
    if (v != OK)
      return v;
    if (ix[k].one)
      out = e;
    else {
      out = T();
      out.k = VAR, out.sub.push_back(e);
    }
    return OK;
  }
  case TUPLE:
  case STRUCT: {
    Verdict v = select(ix[k], (long)t.sub.size(), at);
    if (v != OK)
      return v;
    if (ix[k].one)
      return indexed(t.sub[at[0]], ix, k + 1, leading, out);
    T o;
    o.k = t.k;
    Verdict all = OK;
    for (long i : at) {
      T e;
      v = indexed(t.sub[i], ix, k + 1, false, e);
      if (v == WRONG && all == OK)
        all = WRONG;
      if (v == VAGUE)
        all = VAGUE;
      o.sub.push_back(e);
      if (t.k == STRUCT)
        o.names.push_back(t.names[i]);
    }
    out = o;
    return all;
  }
  case PTR: {
    T e;
    Verdict v = indexed(t.sub[0], ix, k, leading, e);
    if (v == OK)
      out = pointer(e);
    return v;
  }
  default:
    return WRONG;
  }
}
std::string indexes_text(const std::vector<Ix> &ix) {
  std::string o = "(";
  for (const Ix &x : ix)
    o += (o.size() > 1 ? ", " : "") + (x.nop ? ":" : x.one ? std::to_string(x.lo)
                                                           : std::to_string(x.lo) + ":" + (x.hi == std::numeric_limits<intptr_t>::max() ? "" : std::to_string(x.hi)) + ":" +
                                                                 std::to_string(x.step));
  return o + ")";
}
// guided by the type, so that most are right
std::vector<Ix> gen_index(Rng &r, const T &t, bool arrays) {
  std::vector<Ix> v;
  T at = t;
  bool leading = true;
  for (int k = r.range(1, 4); k > 0; k--) {
    Ix x;
    if (at.k == PTR) {
      T e = at.sub[0];
      at = e;
    }
    bool rec = at.k == TUPLE || at.k == STRUCT;
    long n = at.k == FIXED ? at.n : rec ? (long)at.sub.size() : 4;
    if (!rec && at.k != FIXED && at.k != VAR && (arrays || !r.chance(1, 6)))
      break;
    bool bad = r.chance(1, 12);
    switch (at.k == VAR ? (leading && r.chance(1, 2) && !arrays ? 1 : 0) : r.below(5)) {
    case 0:
      x.nop = true;
      break;
    case 1:
    case 2:
      x.one = true;
      if (n == 0 || bad)
        x.lo = r.chance(1, 2) ? n + r.below(3) : -n - 1 - r.below(3);
      else
        x.lo = r.chance(1, 3) ? r.below((int)n) - n : r.below((int)n);
      break;
    case 3:
      x.step = r.range(1, 3);
      x.lo = n && !bad ? r.below((int)n) : n + r.below(3);
      x.hi = r.chance(1, 4) ? std::numeric_limits<intptr_t>::max() : r.chance(1, 4) && n > 0 ? -1 - r.below((int)n) : r.range(0, (int)n + 2);
      if (r.chance(1, 4) && x.lo < n)
        x.lo -= n;
      break;
    default:
      x.step = -r.range(1, 3);
      x.lo = n && !bad ? r.below((int)n) : n + r.below(3);
      x.hi = r.chance(1, 2) || !n ? std::numeric_limits<intptr_t>::max() : r.below((int)n);
    }
    x.ir = x.nop ? irange() : x.one ? irange(x.lo) : irange(x.lo, x.hi, x.step);
    v.push_back(x);
    if (at.sub.empty())
      at = T();
    else if (rec) {
      T e = at.sub[r.below((int)at.sub.size())];
      at = e;
    } else {
      T e = at.sub[0];
      at = e;
    }
    leading &= x.one || rec;
  }
  return v;
}
// what format_datashape has to write; p: the value there, if it goes on
void formatted(std::string &o, const T &t, const P *p, const std::string &indent, bool lines) {
  switch (t.k) {
  case STRUCT:
    o += lines ? "{\n" : "{";
    for (size_t i = 0; i < t.sub.size(); i++) {
      if (lines)
        o += indent + "  ";
      o += t.names[i] + ": ";
      formatted(o, t.sub[i], p ? &(*p)->v[i] : nullptr, lines ? indent + "  " : indent, lines);
      o += lines ? ",\n" : i + 1 < t.sub.size() ? ", " : "";
    }
    o += indent + "}";
    return;
  case FIXED:
    o += std::to_string(t.n) + " * ";
    formatted(o, t.sub[0], p && t.n == 1 ? &(*p)->v[0] : nullptr, indent, lines);
    return;
  case VAR:
    if (p && !(*p)->unset) {
      o += std::to_string((*p)->v.size()) + " * ";
      formatted(o, t.sub[0], (*p)->v.size() == 1 ? &(*p)->v[0] : nullptr, indent, lines);
    } else {
      o += "var * ";
      formatted(o, t.sub[0], nullptr, indent, lines);
    }
    return;
  case FSTR:
    o += "string";
    return;
  default:
    o += ds(t);
  }
}

struct C22 : Scenario {
  struct Cell {
    T m;
    ndt::type t;
    bool live = false;
  } cell[NF][NC], shared[NS];
  struct Arr {
    T m;
    P v;
    nd::array a;
    std::string was;
  } arr[NS];
  static Gen gen() {
    Gen g;
    g.fbytes = true;
    return g;
  }
  static bool opaque(const T &t) { // things the library cannot hold in arrays without trouble
    return has(t, FBYTES);
  }

  void generate(Rng &r, Plan &p) override {
    p.nf = r.chance(1, 3) ? 1 : r.range(2, 4);
    int n = r.range(6, 30);
    static const int mix[] = {D_NEW, D_NEW, D_ASK, D_ASK, D_REPLACE, D_REPLACE, D_REPLACE, D_AXIS, D_AXIS, D_INDEX, D_INDEX, D_INDEX, D_INDEX, D_FIELD, D_FIELD, D_FORMAT, D_FORMAT, D_ARRAY, D_ARRAY, D_ACCESS, D_ACCESS, D_DROP};
    for (int i = 0; i < n; i++)
      p.add(r.range(1, p.nf), r.pick(mix), r.below(30000), r.below(30000));
    p.params[0] = r.below(30000);
    p.params[1] = r.below(30000);
  }
  std::string show(const Plan &, const Op &o) override { return fmt("%s r=%d,%d", opnames[o.kind % NK], o.a[0], o.a[1]); }
  const char *opname(const Op &o) override { return opnames[o.kind % NK]; }

  static void clear(Cell &c) {
    if (!c.live)
      return;
    Mode m(M_SIM);
    c.t = ndt::type();
    c.live = false;
  }
  void begin(const Plan &p) override {
    for (auto &row : cell)
      for (Cell &c : row)
        c.live = false;
    Rng r(((uint64_t)(unsigned short)p.params[0] << 16) ^ (unsigned short)p.params[1]);
    for (Cell &c : shared) {
      c.m = gen_type(r, gen(), r.range(0, 4));
      if (r.chance(1, 3))
        add_pointers(r, c.m);
      must_do("making a type", [&] { c.t = make(c.m); });
      c.live = true;
    }
    for (Arr &a : arr) {
      Gen g;
      g.maxdim = 3;
      a.m = gen_type(r, g, r.range(1, 4));
      if (a.m.k < FIXED) {
        T e = a.m;
        a.m = T();
        a.m.k = FIXED, a.m.n = r.range(1, 3), a.m.sub.push_back(e);
      }
      if (r.chance(1, 2))
        a.m = [&] {
          T s;
          s.k = STRUCT, s.sub = {a.m, gen_scalar(r, g)}, s.names = {"here", "there"};
          return r.chance(1, 2) ? s : wrapped(s, 1);
        }();
      a.v = gen_value(r, g, a.m);
      must_do("nd::empty", [&] { a.a = nd::empty(make(a.m)); });
      fill(a.a, a.m, a.v);
      if (r.chance(1, 3)) { // rows that start inside what they point to
        T e = gen_type(r, g, r.range(0, 2));
        int skip = r.range(1, 2), n = r.chance(1, 2) ? 1 : r.range(1, 3);
        auto over = [](K k, int n, const T &of) {
          T t;
          t.k = k, t.n = n, t.sub.push_back(of);
          return t;
        };
        T whole = over(FIXED, 1, over(VAR, 0, over(FIXED, n + skip, e)));
        a.m = over(FIXED, 1, over(VAR, 0, over(FIXED, n, e)));
        P v = gen_value(r, g, whole);
        std::vector<P> &rows = v->v[0]->v;
        if (rows.size() > 1 && r.chance(2, 3))
          rows.resize(1);
        nd::array w;
        must_do("nd::empty", [&] { w = nd::empty(make(whole)); });
        fill(w, whole, v);
        must_do("slicing", [&] { a.a = w(irange(), irange(), irange(skip, skip + n)); });
        drop(w);
        for (P &row : rows)
          row->v.erase(row->v.begin(), row->v.begin() + skip);
        a.v = v;
      }
      a.was = dump(a.a);
      if (a.was != text(a.m, a.v))
        rt::violation("wrong-contents", "an array is %s, has to be %s", a.was.c_str(), text(a.m, a.v).c_str());
    }
  }
  // everything the library says about a type is what the model says
  static void check(const char *what, const Cell &c) {
    std::string got = type_str(c.t), want = ds(c.m);
    if (got != want)
      rt::violation("wrong-type", "%s gives %s, has to give %s", what, got.c_str(), want.c_str());
  }
  static bool memory() { return rt::op_fired_mask() & (1u << rt::FK_ALLOC | 1u << rt::FK_ALLOC_STICKY | 1u << rt::FK_NATURAL); }
  // does something that gives a type (want: nullptr if it has to be refused), again if memory runs out
  template <class F> static void derive(const std::string &what, F f, const T *want, ndt::type &out) {
    for (int round = 0;; round++) {
      ndt::type got;
      Outcome o = attempt([&] { got = f(); });
      bool mem = memory();
      if (o.ok != !!want && !(mem && !o.ok))
        rt::violation(o.ok ? "lost-error" : "refused-valid", "%s: %s", what.c_str(), o.ok ? ("gives " + type_str(got) + ", had to be refused").c_str() : o.what.c_str());
      if (o.ok) {
        std::string g = type_str(got), w = ds(*want);
        if (g != w)
          rt::violation("wrong-type", "%s gives %s, has to give %s", what.c_str(), g.c_str(), w.c_str());
        Mode m(M_QUIET);
        ndt::type again = make(*want);
        if (!(got == again))
          rt::violation("wrong-type", "%s gives a type that is not equal to %s", what.c_str(), w.c_str());
      }
      Mode m(M_SIM);
      if (o.ok)
        out = std::move(got);
      got = ndt::type();
      rt::set_mode(M_HOST);
      if (o.ok || !mem || round)
        return;
      PROBE("again after memory ran out");
      rt::op_faults_off();
    }
  }
  template <class X, class F> static void ask(const std::string &what, F f, X want) {
    X got{};
    must_do(what.c_str(), [&] { got = f(); });
    if (got != want)
      rt::violation("wrong-answer", "%s is %s, has to be %s", what.c_str(), std::to_string(got).c_str(), std::to_string(want).c_str());
  }
  void keep(Rng &r, int fib, ndt::type &t, const T &m) {
    if (weight(m) > 40 || depth(m) > 12) {
      Mode q(M_SIM);
      t = ndt::type();
      return;
    }
    Cell &c = cell[fib][r.below(NC)];
    clear(c);
    Mode q(M_SIM);
    c.t = std::move(t);
    t = ndt::type();
    c.live = true;
    rt::set_mode(M_HOST);
    c.m = m;
  }
  Cell &any(Rng &r, int fib) {
    Cell &c = cell[fib][r.below(NC)];
    return c.live && !r.chance(1, 3) ? c : shared[r.below(NS)];
  }

  void exec(const Op &o, int) override {
    Rng r(((uint64_t)(unsigned short)o.a[0] << 16) ^ (unsigned short)o.a[1]);
    int fib = (o.fiber - 1) % NF;
    Cell &c = any(r, fib);
    ndt::type res;
    std::string tn = ds(c.m);
    switch (o.kind % NK) {
    case D_NEW: {
      T m = gen_type(r, gen(), r.range(0, 4));
      if (r.chance(1, 3)) {
        add_pointers(r, m);
        if (r.chance(1, 6) && m.k != PTR)
          m = pointer(T(m));
        if (has(m, PTR))
          PROBE("pointers");
      }
      bool text = r.chance(1, 3);
      std::string s = ds(m);
      derive(text ? "parsing " + s : "making " + s, [&] { return text ? ndt::type(s) : make(m); }, &m, res);
      keep(r, fib, res, m);
      break;
    }
    case D_ASK: {
      int n = ndim(c.m), strided = 0;
      for (const T *t = &c.m; t->k == FIXED; t = &t->sub[0])
        strided++;
      ask("the number of dimensions of " + tn, [&] { return (long)c.t.get_ndim(); }, (long)n);
      ask("the number of strided dimensions of " + tn, [&] { return (long)c.t.get_strided_ndim(); }, (long)strided);
      ask("being a scalar of " + tn, [&] { return (long)c.t.is_scalar(); }, (long)(n == 0));
      ask("being symbolic of " + tn, [&] { return (long)c.t.is_symbolic(); }, 0L);
      int k = r.chance(1, 6) ? n + r.range(1, 3) : r.below(n + 1);
      if (r.chance(1, 10))
        k = -r.range(1, 3);
      bool ok = k >= 0 && k <= n;
      T e = ok ? strip(c.m, n - k) : c.m, f = ok ? strip(c.m, k) : c.m, el = strip(c.m, n);
      if (k >= 0 && (ok || !pointers_in_dims(c.m))) { // past a pointer it goes on to what is behind it
        derive(fmt("the dtype of %s with %d dimensions", tn.c_str(), k), [&] { return c.t.get_dtype(k); }, ok ? &e : nullptr, res);
        derive(fmt("the type of %s at dimension %d", tn.c_str(), k), [&] { return c.t.get_type_at_dimension(nullptr, k); }, ok ? &f : nullptr, res);
      }
      if (!has(c.m, PTR))
        derive("the canonical type of " + tn, [&] { return c.t.get_canonical_type(); }, &c.m, res);
      derive("the dtype of " + tn, [&] { return c.t.get_dtype(); }, &el, res);
      if (n > 0) {
        Mode q(M_QUIET);
        for (int i = 0; i <= n; i++) {
          ndt::type s = c.t.get_type_at_dimension(nullptr, i);
          if (!c.t.is_type_subarray(s) || (i && s.is_type_subarray(c.t)))
            rt::violation("wrong-answer", "whether %s is a subarray", ds(strip(c.m, i)).c_str());
        }
      }
      {
        // the dims of an array, one inside the other, as far as they are strided
        Arr &a = arr[r.below(NS)];
        Mode q(M_QUIET);
        ndt::type t = a.a.get_type();
        const char *meta = a.a->metadata(), *em;
        intptr_t size, step;
        ndt::type et;
        const T *m = &a.m;
        for (int d = 0;; d++) {
          bool is = t.get_as_strided(meta, &size, &step, &et, &em);
          if (is != (m->k == FIXED) || (is && (size != m->n || et != t.get_type_at_dimension(nullptr, 1) || t.get_dim_size(meta, nullptr) != m->n)))
            rt::violation("wrong-answer", "dimension %d of %s as a strided one", d, ds(a.m).c_str());
          if (!is)
            break;
          t = et;
          meta = em;
          m = &m->sub[0];
        }
      }
      PROBE(ok ? "asked" : "asked for too much");
      break;
    }
    case D_REPLACE: {
      Cell &by = any(r, fib);
      int n = ndim(c.m), k = r.chance(1, 8) ? n + r.range(1, 3) : r.below(n + 1);
      if (r.chance(1, 12))
        k = -r.range(1, 3);
      bool ok = k >= 0 && k <= n;
      T want;
      if (ok)
        want = replaced(c.m, n - k, by.m);
      derive(fmt("%s with %d dimensions and what is below replaced by %s", tn.c_str(), k, ds(by.m).c_str()), [&] { return c.t.with_replaced_dtype(by.t, k); }, ok ? &want : nullptr, res);
      if (ok)
        keep(r, fib, res, want);
      PROBE(ok ? k ? "replaced with dimensions" : "replaced" : "not replaced");
      break;
    }
    case D_AXIS: {
      int n = ndim(c.m), at = r.chance(1, 8) ? n + r.range(1, 3) : r.below(n + 1), m = r.below(4);
      if (r.chance(1, 12))
        at = -r.range(1, 3);
      bool ok = at >= 0 && at <= n;
      T want;
      if (ok)
        want = replaced(c.m, at, wrapped(strip(c.m, at), m));
      derive(fmt("%s with %d axes at %d", tn.c_str(), m, at), [&] { return c.t.with_new_axis(at, m); }, ok ? &want : nullptr, res);
      if (ok)
        keep(r, fib, res, want);
      PROBE(ok ? "axes added" : "axes refused");
      break;
    }
    case D_INDEX: {
      std::vector<Ix> ix = gen_index(r, c.m, false);
      T want;
      Verdict v = indexed(c.m, ix, 0, true, want);
      if (v == VAGUE)
        break;
      std::vector<irange> ir;
      for (const Ix &x : ix)
        ir.push_back(x.ir);
      derive("indexing " + tn + " with " + indexes_text(ix), [&] { return c.t.at_array((intptr_t)ir.size(), ir.data()); }, v == OK ? &want : nullptr, res);
      if (v == OK)
        keep(r, fib, res, want);
      PROBE(v == OK ? "indexed" : "index refused");
      break;
    }
    case D_FIELD: {
      // goes to a random record inside the type
      const T *m = &c.m;
      {
        Mode q(M_SIM);
        res = c.t;
      }
      for (;;) {
        if (m->k == FIXED || m->k == VAR) {
          Mode q(M_SIM);
          ndt::type e = res.extended<ndt::base_dim_type>()->get_element_type();
          res = std::move(e);
          m = &m->sub[0];
        } else if (m->k == PTR) {
          Mode q(M_SIM);
          ndt::type e = res.extended<ndt::pointer_type>()->get_target_type();
          res = std::move(e);
          m = &m->sub[0];
        } else if (m->k == OPT) {
          Mode q(M_SIM);
          ndt::type e = res.extended<ndt::option_type>()->get_value_type();
          res = std::move(e);
          m = &m->sub[0];
        } else if ((m->k == TUPLE || m->k == STRUCT) && !m->sub.empty() && r.chance(1, 2)) {
          int i = r.below((int)m->sub.size());
          const T *x = &m->sub[i];
          if (x->k < FIXED && x->k != OPT)
            break;
          Mode q(M_SIM);
          ndt::type e = m->k == TUPLE ? res.extended<ndt::tuple_type>()->get_field_type(i) : res.extended<ndt::struct_type>()->get_field_type(i);
          res = std::move(e);
          m = x;
        } else
          break;
      }
      {
        std::string got = type_str(res), want = ds(*m);
        if (got != want)
          rt::violation("wrong-type", "inside %s there is %s, not %s", tn.c_str(), got.c_str(), want.c_str());
      }
      if (m->k == STRUCT) {
        const ndt::struct_type *s = res.extended<ndt::struct_type>();
        ask("the number of fields of " + ds(*m), [&] { return (long)s->get_field_count(); }, (long)m->sub.size());
        for (size_t i = 0; i < m->names.size(); i++)
          ask("the index of field " + m->names[i] + " of " + ds(*m), [&] { return (long)s->get_field_index(m->names[i]); }, (long)i);
        std::string no = r.chance(1, 2) || m->names.empty() ? "missing" : m->names[0].substr(0, m->names[0].size() - 1) + "~";
        ask("the index of an unknown field of " + ds(*m), [&] { return (long)s->get_field_index(no); }, -1L);
        PROBE("fields of a struct");
      }
      if (m->k == TUPLE)
        ask("the number of fields of " + ds(*m), [&] { return (long)res.extended<ndt::tuple_type>()->get_field_count(); }, (long)m->sub.size());
      break;
    }
    case D_FORMAT: {
      bool lines = r.chance(1, 2);
      std::string want, got, what;
      Arr &a = arr[r.below(NS)];
      int how = r.below(3); // 0: type, 1: with what is known of an array, 2: its data also
      if (how == 0) {
        want = ">";
        formatted(want, c.m, nullptr, "", lines);
        what = tn;
      } else {
        formatted(want, a.m, how == 2 ? &a.v : nullptr, "", lines);
        what = a.was;
      }
      for (int round = 0;; round++) {
        Outcome oc = attempt([&] {
          std::string s;
          if (how == 0)
            s = format_datashape(c.t, ">", lines);
          else {
            std::ostringstream ss;
            ss.exceptions(std::ios::badbit | std::ios::failbit);
            format_datashape(ss, a.a.get_type(), a.a->metadata(), how == 2 ? a.a.cdata() : nullptr, lines);
            s = ss.str();
          }
          Mode h(M_HOST);
          got = s;
        });
        if (!oc.ok && !memory())
          rt::violation("refused-valid", "formatting %s: %s", what.c_str(), oc.what.c_str());
        if (oc.ok || round)
          break;
        rt::op_faults_off();
      }
      if (got != want)
        rt::violation("wrong-text", "formatting %s gives %s, has to give %s", what.c_str(), got.c_str(), want.c_str());
      PROBE(how == 2 ? "formatted with data" : lines ? "formatted in lines" : "formatted");
      break;
    }
    case D_ARRAY: { // the type of an indexed array is the indexed type of the array
      Arr &a = arr[r.below(NS)];
      if (has(a.m, VAR))
        break;
      std::vector<Ix> ix = gen_index(r, a.m, true);
      T want;
      Verdict v = indexed(a.m, ix, 0, true, want);
      if (v == VAGUE)
        break;
      std::vector<irange> ir;
      for (const Ix &x : ix)
        ir.push_back(x.ir);
      nd::array b;
      derive("indexing an array of " + ds(a.m) + " with " + indexes_text(ix),
             [&] {
               b = a.a.at_array((intptr_t)ir.size(), ir.data());
               return b.get_type();
             },
             v == OK ? &want : nullptr, res);
      if (v == OK)
        keep(r, fib, res, want);
      drop(b);
      PROBE(v == OK ? "array indexed" : "array index refused");
      break;
    }
    case D_ACCESS: {
      Arr &a = arr[r.below(NS)];
      int n = ndim(a.m);
      const T &rec = strip(a.m, n);
      bool var = false;
      for (const T *t = &a.m; t->k == FIXED || t->k == VAR; t = &t->sub[0])
        var |= t->k == VAR;
      if (rec.k != STRUCT || var)
        break;
      bool ok = !r.chance(1, 5) && !rec.sub.empty();
      int i = ok ? r.below((int)rec.sub.size()) : 0;
      std::string name = ok ? rec.names[i] : "nowhere";
      T want;
      if (ok)
        want = replaced(a.m, n, rec.sub[i]);
      bool copy = n == 0 && r.chance(1, 2);
      nd::array b;
      derive(fmt("field %s of an array of %s", name.c_str(), ds(a.m).c_str()),
             [&] {
               b = copy ? nd::field_access({a.a}, {{"field_name", name}}) : a.a.p(name);
               return b.get_type();
             },
             ok ? &want : nullptr, res);
      if (ok) {
        std::function<P(const P &, int)> sub = [&](const P &p, int k) {
          if (k == 0)
            return p->v[i];
          P q(new V(*p));
          for (P &e : q->v)
            e = sub(e, k - 1);
          return q;
        };
        P v = sub(a.v, n);
        std::string got = dump(b), w = text(want, v);
        if (got != w)
          rt::violation("wrong-contents", "field %s of %s is %s, has to be %s", name.c_str(), a.was.c_str(), got.c_str(), w.c_str());
        if (!copy && b.get() != a.a.get() && b.cdata() < a.a.cdata())
          rt::violation("wrong-contents", "field %s is not inside its record", name.c_str());
      }
      drop(b);
      if (ok && copy) { // the same into an array that is there, perhaps of another type
        const T &ft = rec.sub[i];
        bool wide = ft.k >= I8 && ft.k <= I32;
        T dm = ft;
        if (wide)
          dm = T(), dm.k = r.chance(1, 2) ? F64 : I64;
        must_do("nd::empty", [&] { b = nd::empty(make(dm)); });
        bool done = false;
        if (!has(dm, VAR))
          for (int round = 0; round < 2; round++) {
            Outcome oc = attempt([&] { nd::field_access({a.a}, {{"field_name", name}, {"dst", b}}); });
            bool mem = memory();
            if (!oc.ok && !mem)
              rt::violation("refused-valid", "copying field %s of %s to %s: %s", name.c_str(), ds(a.m).c_str(), ds(dm).c_str(), oc.what.c_str());
            done = oc.ok;
            if (oc.ok || !mem)
              break;
            rt::op_faults_off();
          }
        if (done) {
          P v = clone(ft, a.v->v[i]);
          if (dm.k == F64 && wide)
            v->d = (double)v->i;
          std::string got = dump(b), w = text(dm, v);
          if (got != w)
            rt::violation("wrong-contents", "field %s of %s copied to %s is %s, has to be %s", name.c_str(), a.was.c_str(), ds(dm).c_str(), got.c_str(), w.c_str());
          PROBE(wide ? "field converted" : "field copied to an array");
        }
        drop(b);
      }
      PROBE(!ok ? "unknown field" : copy ? "field copied" : "field viewed");
      break;
    }
    case D_DROP:
      clear(cell[fib][r.below(NC)]);
      break;
    }
    {
      Mode m(M_SIM);
      res = ndt::type();
    }
    if (c.live)
      check("a type, later,", c);
  }
  void end() override {
    for (auto &row : cell)
      for (Cell &c : row) {
        if (c.live)
          check("a type, at the end,", c);
        clear(c);
      }
    for (Cell &c : shared) {
      check("a shared type, at the end,", c);
      clear(c);
    }
    for (Arr &a : arr) {
      if (dump(a.a) != a.was)
        rt::violation("wrong-contents", "an array that was only asked is %s, was %s", dump(a.a).c_str(), a.was.c_str());
      drop(a.a);
      a.v.reset();
    }
  }
};
Register reg("C22", "derived", []() -> Scenario * { return new C22; }, Tuning());
} // namespace
