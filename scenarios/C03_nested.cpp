// C03: arrays with out-of-line data (strings, bytes, ragged dimensions, records of them) own it.  A tree of values is
// kept next to every array; views of parts share nodes with their parent.
#include "typed.h"
#include <functional>
#include <set>
#include <dynd/assignment.hpp>
#include <dynd/comparison.hpp>
#include <dynd/json_parser.hpp>
using namespace typed;

namespace {
enum { N_NEW, N_PARSE, N_SUB, N_COPY, N_ASSIGN, N_SET, N_REF, N_DROP, N_PRINT, N_GROW, N_SLICE, NK };
const char *const names[] = {"new", "parse", "part", "eval_copy", "assign", "set_scalar", "copy_ref", "drop", "print", "resize_string", "slice"};
enum { NP = 5, NFROZEN = 3, NT = 4 };

struct Cell {
  nd::array a;
  std::shared_ptr<T> t;
  P p;
  bool frozen = false;
  bool set() const { return !!t; }
};

struct C03 : Scenario {
  Cell cell[rt::MAXF][NP];
  Cell frozen[NFROZEN];
  std::shared_ptr<T> types[NT];
  Gen g;

  void generate(Rng &r, Plan &p) override {
    p.nf = r.chance(1, 3) ? 1 : r.range(2, 4);
    int n = r.range(6, 26);
    static const int mix[] = {N_NEW, N_NEW, N_NEW, N_PARSE, N_PARSE, N_SUB, N_SUB, N_SUB, N_SLICE, N_SLICE, N_COPY, N_COPY, N_ASSIGN, N_ASSIGN, N_SET, N_SET, N_SET,
                              N_REF, N_DROP, N_DROP, N_PRINT, N_GROW};
    for (int i = 0; i < n; i++)
      p.add(r.range(1, p.nf), r.pick(mix), r.below(NP), r.below(NP + NFROZEN), r.below(30000), r.below(30000), r.below(1000), r.below(NT));
    p.params[0] = r.range(0, 3);
    p.params[1] = r.below(30000);
    p.params[2] = r.below(30000);
    p.params[3] = r.below(4) == 0;
  }
  std::string show(const Plan &, const Op &o) override {
    return fmt("%s %d from %d r=%d,%d v=%d k=%d", names[o.kind % NK], o.a[0], o.a[1], o.a[2], o.a[3], o.a[4], o.a[5]);
  }
  const char *opname(const Op &o) override { return names[o.kind % NK]; }

  void verify(const char *what, const Cell &c) { check_dump("wrong-contents", what, c.a, c.set() ? text(*c.t, c.p) : "NULL"); }
  void put(Cell &dst, nd::array &a, std::shared_ptr<T> t, P p, bool fr = false) {
    {
      Mode q(M_SIM);
      dst.a = std::move(a);
    }
    dst.t = t, dst.p = p, dst.frozen = fr;
  }
  static void clear(Cell &c) {
    drop(c.a);
    c.t.reset();
    c.p.reset();
    c.frozen = false;
  }
  // an array of the type with the value; strings and ragged data are written by a careful caller
  nd::array build(const T &t, const P &p) {
    nd::array a;
    must_do("nd::empty", [&] { a = nd::empty(make(t)); });
    Mode q(M_QUIET);
    fill(a, t, p);
    return a;
  }
  void begin(const Plan &p) override {
    Rng r(((uint64_t)p.params[1] << 20) ^ p.params[2]);
    g = Gen();
    g.longvars = p.params[3];
    for (auto &t : types)
      t = std::make_shared<T>(gen_type(r, g, p.params[0]));
    for (int i = 0; i < NFROZEN; i++) {
      auto t = types[i];
      P v = gen_value(r, g, *t);
      nd::array a = build(*t, v);
      put(frozen[i], a, t, v, true);
    }
  }
  // indexing with single indices and ranges, through dimensions and fields alike
  struct Ix {
    bool one = false, nop = false;
    long i = 0; // of one
    long lo = 0, hi = 0, step = 1;
    irange ir;
    // the selected ones of n, or not valid
    bool pick(long n, std::vector<long> &o) const {
      if (one) {
        if (i >= n || i < -n)
          return false;
        o.push_back(i < 0 ? i + n : i);
        return true;
      }
      if (nop) {
        for (long x = 0; x < n; x++)
          o.push_back(x);
        return true;
      }
      long s = lo, e = hi;
      if (s >= n)
        return false;
      s = s >= 0 ? s : s >= -n ? s + n : 0;
      if (e < -n)
        return false;
      e = e < 0 ? e + n : std::min(e, n);
      for (; s < e; s += step)
        o.push_back(s);
      return true;
    }
  };
  enum { OK, ERR, SKIP };
  static int slice_type(const T &t, const Ix *ix, int n, bool lead, T &out) {
    std::vector<long> w;
    if (!n) {
      out = t;
      return OK;
    }
    if (is_scalar(t))
      return ERR;
    bool rec = t.k == TUPLE || t.k == STRUCT;
    if (t.k == VAR) {
      if (ix->one)
        return !lead ? SKIP : slice_type(t.sub[0], ix + 1, n - 1, true, out);
      if (!ix->nop)
        return ERR;
      out = t;
      return slice_type(t.sub[0], ix + 1, n - 1, false, out.sub[0]);
    }
    if (!ix->pick(rec ? t.sub.size() : t.n, w))
      return ERR;
    if (ix->one)
      return slice_type(rec ? t.sub[w[0]] : t.sub[0], ix + 1, n - 1, lead, out);
    out = t;
    if (!rec) {
      out.n = w.size();
      return slice_type(t.sub[0], ix + 1, n - 1, false, out.sub[0]);
    }
    out.sub.clear(), out.names.clear();
    int res = OK;
    for (long i : w) {
      T x;
      int e = slice_type(t.sub[i], ix + 1, n - 1, false, x);
      if (e == ERR || res == OK)
        res = e;
      if (res == ERR)
        return res;
      out.sub.push_back(x);
      if (t.k == STRUCT)
        out.names.push_back(t.names[i]);
    }
    return res;
  }
  static bool slice_value(const T &t, const P &p, const Ix *ix, int n, P &out, bool &ragged) {
    if (!n) {
      out = p;
      return true;
    }
    bool rec = t.k == TUPLE || t.k == STRUCT;
    std::vector<long> w;
    if (!ix->pick(rec ? t.sub.size() : p->v.size(), w))
      return false;
    if (ix->one)
      return slice_value(rec ? t.sub[w[0]] : t.sub[0], p->v[w[0]], ix + 1, n - 1, out, ragged);
    if (t.k == VAR && n == 1) {
      out = p;
      return true;
    }
    ragged |= t.k == VAR;
    out = P(new V());
    out->unset = p->unset;
    for (long i : w) {
      P x;
      if (!slice_value(rec ? t.sub[i] : t.sub[0], p->v[i], ix + 1, n - 1, x, ragged))
        return false;
      out->v.push_back(x);
    }
    return true;
  }
  static Ix some_index(Rng &r, long n, bool wrong) {
    Ix x;
    if (r.chance(1, 4)) {
      x.nop = true;
      x.ir = irange();
    } else if (n > 0 && r.chance(1, 2)) {
      x.one = true;
      x.i = r.below((int)n);
      if (r.chance(1, 4))
        x.i -= n;
      if (wrong)
        x.i = r.chance(1, 2) ? n + r.below(3) : -n - 1 - r.below(3);
      x.ir = irange(x.i);
    } else {
      x.lo = n ? r.below((int)n) : 0, x.hi = r.range((int)x.lo, (int)n + 2), x.step = r.range(1, 3);
      if (!n && !wrong)
        x.lo = -1, x.hi = 0;
      if (n && r.chance(1, 6))
        x.lo -= n;
      if (wrong)
        x.lo = n + r.below(2);
      x.ir = irange(x.lo, x.hi, x.step);
    }
    return x;
  }
  // one position of every row: an array of pointers to them
  template <class F> static void element_of_rows(Rng &r, const nd::array &from, const T &ft, const P &fp, F unchanged, nd::array *keep, std::string *keep_text) {
    irange ir[8];
    int k = 0;
    const T *t = &ft;
    std::vector<P> rows(1, fp);
    std::string pre, post;
    do {
      std::vector<P> next;
      for (const P &p : rows)
        next.insert(next.end(), p->v.begin(), p->v.end());
      rows = next;
      pre += t->k == FIXED ? std::to_string(t->n) + " * " : "var * ";
      ir[k++] = irange();
      t = &t->sub[0];
    } while (t->k == FIXED && k < 5);
    if (t->k != VAR || rows.empty())
      return;
    size_t n = ~(size_t)0;
    for (const P &p : rows)
      n = std::min(n, p->unset ? 0 : p->v.size());
    if (!n)
      return;
    long i = r.below((int)n), j = -1;
    nd::array n2, cut;
    T end = t->sub[0];
    long skip = 0;
    if (end.k == FIXED && end.n > 1 && r.chance(2, 3)) { // of rows that start later
      skip = r.range(1, end.n - 1);
      ir[k] = irange();
      ir[k + 1] = irange(skip, end.n);
      must_do("slicing below rows", [&] { cut = from.at_array(k + 2, ir); }, unchanged);
      end.n -= (int)skip;
      PROBE("rows that start later");
    }
    ir[k++] = irange(i);
    t = &end;
    if (t->k == FIXED && t->n && r.chance(1, 2)) {
      j = r.below(t->n);
      ir[k++] = irange(j);
      t = &t->sub[0];
    }
    int dims = k - 1 - (j >= 0);
    std::function<std::string(const P &, int)> pick = [&](const P &p, int d) -> std::string {
      if (d == dims)
      {
        P e = p->v[i];
        if (skip) {
          P q(new V());
          q->v.assign(e->v.begin() + skip, e->v.end());
          e = q;
        }
        return "*" + text(*t, j < 0 ? e : e->v[j]);
      }
      std::string o;
      for (const P &e : p->v)
        o += (o.empty() ? "" : ", ") + pick(e, d + 1);
      return d == 0 && ft.k == VAR ? "{" + o + "}" : "[" + o + "]";
    };
    std::string what = fmt("position %ld of every row of %s", i, ds(ft).c_str()), want = pre + "pointer[" + ds(*t) + "]";
    must_do(what.c_str(), [&] { n2 = (skip ? cut : from).at_array(k, ir); }, unchanged);
    drop(cut);
    std::string got = type_str(n2.get_type());
    if (got != want)
      rt::violation("wrong-type", "%s: the type is %s, has to be %s", what.c_str(), got.c_str(), want.c_str());
    check_dump("wrong-contents", what.c_str(), n2, pick(fp, 0));
    if (keep) {
      *keep_text = pick(fp, 0);
      must_do("slicing pointers", [&] { *keep = n2(irange()); });
      check_dump("wrong-contents", (what + ", sliced").c_str(), *keep, *keep_text);
    }
    drop(n2);
    PROBE("position of every row");
  }
  static bool same_sizes(const P &a, const P &b) {
    if (a->v.size() != b->v.size())
      return false;
    for (size_t i = 0; i < a->v.size(); i++)
      if (!same_sizes(P(a->v[i]), P(b->v[i])))
        return false;
    return true;
  }
  static void nodes(const P &p, std::set<const V *> &s) {
    s.insert(p.get());
    for (auto &c : p->v)
      nodes(c, s);
  }
  // current leaf texts must be old or new, nothing else
  void leafwise(const char *what, const Cell &c, const P &now) {
    std::string got = dump(c.a), a = text(*c.t, c.p), b = text(*c.t, now);
    if (got == a || got == b)
      return;
    auto cut = [](const std::string &s) {
      std::vector<std::string> o;
      std::string e;
      bool q = false;
      for (char ch : s) {
        if (ch == '"')
          q = !q;
        if (!q && (ch == ',' || ch == '[' || ch == ']' || ch == '{' || ch == '}' || ch == '(' || ch == ')')) {
          o.push_back(e);
          e.clear();
        } else
          e += ch;
      }
      return o;
    };
    std::vector<std::string> x = cut(got), y = cut(a), z = cut(b);
    if (y.size() != z.size()) // ragged parts being filled for the first time
      return;
    bool ok = x.size() == y.size();
    for (size_t i = 0; ok && i < x.size(); i++)
      ok = x[i] == y[i] || x[i] == z[i];
    if (!ok)
      rt::violation("torn-write", "%s: a failed assignment left %s; before %s, wanted %s", what, got.c_str(), a.c_str(), b.c_str());
  }
  nd::array scalar(const T &t, const P &p, Rng &r) {
    nd::array s;
    must_do("making a scalar", [&] {
      switch (t.k) {
      case BOOL:
        s = nd::array((bool)p->i);
        break;
      case STR:
        s = r.chance(1, 2) || p->s.find('\0') != p->s.npos ? nd::array(p->s) : nd::array(p->s.c_str());
        break;
      case F32:
      case F64:
        s = nd::array(p->d);
        break;
      case U64:
        s = nd::array((uint64_t)p->i);
        break;
      default:
        s = nd::array((int64_t)p->i);
      }
    });
    return s;
  }
  // the sizes of the dimensions, -1 where those of a ragged one may differ
  void check_shape(const std::string &what, const T &t, const P &p, const nd::array &n) {
    std::vector<long> want;
    const T *u = &t;
    const V *v = p.get();
    for (; u->k == FIXED || u->k == VAR; u = &u->sub[0]) {
      want.push_back(u->k == FIXED ? u->n : v ? (long)v->v.size() : -1);
      v = v && want.back() == 1 ? v->v[0].get() : nullptr;
    }
    if (want.empty())
      return;
    std::vector<intptr_t> sh;
    Outcome o;
    for (int round = 0; round < 2; round++) {
      o = attempt([&] { sh = n.get_shape(); });
      if (o.ok || !rt::op_fired_mask() || o.type != "std::bad_alloc")
        break;
      rt::op_faults_off();
    }
    if (!o.ok)
      rt::violation("refused", "%s, get_shape: %s: %s", what.c_str(), o.type.c_str(), o.what.c_str());
    std::vector<long> got;
    {
      Mode q(M_PEEK);
      for (intptr_t x : sh)
        got.push_back(x);
    }
    if (got != want) {
      std::string l;
      for (long x : got)
        l += fmt(" %ld", x);
      rt::violation("wrong-shape", "%s, get_shape of %s gives%s", what.c_str(), ds(t).c_str(), l.c_str());
    }
    PROBE("shape");
    Mode q(M_SIM);
    std::vector<intptr_t>().swap(sh);
  }
  void exec(const Op &o, int) override {
    int f = o.fiber;
    Cell &b = cell[f][o.a[0] % NP];
    Cell &a = o.a[1] % (NP + NFROZEN) < NP ? cell[f][o.a[1] % (NP + NFROZEN)] : frozen[o.a[1] % (NP + NFROZEN) - NP];
    Rng r(((uint64_t)(unsigned short)o.a[2] << 16) ^ (unsigned short)o.a[3]);
    if (o.kind != N_NEW && o.kind != N_PARSE && !a.set())
      return;
    auto unchanged = [&] { verify("an array after a failed operation on it", a); };
    nd::array n;
    switch (o.kind) {
    case N_NEW: {
      auto t = types[o.a[5] % NT];
      P v = gen_value(r, g, *t);
      n = build(*t, v);
      put(b, n, t, v);
      break;
    }
    case N_PARSE: {
      auto t = types[o.a[5] % NT];
      if (has(*t, BYTES) || has(*t, FBYTES))
        return;
      P v = gen_value(r, g, *t);
      std::string s = to_json(*t, v);
      must_do("parse_json", [&] { n = parse_json(make(*t), s.c_str()); });
      put(b, n, t, v);
      PROBE("parsed");
      break;
    }
    case N_SUB: {
      if (is_scalar(*a.t) || a.p->v.empty())
        return;
      int i = r.below(a.p->v.size());
      bool rec = a.t->k == TUPLE || a.t->k == STRUCT;
      if (a.t->k == STRUCT && r.chance(1, 2))
        must_do("accessing a field", [&] { n = a.a.p(a.t->names[i]); }, unchanged);
      else
        must_do("indexing", [&] { n = a.a(i); }, unchanged);
      put(b, n, std::make_shared<T>(T(rec ? a.t->sub[i] : a.t->sub[0])), P(a.p->v[i]), a.frozen);
      PROBE("took a part");
      break;
    }
    case N_SLICE: {
      if (is_scalar(*a.t))
        return;
      nd::array from;
      auto ft = a.t;
      P fp = a.p;
      {
        Mode q(M_SIM);
        from = a.a;
      }
      // slices of slices as well
      bool ragged = false;
      for (int depth = r.chance(1, 2) ? 1 : 2; depth; depth--) {
      Ix ix[5];
      irange ir[5];
      int k = 0, bad = r.chance(1, 12) ? r.below(3) : -1;
      bool lead = true;
      T t = *ft;
      while (k < 4 && !is_scalar(t)) { // along the first selected of each
        bool rec = t.k == TUPLE || t.k == STRUCT;
        ix[k] = some_index(r, rec ? t.sub.size() : t.k == FIXED ? t.n : r.range(1, 4), k == bad);
        if (t.k == VAR && (!lead || !ix[k].one) && bad < 0)
          ix[k] = Ix(), ix[k].nop = true, ix[k].ir = irange();
        std::vector<long> w;
        T u = rec ? T() : t.sub[0];
        if (rec && ix[k].pick(t.sub.size(), w) && !w.empty())
          u = t.sub[w[0]];
        t = u;
        lead &= ix[k].one;
        k++;
        if (r.chance(1, 4))
          break;
      }
      if (is_scalar(t) && k < 5 && r.chance(1, 15))
        ix[k] = some_index(r, 3, false), k++;
      for (int i = 0; i < k; i++)
        ir[i] = ix[i].ir;
      auto rt = std::make_shared<T>();
      int e = slice_type(*ft, ix, k, true, *rt);
      if (e == SKIP)
        break;
      P v;
      std::string what = "slicing " + ds(*ft);
      for (int i = 0; i < k; i++)
        what += ix[i].one ? fmt(" %ld", ix[i].i) : ix[i].nop ? " all" : fmt(" %ld:%ld:%ld", ix[i].lo, ix[i].hi, ix[i].step);
      if (e == ERR || !slice_value(*ft, fp, ix, k, v, ragged)) {
        must_fail(what.c_str(), [&] { n = from.at_array(k, ir); });
        PROBE("refused slice");
        break;
      }
      must_do(what.c_str(), [&] { n = from.at_array(k, ir); }, unchanged);
      std::string got = type_str(n.get_type());
      if (got != ds(*rt))
        rt::violation("wrong-type", "%s: the type is %s, has to be %s", what.c_str(), got.c_str(), ds(*rt).c_str());
      check_dump("wrong-contents", what.c_str(), n, text(*rt, v));
      PROBE("sliced");
      check_shape(what, *rt, v, n);
      ft = rt;
      fp = v;
      {
        Mode q(M_SIM);
        from = n;
        n = nd::array();
      }
      if (is_scalar(*rt))
        break;
      }
      if (from.get_ndim() > 1 && r.chance(1, 2)) {
        nd::array kept;
        std::string kept_text;
        bool outlive = o.a[1] % (NP + NFROZEN) < NP && r.chance(1, 3);
        element_of_rows(r, from, *ft, fp, unchanged, outlive ? &kept : nullptr, &kept_text);
        if (!kept.is_null()) {
          drop(from);
          std::string what = "pointers into " + ds(*a.t) + " after it was let go";
          clear(a);
          check_dump("wrong-contents", what.c_str(), kept, kept_text);
          drop(kept);
          PROBE("pointers outlive the whole");
          break;
        }
      }
      if (ragged && o.a[1] % (NP + NFROZEN) < NP && r.chance(1, 2)) {
        auto kt = a.t;
        clear(a);
        check_dump("wrong-contents", ("a part of " + ds(*kt) + " after the whole was let go").c_str(), from, text(*ft, fp));
        drop(from);
        PROBE("slice outlives the whole");
      } else if (ft == a.t || ragged)
        drop(from);
      else
        put(b, from, ft, fp, a.frozen);
      break;
    }
    case N_COPY: {
      must_do("eval_copy", [&] { n = a.a.eval_copy(nd::readwrite_access_flags); }, unchanged);
      auto t = a.t;
      P c = clone(*t, a.p);
      put(b, n, t, c);
      PROBE("copied");
      break;
    }
    case N_ASSIGN: {
      // to an existing array of the same type, or to a new one
      if (&a == &b || b.frozen || !b.set() || ds(*b.t) != ds(*a.t)) {
        must_do("nd::empty", [&] { n = nd::empty(make(*a.t)); });
        {
          Mode q(M_QUIET);
          P z = clone(*a.t, a.p);
          if (pod(*a.t))
            fill(n, *a.t, z);
        }
        must_do("assigning", [&] { n.assign(a.a); }, unchanged);
        auto t = a.t;
        P c = clone(*t, a.p);
        put(b, n, t, c);
        break;
      }
      // ragged dimensions keep their size once set
      if (has(*a.t, VAR) && !same_sizes(a.p, b.p)) {
        attempt([&] { b.a.assign(a.a); });
        // refused, or some of it assigned: the target and whatever shares data with it stay readable, with unknown contents
        dump(b.a);
        std::set<const V *> touched;
        nodes(b.p, touched);
        for (Cell &c : cell[f]) {
          std::set<const V *> mine;
          if (c.set())
            nodes(c.p, mine);
          for (const V *v : mine)
            if (touched.count(v)) {
              clear(c);
              break;
            }
        }
        return;
      }
      P now = clone(*a.t, a.p);
      must_do("assigning", [&] { b.a.assign(a.a); }, [&] { leafwise("assignment", b, now); });
      copy_into(*b.t, b.p, now);
      PROBE("assigned in place");
      break;
    }
    case N_SET: {
      if (a.frozen)
        return;
      // walk down to a scalar
      T t = *a.t;
      P p = a.p;
      irange ix[8];
      int k = 0;
      while (!is_scalar(t)) {
        if (p->v.empty())
          return;
        int i = r.below(p->v.size());
        T s = t.k == TUPLE || t.k == STRUCT ? t.sub[i] : t.sub[0];
        p = P(p->v[i]);
        t = s;
        ix[k++] = irange(i);
      }
      if (t.k == BYTES || t.k == FBYTES || t.k == OPT)
        return;
      P v = gen_value(r, g, t);
      nd::array s = scalar(t, v, r);
      if (t.k == FSTR) {
        drop(s);
        must_do("making a scalar", [&] { s = nd::array(v->s); });
      }
      must_do("indexing", [&] { n = k ? a.a.at_array(k, ix) : a.a; }, unchanged);
      must_do("assigning a scalar", [&] { n.assign(s); }, unchanged);
      copy_into(t, p, v);
      drop(n);
      drop(s);
      PROBE("set a scalar");
      break;
    }
    case N_GROW: {
      // in-place operations on a string element
      if (a.frozen)
        return;
      T t = *a.t;
      P p = a.p;
      irange ix[8];
      int k = 0;
      while (!is_scalar(t)) {
        if (p->v.empty())
          return;
        int i = r.below(p->v.size());
        T s = t.k == TUPLE || t.k == STRUCT ? t.sub[i] : t.sub[0];
        p = P(p->v[i]);
        t = s;
        ix[k++] = irange(i);
      }
      if (t.k != STR && t.k != BYTES)
        return;
      must_do("indexing", [&] { n = k ? a.a.at_array(k, ix) : a.a; }, unchanged);
      char *d = const_cast<char *>(n.cdata());
      auto go = [&](auto &s) {
        int how = r.below(6);
        std::string add(r.range(0, 20), 'z');
        if (how == 0) {
          must_do("string::append", [&] { s.append(add.data(), add.size()); }, unchanged);
          p->s += add;
        } else if (how == 1) {
          size_t m = r.range(0, 40);
          must_do("string::reserve", [&] { s.reserve(m); }, unchanged);
        } else if (how == 2 || how == 3) {
          std::string v(r.below(3 * (int)s.size() + 20), 'y');
          must_do("string::assign", [&] { s.assign(v.data(), v.size()); }, unchanged);
          p->s = v;
        } else if (how == 4) {
          size_t m = r.below(p->s.size() + 1);
          must_do("string::resize", [&] { s.resize(m); }, unchanged);
          p->s.resize(m);
        } else {
          must_do("string::clear", [&] { s.clear(); }, unchanged);
          p->s.clear();
        }
      };
      if (t.k == STR)
        go(*reinterpret_cast<dynd::string *>(d));
      else
        go(*reinterpret_cast<dynd::bytes *>(d));
      drop(n);
      PROBE("resized a string in place");
      break;
    }
    case N_REF:
      if (&a == &b)
        return;
      {
        Mode q(M_SIM);
        b.a = a.a;
      }
      b.t = a.t, b.p = a.p, b.frozen = a.frozen;
      break;
    case N_DROP:
      clear(b);
      break;
    case N_PRINT: {
      must_do("printing", [&] {
        std::ostringstream ss;
        ss << a.a;
      }, unchanged);
      break;
    }
    }
    for (Cell &c : cell[f])
      verify("an array", c);
  }
  void end() override {
    for (auto &row : cell)
      for (Cell &c : row) {
        verify("an array after all threads ended", c);
        clear(c);
      }
    for (Cell &c : frozen) {
      verify("a read-only array after all threads ended", c);
      clear(c);
    }
    for (auto &t : types)
      t.reset();
  }
};
Register reg("C03", "nested", []() -> Scenario * { return new C03; }, Tuning());
} // namespace
