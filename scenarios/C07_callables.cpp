// C07: functions of the user wrapped as callables, lifted and combined, shared between threads, and called in every form.
#include "numeric.h"
#include <dynd/functional.hpp>
using namespace numeric;

namespace {
// ---- the user's functions --------------------------------------------------------------------------
enum { B_LAMBDA, B_MEM, B_INC, B_PTR, B_CAP, B_RW, B_THREE, B_KW, B_CTOR, B_STR, B_POS, NB };
struct Base {
  const char *name;
  int narg;
  K arg[3], ret;
  int kw;
};
const Base bases[NB] = {{"lambda", 1, {F64}, F64, 0},        {"member", 1, {F64}, F64, 0},
                        {"inc", 1, {I32}, I32, 0},           {"function", 2, {I32, I32}, I32, 0},
                        {"capture", 2, {F64, I32}, F64, 0},  {"return_wrapper", 2, {F64, F64}, F64, 0},
                        {"three", 3, {I32, F64, I32}, I32, 0}, {"keywords", 1, {F64}, F64, 1},
                        {"constructed", 1, {F64}, F64, 2},   {"text", 1, {STR}, STR, 0},
                        {"position", 2, {I32, I32}, I32, 0}};
int sub3(int x, int y) {
  callback();
  return (int)((unsigned)x * 3u - (unsigned)y);
}
struct Obj {
  double half;
  double scale(double x) {
    callback();
    return x * half;
  }
} obj = {0.5};
struct Cap {
  nd::array arr; // of one int
  double operator()(double x, int n) const {
    callback();
    return x * n + *reinterpret_cast<const int *>(arr.cdata());
  }
};
struct Three {
  int operator()(int x, double y, int z) const {
    callback();
    return (int)((unsigned)x + (y > 0 ? 10u : 20u) * (unsigned)z);
  }
};
struct Ctor {
  std::vector<double> v; // on the heap: not releasing the object is a leak
  Ctor(int a, double b) : v(3, b) { v[0] = a; }
  double operator()(double x) const {
    callback();
    return x * v[0] + v[2];
  }
};
const char tail[] = "-and-something-that-does-not-fit-inline";

template <class I> unsigned place(const I *index, size_t n) {
  unsigned p = 0;
  for (size_t i = 0; i < n; i++)
    p = p * 1009u + (unsigned)index[i] + 7u;
  return p;
}

struct Fx : Elem {
  int b = 0, c = -1; // c of b
  int na = 0;        // bits: the argument may be missing
  bool left = false, right = false;
  double s = 0;
  int k = 0; // keywords
  int narg() const { return bases[b].narg; }
  K ret() const { return bases[c >= 0 ? c : b].ret; }
  bool type(const std::vector<T> &a, T &out) const override {
    for (int i = 0; i < narg(); i++) {
      const T *t = &a[i];
      if (na >> i & 1) {
        if (t->k != OPT)
          return false;
        t = &t->sub[0];
      }
      if (t->k != bases[b].arg[i])
        return false;
    }
    out = na ? opt(ret()) : scalar(ret());
    return true;
  }
  P one(int f, const std::vector<const V *> &a) const {
    switch (f) {
    case B_LAMBDA:
      return box<double>(2 * a[0]->d + 1);
    case B_MEM:
      return box<double>(a[0]->d * 0.5);
    case B_INC:
      return box<int>((int)((unsigned)a[0]->i + 1u));
    case B_PTR:
      return box<int>((int)((unsigned)a[0]->i * 3u - (unsigned)a[1]->i));
    case B_CAP:
      return box<double>(a[0]->d * (int)a[1]->i + 77);
    case B_RW:
      return box<double>(a[0]->d - a[1]->d);
    case B_THREE:
      return box<int>((int)((unsigned)a[0]->i + (a[1]->d > 0 ? 10u : 20u) * (unsigned)a[2]->i));
    case B_KW:
      return box<double>(a[0]->d * s + k);
    case B_CTOR:
      return box<double>(a[0]->d * k + s);
    case B_POS:
      return box<int>((int)((unsigned)a[0]->i * 3u - (unsigned)a[1]->i * 5u + place(at.data(), at.size())));
    default: {
      P p(new V());
      p->unset = false;
      p->s = a[0]->s + tail;
      return p;
    }
    }
  }
  P value(const std::vector<T> &, const std::vector<const V *> &a, bool &ub) const override {
    std::vector<const V *> x = a;
    for (int i = 0; i < narg(); i++)
      if (na >> i & 1) {
        if (a[i]->na) {
          P p = blank(opt(ret()));
          p->na = true;
          return p;
        }
        x[i] = a[i]->v[0].get();
      }
    P p = one(b, x);
    if (c >= 0)
      p = one(c, {p.get()});
    if (!na)
      return p;
    if (is_sentinel(ret(), *p))
      ub = true;
    P o(new V());
    o->unset = false;
    o->v.push_back(p);
    return o;
  }
};
enum { PLAIN, ELW, OUT, CONST, COMPOUND };
struct Rec {
  int top = PLAIN;
  bool lifted = false; // an elementwise compound
  Fx e;
  T ct;
  P cv;
};

enum { F_MAKE, F_CALL, F_DST, F_FORM, F_COPY, F_PUT, F_TAKE, F_DROP, F_BADMAKE, F_ARRAY, NK };
const char *const names[] = {"make", "call", "call into", "call in a form", "copy", "put", "take", "drop", "make refused", "function of arrays"};
enum { NS = 3, NP = 18, MAXEXT = 48 };
struct Cell {
  nd::callable f;
  Rec r;
  bool set = false;
};
struct Arg {
  nd::array a;
  T t;
  P p;
};

// the calls of an elementwise function without a result
struct Log {
  unsigned h = 0;
  int n = 0;
  void add(int a, int b) { h = h * 31u + (unsigned)a * 7u + (unsigned)b, n++; }
};
struct Each : Elem {
  mutable Log log;
  bool type(const std::vector<T> &a, T &out) const override {
    out = scalar(I32);
    return a[0].k == I32 && a[1].k == I32;
  }
  P value(const std::vector<T> &, const std::vector<const V *> &a, bool &) const override {
    log.add((int)a[0]->i, (int)a[1]->i);
    return numeric::box<int>(0);
  }
};
ndt::type five(size_t, const ndt::type *, size_t, const nd::array *) { return ndt::make_type<ndt::fixed_dim_type>(5, ndt::make_type<int>()); }

struct C07 : Scenario {
  Cell base[NB], mine[rt::MAXF][NS], box;
  rt::SimLock lock;
  Arg pool[NP];
  External ext[MAXEXT];
  int next = 0;

  void generate(Rng &r, Plan &p) override {
    p.nf = r.chance(1, 3) ? 1 : r.range(2, 4);
    int n = r.range(5, 20);
    static const int mix[] = {F_MAKE, F_MAKE, F_MAKE, F_MAKE, F_CALL, F_CALL, F_CALL, F_CALL, F_CALL, F_DST, F_DST, F_DST, F_FORM, F_FORM, F_COPY, F_PUT, F_TAKE, F_DROP, F_BADMAKE, F_ARRAY, F_ARRAY};
    for (int i = 0; i < n; i++) {
      int k = r.pick(mix);
      int from = k != F_MAKE && r.chance(1, 2) ? NB + r.below(NS) : r.below(NB + NS);
      p.add(r.range(1, p.nf), k, r.below(NS), from, r.below(5), 0, r.below(30000), r.below(30000));
    }
    p.params[0] = r.below(30000);
    p.params[1] = r.below(30000);
  }
  std::string show(const Plan &, const Op &o) override { return fmt("%s slot %d, source %d, %d r=%d,%d", names[o.kind % NK], o.a[0], o.a[1], o.a[2], o.a[4], o.a[5]); }
  const char *opname(const Op &o) override { return names[o.kind % NK]; }

  // ---- making callables
  nd::callable wrap(int b, External *x) { // in M_SIM
    switch (b) {
    case B_LAMBDA:
      return nd::functional::apply([](double v) {
        callback();
        return 2 * v + 1;
      });
    case B_MEM:
      return nd::functional::apply(&obj, &Obj::scale);
    case B_INC:
      return [](int v) {
        callback();
        return (int)((unsigned)v + 1u);
      };
    case B_PTR:
      return nd::functional::apply<decltype(&sub3), &sub3>();
    case B_CAP: {
      nd::memory_block owner = nd::make_memory_block<nd::external_memory_block>((void *)x, &External::release);
      x->size = 1; // owned
      nd::array t = nd::make_array(ndt::make_type<int>(), x->mem, owner, nd::readwrite_access_flags);
      return nd::functional::apply(Cap{t});
    }
    case B_RW:
      return nd::functional::apply([](const return_wrapper<double> &res, double v, double w) {
        callback();
        res = v - w;
      });
    case B_THREE:
      return nd::functional::apply(Three());
    case B_KW:
      return nd::functional::apply(
          [](double v, double s, int k) {
            callback();
            return v * s + k;
          },
          "s", "k");
    case B_CTOR:
      return nd::functional::apply<Ctor, int, double>("k", "s");
    case B_POS: // makes sense only when it is lifted
      return nd::functional::elwise(nd::functional::apply([](int v, nd::state st, int w) {
        callback();
        return (int)((unsigned)v * 3u - (unsigned)w * 5u + place(st.index, st.ndim));
      }));
    default:
      return nd::functional::apply([](const return_wrapper<dynd::string> &res, const dynd::string &v) {
        callback();
        std::string t(v.begin(), v.end());
        t += tail;
        res.get().assign(t.data(), t.size());
      });
    }
  }
  nd::callable make_base(int b) {
    nd::callable f;
    External *x = nullptr;
    auto memory = [&] {
      x = &ext[next++];
      x->freed = 0;
      x->size = 0;
      Mode q(M_QUIET);
      x->mem = (char *)malloc(sizeof(int));
      *reinterpret_cast<int *>(x->mem) = 77;
    };
    auto unowned = [&] {
      if (!x->size) {
        Mode q(M_QUIET);
        free(x->mem);
        x->freed = 1;
      } else if (x->freed != 1)
        rt::violation("owner-lost", "wrapping a function failed and what it captured was released %d times", x->freed);
    };
    if (b == B_CAP)
      memory();
    must_do("wrapping a function", [&] { f = wrap(b, x); }, [&] {
      if (x) {
        unowned();
        if (next >= MAXEXT)
          rt::harness_error("too many externals");
        memory();
      }
    });
    return f;
  }
  static nd::callable fna(int mask, const nd::callable &f) {
    return mask == 1 ? nd::functional::forward_na<0>(f) : mask == 2 ? nd::functional::forward_na<1>(f) : nd::functional::forward_na<0, 1>(f);
  }
  void put(Cell &c, nd::callable &f, const Rec &r) {
    {
      Mode q(M_SIM);
      c.f = std::move(f);
    }
    c.r = r, c.set = true;
  }
  void clear(Cell &c) {
    Mode q(M_SIM);
    c.f = nd::callable();
    c.set = false;
  }
  // a value of the leaf kinds used here
  static P values(Rng &r, const T &t, int n) {
    P p(new V());
    p->unset = false;
    if (t.k == FIXED || t.k == VAR) {
      int m = t.k == FIXED ? t.n : r.chance(1, 6) ? 0 : r.chance(1, 4) ? 1 : n;
      for (int i = 0; i < m; i++)
        p->v.push_back(values(r, t.sub[0], n));
      return p;
    }
    if (t.k == OPT) {
      p->na = r.chance(1, 4);
      p->v.push_back(numeric::number(r, t.sub[0].k));
      if (!p->na && is_sentinel(t.sub[0].k, *p->v[0]))
        p->na = true;
      if (p->na) {
        p = blank(t);
        p->na = true;
      }
      return p;
    }
    if (t.k == STR) {
      int m = r.chance(1, 3) ? r.range(20, 40) : r.below(12);
      for (int i = 0; i < m; i++)
        p->s += (char)('a' + r.below(26));
      return p;
    }
    return numeric::number(r, t.k);
  }
  static nd::array store(Rng &r, const T &t, const P &p) {
    nd::array a;
    if (dtype(t).k == STR || dtype(t).k == OPT) {
      must_do("nd::empty", [&] { a = nd::empty(typed::make(t)); });
      Mode q(M_QUIET);
      fill(a, t, p);
    } else
      a = numeric::build(r, t, p);
    return a;
  }
  void begin(const Plan &p) override {
    Rng r(((uint64_t)(unsigned short)p.params[0] << 16) ^ (unsigned short)p.params[1]);
    next = 0;
    lock = rt::SimLock();
    int sz[2] = {r.chance(1, 7) ? r.range(20, 300) : r.range(1, 5), r.range(0, 4)};
    static const K ks[NP] = {F64, F64, F64, F64, F64, F64, I32, I32, I32, I32, I32, I32, OPT, OPT, OPT, OPT, STR, I64};
    for (int i = 0; i < NP; i++) {
      T t = ks[i] == OPT ? opt(i % 2 ? F64 : I32) : scalar(ks[i]);
      int nd = i % 6 == 0 || i == 12 || i == 13 ? 0 : r.range(0, 2);
      for (int d = 0; d < nd; d++)
        t = dim(r.chance(1, 5) ? 1 : r.chance(1, 7) && ks[i] != STR ? -1 : r.chance(1, 6) ? r.range(0, 3) : sz[d], t);
      P v = values(r, t, sz[0]);
      nd::array a = store(r, t, v);
      Mode q(M_SIM);
      pool[i].a = std::move(a), pool[i].t = t, pool[i].p = v;
    }
    for (int b = 0; b < NB; b++) {
      nd::callable f = make_base(b);
      Rec rec;
      rec.e.b = b;
      if (b == B_POS)
        rec.top = ELW;
      put(base[b], f, rec);
    }
  }
  // the source of an operation: a shared function or one of the fiber's own
  Cell &src(const Op &o) {
    int i = o.a[1] % (NB + NS);
    return i < NB ? base[i] : mine[o.fiber][i - NB];
  }
  static std::string title(const Rec &r) {
    std::string s = r.top == CONST ? "constant" : bases[r.e.b].name;
    if (r.e.c >= 0)
      s = std::string(bases[r.e.c].name) + " of " + s;
    if (r.e.na)
      s = "forward_na<" + std::to_string(r.e.na) + ">(" + s + ")";
    if (r.e.left || r.e.right)
      s = std::string(r.e.left ? "left" : "right") + "_compound(" + s + ")";
    if (r.top == ELW || r.lifted)
      s = "elwise(" + s + ")";
    if (r.top == OUT)
      s = "outer(" + s + ")";
    return s;
  }

  // ---- calls
  struct Call {
    std::vector<nd::array> args;
    std::vector<std::pair<const char *, nd::array>> kw;
  };
  static T concat(const std::vector<T> &ts, size_t i, const T &el) {
    if (i == ts.size())
      return el;
    T rest = concat(ts, i + 1, el);
    return redtype(ts[i], rest);
  }
  static P outer(const Fx &e, std::vector<T> ts, std::vector<P> vs, bool &ub) {
    for (size_t i = 0; i < ts.size(); i++)
      if (ts[i].k == FIXED) {
        P p(new V());
        p->unset = false;
        std::vector<T> t2 = ts;
        t2[i] = ts[i].sub[0];
        for (auto &c : vs[i]->v) {
          std::vector<P> v2 = vs;
          v2[i] = c;
          p->v.push_back(outer(e, t2, v2, ub));
        }
        return p;
      }
    std::vector<const V *> a;
    for (auto &v : vs)
      a.push_back(v.get());
    return e.value(ts, a, ub);
  }
  void call(const Op &o, Rng &r) {
    Cell &c = src(o);
    if (!c.set)
      return;
    Rec rec = c.r;
    Fx &e = rec.e;
    nd::callable f; // the caller's own reference
    {
      Mode q(M_SIM);
      f = c.f;
    }
    int narg = rec.top == CONST ? r.below(3) : e.left || e.right ? 1 : e.narg();
    Call k;
    std::vector<T> ts;
    std::vector<P> vs;
    std::vector<int> used;
    std::string what = title(rec) + "(";
    bool dims = rec.top == ELW || rec.top == OUT || rec.lifted;
    for (int i = 0; i < narg; i++) {
      int at = e.right ? 0 : e.left ? 1 : i;
      K want = rec.top == CONST ? I32 : bases[e.b].arg[at];
      int j = r.below(NP);
      if (!r.chance(1, 12))
        for (int tries = 0; tries < 60; tries++, j = (j + 1 + r.below(3)) % NP) {
          const T &d = dtype(pool[j].t);
          bool nullable = e.na >> at & 1;
          if ((nullable ? d.k == OPT && d.sub[0].k == want : d.k == want) && (dims || pool[j].t.k != FIXED))
            if (dims || !ndim(pool[j].t))
              break;
        }
      used.push_back(j);
      ts.push_back(pool[j].t), vs.push_back(pool[j].p);
      what += (i ? ", " : "") + ds(pool[j].t);
    }
    {
      Mode q(M_QUIET);
      for (int j : used)
        k.args.push_back(pool[j].a);
    }
    what += ")";
    // keywords
    int form = 0;
    bool refuse = false;
    int kwk = rec.top == CONST ? 0 : bases[e.b].kw;
    nd::array s, n, wrong;
    if (kwk) {
      e.s = r.range(-4, 4) * 0.5;
      e.k = r.range(-5, 5);
      must_do("keyword values", [&] { s = nd::array(e.s), n = nd::array(e.k), wrong = nd::array("x"); });
      const char *n0 = kwk == 1 ? "s" : "k", *n1 = kwk == 1 ? "k" : "s";
      nd::array v0 = kwk == 1 ? s : n, v1 = kwk == 1 ? n : s;
      form = r.below(o.kind == F_FORM ? 12 : 4);
      Mode q(M_QUIET);
      switch (form) {
      case 0:
        k.kw = {{n0, v0}, {n1, v1}};
        break;
      case 1:
        k.kw = {{n1, v1}, {n0, v0}};
        break;
      case 2:
        k.args.push_back(v0);
        k.kw = {{n1, v1}};
        break;
      case 3:
        k.args.push_back(v0), k.args.push_back(v1);
        break;
      case 4:
        k.kw = {{n0, v0}};
        break;
      case 5:
        k.kw = {{n1, v1}};
        break;
      case 6:
        k.kw = {{n0, v0}, {n1, v1}, {n0, v0}};
        break;
      case 7:
        k.args.push_back(v0);
        k.kw = {{n0, v0}, {n1, v1}};
        break;
      case 8:
        k.kw = {{n0, v0}, {n1, v1}, {"other", v1}};
        break;
      case 9:
        k.kw = {{n0, wrong}, {n1, v1}};
        break;
      case 10:
        k.args.push_back(v0), k.args.push_back(wrong);
        break;
      default:
        k.args.push_back(v0), k.args.push_back(v1), k.args.push_back(v1);
      }
      refuse = form >= 4;
      what += " keyword form " + std::to_string(form);
    } else if (o.kind == F_FORM && rec.top != CONST) {
      Mode q(M_QUIET);
      refuse = true;
      switch (r.below(3)) {
      case 0:
        if (narg) {
          k.args.pop_back();
          what += " without the last argument";
          break;
        }
      // fall through
      case 1:
        k.args.push_back(pool[0].a);
        what += " with an argument too many";
        break;
      default:
        k.kw.push_back({"other", pool[0].a});
        what += " with an unknown keyword";
      }
    }
    // the result
    T rt, el;
    bool ok = true, skip = false;
    if (rec.top == CONST)
      rt = rec.ct;
    else if (e.left || e.right) {
      std::vector<T> two = {scalar(bases[e.b].ret), dtype(ts[0])};
      if (e.right)
        std::swap(two[0], two[1]);
      ok = e.type(two, el) && (dims || !ndim(ts[0]));
      rt = redtype(ts[0], scalar(bases[e.b].ret));
      if (has(ts[0], VAR))
        skip = true;
    } else if (rec.top == PLAIN) {
      for (auto &t : ts)
        ok &= ndim(t) == 0;
      ok = ok && e.type(ts, rt);
    } else if (rec.top == ELW)
      ok = result_type(e, ts, rt);
    else {
      std::vector<T> el_ts;
      for (auto &t : ts) {
        el_ts.push_back(dtype(t));
        ok &= !has(t, VAR);
      }
      ok = ok && e.type(el_ts, el);
      if (ok)
        rt = concat(ts, 0, el);
    }
    // the destination
    nd::array d, res;
    T dt = rt;
    P old;
    bool dst = (o.kind == F_DST || e.left || e.right) && ok, bad = false;
    if (ok && rec.top == OUT) {
      double sz = 1;
      for (T t = rt; t.k == FIXED; t = T(t.sub[0]))
        sz *= t.n;
      skip |= sz > 700;
    }
    if (dst && !(e.left || e.right)) {
      int w = r.below(8);
      const T shape = pool[r.below(NP)].t;
      K other = r.chance(1, 2) ? I64 : F32;
      if (w == 0)
        dt = redtype(dt, scalar(other)), bad = true;
      else if (w == 1) {
        if (rec.top == ELW)
          dt = dim(r.range(0, 3), dt);
        else
          dt = dim(2, dt), bad = true;
      } else if (w == 2 && rec.top == ELW && dtype(dt).k != STR)
        dt = dim(-1, dt);
      else if (w == 3 && rec.top != CONST && dtype(dt).k != STR) {
        dt = redtype(shape, dtype(rt));
        if (rec.top != ELW)
          bad = ds(dt) != ds(rt);
      }
      if (rec.top == ELW)
        bad |= !accepts(dt, ts);
    }
    if (dst) {
      skip |= dtype(dt).k == STR && has(dt, VAR);
    }
    if (dst && !skip) {
      old = values(r, dt, r.below(4));
      d = store(r, dt, old);
      what += " into " + ds(dt);
      Mode q(M_QUIET);
      k.kw.push_back({"dst", d});
      if (r.chance(1, 2))
        std::swap(k.kw[0], k.kw.back());
    }
    auto run = [&] { res = f.call(k.args.size(), k.args.data(), k.kw.size(), k.kw.data()); };
    auto sources = [&] {
      for (int j : used)
        check_dump("source-changed", what.c_str(), pool[j].a, text(pool[j].t, pool[j].p));
    };
    if (skip)
      ;
    else if (!ok || refuse || bad) {
      must_fail(what.c_str(), run);
      if (dst)
        check_dump("dst-changed", what.c_str(), d, text(dt, old));
      PROBE("a refused call");
    } else {
      Ev ev;
      P v;
      bool ub = false;
      bool compound = e.left || e.right;
      if (rec.top == CONST)
        v = rec.cv;
      else if (compound) {
        std::vector<T> t2 = {dt, ts[0]};
        std::vector<P> v2 = {old, vs[0]};
        if (e.right)
          std::swap(t2[0], t2[1]), std::swap(v2[0], v2[1]);
        v = numeric::apply(e, dt, t2, v2, old, ev);
      } else if (rec.top == OUT)
        v = outer(e, ts, vs, ub);
      else
        v = numeric::apply(e, dt, ts, vs, dst ? old : P(), ev);
      if (!ub && !ev.ub) {
        if (ev.err) {
          must_fail(what.c_str(), run);
          if (dst)
            torn(what.c_str(), d, dt, old, v);
        } else {
          Outcome out = attempt(run);
          uint64_t fired = rt::op_fired_mask();
          if (!out.ok) {
            if (!fired)
              rt::violation("unexpected-error", "%s failed although nothing was injected: %s: %s", what.c_str(), out.type.c_str(), out.what.c_str());
            if (fired == (1u << rt::FK_CALLBACK) && !out.cb)
              rt::violation("wrong-error", "%s: the function failed and the call reports %s: %s", what.c_str(), out.type.c_str(), out.what.c_str());
            if (out.cb)
              PROBE("the function failed");
            sources();
            if (dst)
              torn(what.c_str(), d, dt, old, v);
            if (!compound) {
              rt::op_faults_off();
              must_do(what.c_str(), run);
              out.ok = true;
            }
          }
          if (out.ok) {
            if (!dst) {
              check_type(what.c_str(), res, rt);
              check_dump("wrong-result", what.c_str(), res, text(rt, v));
            } else {
              check_dump("wrong-result", what.c_str(), d, text(dt, v));
              PROBE("into a destination");
            }
          }
          switch (rec.top) {
          case ELW:
            PROBE("lifted");
            break;
          case OUT:
            PROBE("outer");
            break;
          case CONST:
            PROBE("constant");
            break;
          }
          if (e.c >= 0)
            PROBE("composed");
          if (e.na)
            PROBE("missing values");
          if (kwk)
            PROBE("keywords");
          if (e.b == B_POS && e.ret() == I32 && ndim(dt))
            PROBE(has(dt, VAR) || has(ts[0], VAR) || has(ts[1], VAR) ? "told its place in var dimensions" : "told its place");
        }
      }
    }
    sources();
    Mode q(M_SIM);
    k = Call();
    res = nd::array(), d = nd::array(), s = nd::array(), n = nd::array(), wrong = nd::array();
    f = nd::callable();
  }
  void make(const Op &o, Rng &r) {
    Cell &c = mine[o.fiber][o.a[0] % NS];
    Rec rec;
    int top = o.a[2] % 5;
    nd::callable f;
    if (top == CONST) {
      T t = scalar(r.chance(1, 2) ? I32 : r.chance(1, 2) ? F64 : STR);
      if (r.chance(1, 2))
        t = dim(r.range(0, 4), t);
      rec.top = CONST, rec.ct = t, rec.cv = values(r, t, 3);
      nd::array a = store(r, t, rec.cv);
      must_do("constant", [&] { f = nd::functional::constant(a); });
      drop(a);
      put(c, f, rec);
      return;
    }
    // the function itself, perhaps a new one
    int b = o.a[1] % NB;
    nd::callable g;
    if (r.chance(1, 3) && (b != B_CAP || next + 2 < MAXEXT))
      g = make_base(b);
    else {
      Mode q(M_SIM);
      g = base[b].f;
    }
    rec.e.b = b;
    if (top == COMPOUND) {
      if (b != B_PTR && b != B_CAP && b != B_RW)
        b = rec.e.b = B_PTR, g = nd::callable(base[B_PTR].f);
      if (b == B_CAP || r.chance(1, 2)) // its first argument is of the result type
        rec.e.left = true;
      else
        rec.e.right = true;
      rec.top = COMPOUND;
      must_do("a compound", [&] { f = rec.e.left ? nd::functional::left_compound(g) : nd::functional::right_compound(g); });
      if (r.chance(1, 2)) {
        rec.lifted = true;
        nd::callable h;
        must_do("elwise", [&] { h = nd::functional::elwise(f); });
        Mode q(M_SIM);
        f = std::move(h);
      }
    } else {
      {
        Mode q(M_SIM);
        f = std::move(g);
      }
      if (b == B_POS) {
        rec.top = ELW;
        put(c, f, rec);
        return;
      }
      if (bases[b].narg == 1 && !bases[b].kw && r.chance(1, 2)) {
        int d;
        do
          d = r.below(NB);
        while (bases[d].narg != 1 || bases[d].kw || bases[d].arg[0] != bases[b].ret);
        rec.e.c = d;
        nd::callable h;
        must_do("compose", [&] { h = nd::functional::compose(f, base[d].f, typed::make(scalar(bases[b].ret))); });
        Mode q(M_SIM);
        f = std::move(h);
      } else if (bases[b].narg == 2 && b != B_POS && r.chance(1, 2)) {
        rec.e.na = r.range(1, 3);
        nd::callable h;
        must_do("forward_na", [&] { h = fna(rec.e.na, f); });
        Mode q(M_SIM);
        f = std::move(h);
      }
      if (top == ELW || top == OUT) {
        rec.top = top;
        nd::callable h;
        must_do("lifting", [&] { h = top == ELW ? nd::functional::elwise(f) : nd::functional::outer(f); });
        Mode q(M_SIM);
        f = std::move(h);
      }
    }
    put(c, f, rec);
  }
  // functions which take, or fill, whole arrays
  static int weigh(const V &x) {
    unsigned s = 0;
    for (size_t i = 0; i < x.v.size(); i++)
      s = s * 31u + (unsigned)x.v[i]->i;
    return (int)s;
  }
  static int weigh(const dynd::fixed<int> &x) {
    unsigned s = 0, t = 0;
    for (size_t i = 0; i < x.size(); i++)
      s = s * 31u + (unsigned)x[i];
    for (int v : x)
      t = t * 31u + (unsigned)v;
    return (int)(s == t ? s : ~s);
  }
  void each(Rng &r) {
    int i[2];
    for (int &k : i)
      for (k = r.below(NP); dtype(pool[k].t).k != I32 || has(pool[k].t, OPT); k = (k + 1) % NP)
        ;
    std::vector<T> ts = {pool[i[0]].t, pool[i[1]].t};
    std::vector<P> vs = {pool[i[0]].p, pool[i[1]].p};
    std::string what = "a function without result for each of " + ds(ts[0]) + " and " + ds(ts[1]);
    Each e;
    T rt;
    bool ok = result_type(e, ts, rt) && !has(ts[0], VAR) && !has(ts[1], VAR);
    nd::callable f;
    nd::array res, x, y;
    {
      Mode q(M_QUIET);
      x = pool[i[0]].a, y = pool[i[1]].a;
    }
    Log log;
    must_do("elwise without a result", [&] { f = nd::functional::elwise(nd::functional::apply([&log](int a, int b) { log.add(a, b); }), true); });
    auto run = [&] {
      log = Log();
      res = f(x, y);
    };
    if (!ok) {
      must_fail(what.c_str(), run);
      if (log.n)
        rt::violation("wrong-result", "%s was refused, but called %d times", what.c_str(), log.n);
    } else {
      Ev ev;
      numeric::apply(e, rt, ts, vs, P(), ev);
      must_do(what.c_str(), run);
      if (log.n != e.log.n || log.h != e.log.h)
        rt::violation("wrong-result", "%s: called %d times instead of %d, or not in order or with other values", what.c_str(), log.n, e.log.n);
      PROBE("without a result");
    }
    for (int k : i)
      check_dump("source-changed", what.c_str(), pool[k].a, text(pool[k].t, pool[k].p));
    Mode q(M_SIM);
    f = nd::callable();
    res = nd::array(), x = nd::array(), y = nd::array();
  }
  void arrays(Rng &r) {
    if (r.chance(1, 4))
      return each(r);
    int want = r.range(1, 2), j = -1;
    for (int i = 0, k = r.below(NP); i < NP; i++, k = (k + 1) % NP)
      if (dtype(pool[k].t).k == I32 && ndim(pool[k].t) == want && !has(pool[k].t, VAR) && !has(pool[k].t, OPT))
        j = k;
    if (j < 0)
      return;
    const Arg &a = pool[j];
    nd::callable f, g;
    nd::array res, x, y;
    auto same = [&] { check_dump("source-changed", "a function of arrays", pool[j].a, text(pool[j].t, pool[j].p)); };
    P v;
    T rt = scalar(I32);
    {
      Mode q(M_QUIET);
      x = a.a;
    }
    int form = r.below(4), n = r.range(-5, 5);
    if (want == 2) {
      if (r.chance(1, 2)) { // each row
        must_do("elwise of a function of arrays", [&] {
          g = nd::functional::apply([](const dynd::fixed<int> &v) { return weigh(v); });
          f = nd::functional::elwise(g);
        });
        must_do("calling it for each row", [&] { res = f(x); }, same);
        rt = dim(a.t.n, rt);
        v = P(new V());
        v->unset = false;
        for (auto &row : a.p->v)
          v->v.push_back(numeric::box<int>(weigh(*row)));
        PROBE("a function of rows, lifted");
      } else {
        must_do("a function of two dimensions", [&] {
          f = nd::functional::apply([](const dynd::fixed<dynd::fixed<int>> &v) {
            unsigned s = 0;
            for (size_t i = 0; i < v.size(); i++)
              s = s * 37u + (unsigned)weigh(v[i]);
            return (int)s;
          });
        });
        must_do("calling it", [&] { res = f(x); }, same);
        unsigned s = 0;
        for (auto &row : a.p->v)
          s = s * 37u + (unsigned)weigh(*row);
        v = numeric::box<int>((int)s);
      }
    } else if (form == 0) {
      must_do("a function of a record", [&] {
        f = nd::functional::apply([](const dynd::tuple<dynd::fixed<int>, double> &v) { return weigh(get<0>(v)) + get<1>(v) * 0.5; });
        y = nd::tuple({x, nd::array((double)n)});
      }, same);
      must_do("calling it", [&] { res = f(y); }, same);
      rt = scalar(F64);
      v = numeric::box<double>(weigh(*a.p) + n * 0.5);
      PROBE("a function of a record");
    } else if (form == 1) {
      must_do("a function which fills an array", [&] {
        f = nd::functional::apply([](const return_wrapper<dynd::fixed<int>, five> &res, int n) {
          dynd::fixed<int> &to = res;
          int i = 0;
          for (int &v : to)
            v = n * ++i;
        });
        y = nd::array(n);
      });
      rt = dim(5, rt);
      P old = values(r, rt, 5);
      nd::array d;
      if (r.chance(1, 2)) {
        d = store(r, rt, old);
        nd::array kw = d;
        std::pair<const char *, nd::array> dst("dst", d);
        must_do("calling it into a destination", [&] { res = f.call(1, &y, 1, &dst); });
        PROBE("a function fills a destination");
      } else
        must_do("calling it", [&] { res = f(y); });
      v = P(new V());
      v->unset = false;
      for (int i = 1; i <= 5; i++)
        v->v.push_back(numeric::box<int>(n * i));
      drop(d);
    } else if (form == 2) { // two arrays and a return_wrapper
      const Arg *b = &a;
      for (int i = 0, k = r.below(NP); i < NP; i++, k = (k + 1) % NP)
        if (dtype(pool[k].t).k == I32 && ndim(pool[k].t) == 1 && !has(pool[k].t, VAR) && !has(pool[k].t, OPT))
          b = &pool[k];
      must_do("a function of two arrays", [&] {
        f = nd::functional::apply([](const return_wrapper<int> &res, const dynd::fixed<int> &v, const dynd::fixed<int> &w) {
          res = (int)((unsigned)weigh(v) * 3u + (unsigned)weigh(w));
        });
      });
      {
        Mode q(M_QUIET);
        y = b->a;
      }
      must_do("calling it", [&] { res = f(x, y); }, same);
      v = numeric::box<int>((int)((unsigned)weigh(*a.p) * 3u + (unsigned)weigh(*b->p)));
    } else {
      must_do("a function of an array", [&] {
        f = nd::functional::apply([](const dynd::fixed<int> &v, int n) { return (int)((unsigned)weigh(v) + (unsigned)n); });
        y = nd::array(n);
      });
      must_do("calling it", [&] { res = f(x, y); }, same);
      v = numeric::box<int>((int)((unsigned)weigh(*a.p) + (unsigned)n));
      PROBE("a function of an array");
    }
    check_type("a function of arrays", res, rt);
    check_dump("wrong-result", "a function of arrays", res, text(rt, v));
    same();
    Mode q(M_SIM);
    f = nd::callable(), g = nd::callable();
    res = nd::array(), x = nd::array(), y = nd::array();
  }
  void exec(const Op &o, int) override {
    Rng r(((uint64_t)(unsigned short)o.a[4] << 16) ^ (unsigned short)o.a[5]);
    Cell &c = mine[o.fiber][o.a[0] % NS];
    switch (o.kind) {
    case F_MAKE:
      make(o, r);
      break;
    case F_CALL:
    case F_DST:
    case F_FORM:
      call(o, r);
      break;
    case F_COPY: {
      Cell &s = src(o);
      if (!s.set || &s == &c)
        break;
      Mode q(M_SIM);
      c.f = s.f, c.r = s.r, c.set = true;
      break;
    }
    case F_PUT:
      if (!c.set)
        break;
      rt::lock(lock);
      {
        Mode q(M_SIM);
        box.f = c.f, box.r = c.r, box.set = true;
      }
      rt::unlock(lock);
      break;
    case F_TAKE:
      rt::lock(lock);
      if (box.set) {
        Mode q(M_SIM);
        c.f = std::move(box.f), c.r = box.r, c.set = true;
        box.f = nd::callable();
        box.set = false;
        PROBE("given to another thread");
      }
      rt::unlock(lock);
      break;
    case F_DROP:
      clear(c);
      break;
    case F_ARRAY:
      arrays(r);
      break;
    case F_BADMAKE: {
      nd::callable f;
      switch (r.below(4)) {
      case 0:
        must_fail("composing through a type that does not fit", [&] { f = nd::functional::compose(base[B_LAMBDA].f, base[B_INC].f, typed::make(scalar(r.chance(1, 2) ? F64 : I32))); });
        break;
      case 1:
        must_fail("composing a function of two arguments", [&] { f = nd::functional::compose(base[B_PTR].f, base[B_INC].f, typed::make(scalar(I32))); });
        break;
      case 2:
        must_fail("composing with a function of two arguments", [&] { f = nd::functional::compose(base[B_INC].f, base[B_PTR].f, typed::make(scalar(I32))); });
        break;
      default:
        must_fail("composing without an intermediate type", [&] { f = nd::functional::compose(base[B_INC].f, base[B_INC].f); });
      }
      Mode q(M_SIM);
      f = nd::callable();
      break;
    }
    }
  }
  void end() override {
    for (auto &m : mine)
      for (Cell &c : m)
        clear(c);
    clear(box);
    for (int i = 0; i < next; i++)
      if (ext[i].freed > 1)
        rt::violation("double-free-function", "what a function captured was released %d times", ext[i].freed);
    for (Cell &c : base)
      clear(c);
    for (int i = 0; i < next; i++)
      if (ext[i].freed != 1)
        rt::violation("owner-leaked", "what a function captured was released %d times", ext[i].freed);
    for (Arg &a : pool) {
      check_dump("source-changed", "a shared argument at the end", a.a, text(a.t, a.p));
      drop(a.a);
      a.p.reset();
    }
  }
};
Scenario *mk() { return new C07; }
Tuning tune() {
  Tuning t;
  t.callback = true;
  return t;
}
Register reg("C07", "callables", mk, tune());
} // namespace
