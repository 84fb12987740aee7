// C10: type patterns.  A reference matcher over the type model decides what a pattern matches and what its variables stand
// for; substitution has to give exactly the type with the variables replaced; functions with pattern signatures accept
// exactly the arguments which match and return the type that follows from them.
#include "dshape.h"
#include <dynd/callable.hpp>
#include <dynd/callables/base_callable.hpp>
#include <dynd/kernels/base_strided_kernel.hpp>
#include <dynd/types/dim_fragment_type.hpp>
#include <dynd/types/substitute_typevars.hpp>
using namespace dshape;

namespace {
// what a variable stands for
struct Bind {
  enum { TYPE, DIM1, DIMS, EXP, NONE } k = TYPE;
  bool symbolic = false;
  D d;                 // TYPE; DIM1: the dimension with some element
  std::vector<long> v; // DIMS: -1 is var, -9 is either var or 1; EXP
};
typedef std::map<std::string, Bind> Binds;
struct Unknown {};

int ndim(const D &d) {
  switch (d.k) {
  case FIXEDN:
  case FIXED:
  case VAR:
  case DIM:
  case TVDIM:
    return 1 + ndim(d.sub[0]);
  case TVC:
    return ndim(d.sub[0]);
  case ELL:
  case POW:
    throw Unknown();
  default:
    return 0;
  }
}
bool is_dim(const D &d) { return d.k == FIXEDN || d.k == VAR; }
int kind(const std::string &n) { // 1 bool 2 int 3 uint 4 float 5 complex 6 string 7 bytes
  if (n == "bool")
    return 1;
  if (n.compare(0, 3, "int") == 0)
    return 2;
  if (n.compare(0, 4, "uint") == 0)
    return 3;
  if (n.compare(0, 5, "float") == 0)
    return 4;
  if (n.compare(0, 7, "complex") == 0)
    return 5;
  if (n == "string")
    return 6;
  if (n == "bytes")
    return 7;
  return 0;
}
const char *const kinds[] = {"", "Bool", "Int", "UInt", "Float", "Complex", "String", "Bytes", "FixedString", "FixedBytes"};
int kind(const D &d) { return d.k == NAME ? kind(d.name) : d.k == FSTR ? 8 : d.k == FBYTES ? 9 : d.k == BYTES ? 7 : 0; }
bool match(const D &p, const D &c, Binds &b);
bool same_dim(const D &a, const D &c) { return a.k == c.k && (a.k != FIXEDN || a.n == c.n); }
bool fields(const D &p, const D &c, Binds &b) {
  if (p.variadic ? c.sub.size() < p.sub.size() : c.sub.size() != p.sub.size())
    return false;
  for (size_t i = 0; i < p.names.size(); i++)
    if (p.names[i] != c.names[i])
      return false;
  for (size_t i = 0; i < p.sub.size(); i++)
    if (!match(p.sub[i], c.sub[i], b))
      return false;
  return true;
}
// dimensions of both, aligned at the last one
bool broadcast(std::vector<long> &v, const std::vector<long> &c) {
  if (c.size() > v.size())
    v.insert(v.begin(), c.begin(), c.end() - v.size());
  else if (c.empty())
    return true;
  size_t n = std::min(c.size(), v.size()), o = v.size() - n, oc = c.size() - n;
  if (c.size() > v.size())
    o = 0;
  for (size_t i = 0; i < n; i++) {
    long &t = v[o + i], x = c[oc + i];
    if (v.size() == c.size() && oc == 0)
      x = c[i];
    if (x == -1)
      t = t == 1 || t == -9 ? -9 : t;
    else if (x == 1)
      t = t == -1 || t == -9 ? -9 : t;
    else if (t == -1 || t == 1 || t == -9)
      t = x;
    else if (t != x)
      return false;
  }
  return true;
}
bool match(const D &p, const D &c, Binds &b) {
  switch (p.k) {
  case NAME: {
    if (p.name == "Any")
      return true;
    if (p.name == "Scalar")
      return !is_dim(c);
    for (int i = 1; i < 10; i++)
      if (p.name == kinds[i]) {
        int k = kind(c);
        return i == 6 ? k == 6 || k == 8 : i == 7 ? k == 7 || k == 9 : i == k;
      }
    return canon(p) == canon(c);
  }
  case TV: {
    if (is_dim(c))
      return false;
    auto it = b.find(p.name);
    if (it == b.end()) {
      b[p.name].d = c;
      return true;
    }
    if (it->second.k != Bind::TYPE)
      throw Unknown();
    return canon(it->second.d) == canon(c);
  }
  case TVDIM: {
    if (!is_dim(c))
      return false;
    auto it = b.find(p.name);
    if (it == b.end()) {
      b[p.name].k = Bind::DIM1;
      b[p.name].d = c;
    } else if (it->second.k != Bind::DIM1)
      throw Unknown();
    else if (!same_dim(it->second.d, c))
      return false;
    return match(p.sub[0], c.sub[0], b);
  }
  case ELL: {
    int n = ndim(c) - ndim(p.sub[0]);
    const D *r = &c;
    if (n < 0 && ndim(c))
      return false;
    std::vector<long> v;
    for (int i = 0; i < n; i++) {
      v.push_back(r->k == VAR ? -1 : r->n);
      r = &r->sub[0];
    }
    if (!p.name.empty()) {
      auto it = b.find(p.name);
      if (it == b.end()) {
        b[p.name].k = Bind::DIMS;
        b[p.name].v = v;
      } else if (it->second.k != Bind::DIMS)
        throw Unknown();
      else {
        std::vector<long> &old = it->second.v;
        if (v.size() > old.size()) {
          std::vector<long> w(v.end() - old.size(), v.end());
          if (!broadcast(old, w))
            return false;
          old.insert(old.begin(), v.begin(), v.end() - w.size());
        } else {
          std::vector<long> tail(old.end() - v.size(), old.end());
          if (!broadcast(tail, v))
            return false;
          std::copy(tail.begin(), tail.end(), old.end() - tail.size());
        }
      }
    }
    return match(p.sub[0], *r, b);
  }
  case POW: {
    int e = ndim(c) - ndim(p.sub[0]);
    if (e < 0)
      return false;
    auto it = b.find(p.exp);
    if (it == b.end()) {
      b[p.exp].k = Bind::EXP;
      b[p.exp].v.assign(1, e);
    } else if (it->second.k != Bind::EXP)
      throw Unknown();
    else if (it->second.v[0] != e)
      return false;
    if (!e)
      return match(p.sub[0], c, b);
    D base;
    base.k = p.name.empty() ? FIXEDN : p.name == "var" ? VAR : p.name == "Fixed" ? FIXED : TVDIM;
    base.n = p.n;
    if (base.k == TVDIM) {
      auto it = b.find(p.name);
      if (it == b.end()) {
        b[p.name].k = Bind::DIM1;
        b[p.name].d = c;
        base = c;
      } else if (it->second.k != Bind::DIM1)
        throw Unknown();
      else
        base = it->second.d;
    }
    const D *r = &c;
    for (int i = 0; i < e; i++) {
      if (base.k == FIXED ? r->k != FIXEDN : !same_dim(base, *r))
        return false;
      r = &r->sub[0];
    }
    return match(p.sub[0], *r, b);
  }
  case FIXEDN:
  case VAR:
    return same_dim(p, c) && match(p.sub[0], c.sub[0], b);
  case FIXED:
    return c.k == FIXEDN && match(p.sub[0], c.sub[0], b);
  case DIM:
    return is_dim(c) && match(p.sub[0], c.sub[0], b);
  case OPT:
  case PTR:
    return c.k == p.k && match(p.sub[0], c.sub[0], b);
  case STRUCT:
  case TUPLE:
    return c.k == p.k && fields(p, c, b);
  case CALL: {
    if (c.k != CALL || !match(p.sub[0], c.sub[0], b))
      return false;
    auto part = [](const D &d, bool kw) {
      D o;
      o.k = kw ? STRUCT : TUPLE;
      o.sub.assign(d.sub.begin() + 1 + (kw ? d.npos : 0), kw ? d.sub.end() : d.sub.begin() + 1 + d.npos);
      if (kw)
        o.names = d.names;
      o.variadic = kw ? d.names.empty() ? d.variadic : d.kwvariadic : d.variadic;
      return o;
    };
    return fields(part(p, false), part(c, false), b) && fields(part(p, true), part(c, true), b);
  }
  case TVC: {
    if (!match(p.sub[0], c, b))
      return false;
    if (b.count(p.name) && b[p.name].k != Bind::NONE)
      throw Unknown();
    b[p.name].k = Bind::NONE;
    return true;
  }
  default:
    return canon(p) == canon(c);
  }
}
struct Refuse {};
// either: an element dimension of the result may be var or 1
D subst(const D &p, const Binds &b, bool concrete) {
  auto bound = [&](const std::string &n, int k) -> const Bind * {
    auto it = b.find(n);
    if (it == b.end()) {
      if (concrete)
        throw Refuse();
      return nullptr;
    }
    if (it->second.k != k)
      throw Refuse();
    return &it->second;
  };
  auto el = [&] { return subst(p.sub[0], b, concrete); };
  switch (p.k) {
  case NAME:
    if (concrete)
      for (const char *k : {"Any", "Scalar", "Bool", "Int", "UInt", "Float", "Complex", "String", "Bytes", "FixedString", "FixedBytes"})
        if (p.name == k)
          throw Refuse();
    return p;
  case TV:
    if (const Bind *x = bound(p.name, Bind::TYPE)) {
      if (concrete && x->symbolic)
        throw Refuse();
      return x->d;
    }
    return p;
  case TVDIM: {
    const Bind *x = bound(p.name, Bind::DIM1);
    if (x && concrete && x->symbolic)
      throw Refuse();
    D d = x ? x->d : p;
    d.sub[0] = el();
    return d;
  }
  case ELL: {
    if (p.name.empty())
      throw Refuse();
    const Bind *x = bound(p.name, Bind::DIMS);
    D d = el();
    if (!x)
      return dim(ELL, d, 0, p.name);
    for (size_t i = x->v.size(); i-- > 0;)
      d = x->v[i] == -9 ? named(TVDIM, "?") : x->v[i] < 0 ? dim(VAR, d) : dim(FIXEDN, d, x->v[i]);
    for (long v : x->v)
      if (v == -9)
        throw Unknown();
    return d;
  }
  case POW: {
    const Bind *x = bound(p.exp, Bind::EXP);
    if (x && !x->v[0])
      return el();
    D base;
    base.k = p.name.empty() ? FIXEDN : p.name == "var" ? VAR : p.name == "Fixed" ? FIXED : TVDIM;
    base.n = p.n;
    base.name = base.k == TVDIM ? p.name : "";
    if (base.k == TVDIM)
      if (const Bind *y = bound(p.name, Bind::DIM1))
        base = y->d;
    D d = el();
    if (!x) {
      D o = p;
      o.sub[0] = d;
      o.name = base.k == VAR ? "var" : base.k == FIXED ? "Fixed" : base.name;
      o.n = base.n;
      return o;
    }
    if (base.k == FIXED && concrete)
      throw Refuse();
    for (long i = 0; i < x->v[0]; i++)
      d = dim(base.k, d, base.n, base.name);
    return d;
  }
  case FIXED:
  case DIM:
    if (concrete)
      throw Refuse();
    return dim(p.k, el());
  case TVC:
    if (bound(p.name, Bind::NONE))
      return el();
    return dim(TVC, el(), 0, p.name);
  case OPT: {
    D d = el();
    if (d.k == OPT)
      throw Unknown();
    return dim(OPT, d);
  }
  case FIXEDN:
  case VAR:
  case PTR: {
    D d = p;
    d.sub[0] = el();
    return d;
  }
  case STRUCT:
  case TUPLE:
  case CALL: {
    D d = p;
    for (D &s : d.sub)
      s = subst(s, b, concrete);
    if (concrete && (p.variadic || p.kwvariadic))
      throw Refuse();
    return d;
  }
  default:
    return p;
  }
}

// ---- generation -------------------------------------------------------------------------------------------------------
D scalar(Rng &r) {
  static const char *const n[] = {"bool", "int8", "int16", "int32", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "float64", "complex[float64]", "string", "bytes"};
  switch (r.below(12)) {
  case 0: {
    D d = named(FSTR, r.chance(1, 2) ? "utf8" : "utf16");
    d.n = r.range(1, 6);
    return d;
  }
  case 1: {
    D d;
    d.k = FBYTES;
    d.n = r.range(1, 6);
    return d;
  }
  default:
    return named(NAME, r.pick(n));
  }
}
const char *const fn[] = {"x", "y", "z", "a b", "\xc3\xa9"};
D concrete(Rng &r, int depth) {
  int h = depth <= 0 ? 0 : r.below(12);
  if (h < 3)
    return scalar(r);
  if (h < 8) {
    D d = concrete(r, r.chance(1, 3) ? 0 : depth - 1);
    for (int i = r.range(1, 3); i > 0; i--)
      d = r.chance(1, 3) ? dim(VAR, d) : dim(FIXEDN, d, r.range(0, 3));
    return d;
  }
  if (h == 8)
    return dim(OPT, scalar(r));
  if (h == 9)
    return dim(PTR, scalar(r));
  D d;
  d.k = r.chance(1, 2) ? STRUCT : TUPLE;
  int n = r.below(4), f = r.below(5);
  for (int i = 0; i < n; i++) {
    d.sub.push_back(concrete(r, depth - 1));
    if (d.k == STRUCT)
      d.names.push_back(fn[(f + i) % 5]);
  }
  return d;
}
// variables of one kind have names of their own: T is a type, M one dimension, Dims several, N an exponent, C a constructor
D abstract(const D &c, Rng &r, int keep) {
  static const char *const ts[] = {"T", "T", "R", "S"}, *const ms[] = {"M", "M", "K"}, *const ds[] = {"Dims", "Dims", "E", ""}, *const ns[] = {"N", "N", "P"};
  if (r.chance(1, 14))
    return dim(TVC, abstract(c, r, keep), 0, "C");
  if (is_dim(c)) {
    if (!r.chance(keep, 10))
      switch (r.below(9)) {
      case 0:
      case 1:
      case 2: {
        const D *p = &c;
        for (int k = r.below(ndim(c) + 1); k > 0; k--)
          p = &p->sub[0];
        D el = r.chance(1, 4) ? named(NAME, "Any") : abstract(*p, r, 9);
        return el.k == ELL || el.k == POW || el.k == TVC ? el : dim(ELL, el, 0, r.pick(ds));
      }
      case 3:
      case 4: {
        const D *p = &c;
        int k = r.below(4);
        while (k-- > 0 && is_dim(*p) && same_dim(*p, c))
          p = &p->sub[0];
        D el = abstract(*p, r, 9);
        if (el.k == ELL || el.k == POW || el.k == TVC)
          return el;
        D d = dim(POW, el, c.n);
        d.name = r.chance(1, 2) ? r.pick(ms) : c.k == VAR ? "var" : r.chance(1, 2) ? "Fixed" : "";
        d.exp = r.pick(ns);
        return d;
      }
      case 5:
        return dim(TVDIM, abstract(c.sub[0], r, keep), 0, r.pick(ms));
      case 6:
        return dim(DIM, abstract(c.sub[0], r, keep));
      case 7:
        return c.k == FIXEDN ? dim(FIXED, abstract(c.sub[0], r, keep)) : dim(r.chance(1, 2) ? FIXED : VAR, abstract(c.sub[0], r, keep));
      case 8:
        return named(NAME, r.chance(1, 3) ? "Scalar" : "Any");
      }
    D d = c;
    d.sub[0] = abstract(c.sub[0], r, keep);
    if (r.chance(1, 12) && d.k == FIXEDN)
      d.n = r.range(0, 3);
    return d;
  }
  if (!r.chance(keep, 10)) {
    int k = kind(c);
    switch (r.below(8)) {
    case 0:
      return named(NAME, "Scalar");
    case 1:
      return named(NAME, r.chance(1, 2) ? "Any" : kinds[r.range(1, 9)]);
    case 2:
    case 3:
      if (k)
        return named(NAME, kinds[k == 8 && r.chance(1, 2) ? 6 : k == 9 && r.chance(1, 2) ? 7 : k]);
    // fallthrough
    case 4:
    case 5:
    case 6:
      return named(TV, r.pick(ts));
    case 7:
      return dim(ELL, named(TV, r.pick(ts)), 0, r.pick(ds));
    }
  }
  D d = c;
  bool cut = (d.k == STRUCT || d.k == TUPLE) && r.chance(1, 4);
  if (cut) {
    size_t n = r.below((int)d.sub.size() + 1);
    d.sub.resize(n);
    if (d.k == STRUCT)
      d.names.resize(n);
    d.variadic = r.chance(5, 6);
  }
  for (D &s : d.sub)
    s = abstract(s, r, keep);
  return d;
}
D function(Rng &r, int depth) {
  D d;
  d.k = CALL;
  d.sub.push_back(concrete(r, depth));
  d.npos = r.below(3);
  for (int i = 0; i < d.npos; i++)
    d.sub.push_back(concrete(r, depth));
  if (r.chance(1, 3)) {
    d.names.push_back("kw");
    d.sub.push_back(concrete(r, depth));
  }
  return d;
}
// options, pointers and tuples never contain a symbolic dimension of unknown count in a place where it is not looked for
bool fine(const D &d, bool top = true) {
  if (!top && (d.k == CALL))
    return false;
  if (d.k == OPT && (d.sub[0].k == OPT || d.sub[0].k == ELL || d.sub[0].k == POW || d.sub[0].k == TVC || (d.sub[0].k == NAME && d.sub[0].name == "Any")))
    return false;
  if (d.k == PTR && (d.sub[0].k == ELL || d.sub[0].k == POW))
    return false;
  if (d.k == ELL || d.k == POW)
    try {
      ndim(d.sub[0]);
    } catch (Unknown &) {
      return false;
    }
  for (const D &s : d.sub)
    if (!fine(s, false))
      return false;
  return true;
}
D pattern(const D &c, Rng &r) {
  int keep = r.pickl({5, 7, 8, 9});
  for (int i = 0; i < 20; i++) {
    D p = abstract(c, r, keep);
    if (fine(p))
      return p;
  }
  return c;
}

// ---- a function which only says which types it was called with -----------------------------------------------------------
struct nothing_kernel : nd::base_strided_kernel<nothing_kernel, 2> {
  void single(char *, char *const *) {}
};
class typed_callable : public nd::base_callable {
public:
  explicit typed_callable(const ndt::type &tp) : base_callable(tp) {}
  ndt::type resolve(base_callable *, char *, nd::call_graph &cg, const ndt::type &dst_tp, size_t, const ndt::type *, size_t, const nd::array *,
                    const std::map<std::string, ndt::type> &tp_vars) {
    cg.emplace_back([](nd::kernel_builder &kb, kernel_request_t kernreq, char *, const char *, size_t, const char *const *) { kb.emplace_back<nothing_kernel>(kernreq); });
    return ndt::substitute(dst_tp, tp_vars, true);
  }
};

enum { P_MATCH, P_MATCH2, P_SUBST, P_CALL, P_TAKE, P_PUT, NK };
const char *const names[] = {"match", "match several", "substitute", "call", "take a shared type", "share a type"};
enum { NS = 4 };
struct Cell {
  ndt::type t;
  std::shared_ptr<D> d;
};
struct C10 : Scenario {
  Cell pats[NS], cands[NS];
  rt::SimLock lock;
  int depth = 2;

  void generate(Rng &r, Plan &p) override {
    p.nf = r.chance(1, 4) ? 1 : r.range(2, 4);
    int n = r.range(6, 24);
    static const int mix[] = {P_MATCH, P_MATCH, P_MATCH2, P_MATCH2, P_SUBST, P_SUBST, P_SUBST, P_CALL, P_CALL, P_PUT, P_TAKE};
    for (int i = 0; i < n; i++)
      p.add(r.range(1, p.nf), r.pick(mix), r.below(30000), r.below(30000), r.below(30000), r.below(NS), r.below(2), r.below(6));
    p.params[0] = r.range(0, 3);
    p.params[1] = r.below(30000);
    p.params[2] = r.below(30000);
  }
  std::string show(const Plan &, const Op &o) override { return fmt("%s r=%d,%d,%d slot %d", names[o.kind % NK], o.a[0], o.a[1], o.a[2], o.a[3]); }
  const char *opname(const Op &o) override { return names[o.kind % NK]; }
  static std::string text(const ndt::type &t) { // without faults
    struct Buf : std::streambuf {
      std::string got;
      int overflow(int c) override {
        if (c != EOF)
          add((const char *)&c, 1);
        return c;
      }
      std::streamsize xsputn(const char *p, std::streamsize n) override {
        add(p, n);
        return n;
      }
      void add(const char *p, size_t n) {
        uint32_t m = rt::set_mode(M_HOST);
        got.append(p, n);
        rt::set_mode(m);
      }
    } s;
    {
      Mode q(M_PEEK);
      std::ostream o(&s);
      o << t;
    }
    return s.got;
  }
  void begin(const Plan &p) override {
    Rng r(((uint64_t)p.params[1] << 20) ^ p.params[2]);
    depth = p.params[0];
    for (int i = 0; i < NS; i++) {
      cands[i].d = std::make_shared<D>(concrete(r, depth));
      pats[i].d = std::make_shared<D>(pattern(*cands[i].d, r));
      Mode q(M_QUIET);
      cands[i].t = build(*cands[i].d);
      pats[i].t = build(*pats[i].d);
    }
  }
  typedef std::map<std::string, ndt::type> Vars;
  struct Pair {
    D p, c;
    ndt::type pt, ct;
  };
  void make(Rng &r, const Op &o, Pair &x, const D *like) {
    bool shared = o.a[4] && r.chance(1, 2);
    if (shared) {
      Cell &p = pats[(unsigned short)o.a[3] % NS], &c = cands[r.chance(3, 4) ? (unsigned short)o.a[3] % NS : r.below(NS)];
      rt::lock(lock);
      x.p = *p.d, x.c = *c.d;
      {
        Mode q(M_SIM);
        x.pt = p.t, x.ct = c.t;
      }
      rt::unlock(lock);
      PROBE("types shared by the threads");
      return;
    }
    D c = like && r.chance(2, 3) ? *like : r.chance(1, 8) ? function(r, depth - 1) : concrete(r, r.range(0, depth));
    x.p = pattern(c, r);
    x.c = r.chance(1, 6) ? concrete(r, depth) : c;
    if (r.chance(1, 4)) { // near misses
      D *q = &x.c;
      while (!q->sub.empty() && r.chance(3, 4))
        q = &q->sub[r.below((int)q->sub.size())];
      if (is_dim(*q))
        q->n = q->k == VAR ? (q->k = FIXEDN, r.range(0, 3)) : r.range(0, 3);
      else if (q->k == NAME)
        *q = r.chance(1, 4) ? dim(FIXEDN, scalar(r), r.range(0, 3)) : scalar(r);
      if (!fine(x.c) || bad_option(x.c))
        x.c = c;
    }
    must_do("making types", [&] {
      x.pt = build(x.p);
      x.ct = build(x.c);
    });
  }
  static bool bad_option(const D &d) {
    if ((d.k == OPT || d.k == PTR) && (is_dim(d.sub[0]) || d.sub[0].k == OPT))
      return true;
    for (const D &s : d.sub)
      if (bad_option(s))
        return true;
    return false;
  }
  // the library's variables have to be those of the model
  void check_vars(const Vars &v, const Binds &b, const std::string &why) {
    std::vector<std::string> got, want;
    for (auto &kv : v) {
      std::string n;
      {
        Mode h(M_HOST);
        n = kv.first;
      }
      auto it = b.find(n);
      if (it == b.end())
        rt::violation("wrong-variables", "%s bound a variable %s that does not occur: %s", why.c_str(), n.c_str(), text(kv.second).c_str());
      const Bind &x = it->second;
      std::string g = text(kv.second), w;
      switch (x.k) {
      case Bind::TYPE:
        w = canon(x.d);
        break;
      case Bind::NONE:
        w = "void";
        break;
      case Bind::DIM1:
        w = x.d.k == VAR ? "var * " : std::to_string(x.d.n) + " * ";
        g = g.substr(0, w.size());
        break;
      case Bind::EXP:
        w = std::to_string(x.v[0]) + " * void";
        break;
      case Bind::DIMS: {
        Mode q(M_PEEK);
        if (kv.second.get_id() != dim_fragment_id)
          break;
        const ndt::dim_fragment_type *f = kv.second.extended<ndt::dim_fragment_type>();
        const intptr_t *t = f->get_tagged_dims();
        Mode h(M_HOST);
        g = "", w = "";
        for (intptr_t i = 0; i < f->get_ndim(); i++)
          g += std::to_string((long)t[i]) + " ";
        size_t i = 0;
        for (long l : x.v) {
          if (l == -9 && i < (size_t)f->get_ndim())
            l = t[i] == 1 ? 1 : -1;
          w += std::to_string(l) + " ";
          i++;
        }
        break;
      }
      }
      if (g != w)
        rt::violation("wrong-variables", "%s: %s stands for %.200s, has to be %.200s", why.c_str(), n.c_str(), g.c_str(), w.c_str());
    }
    if (v.size() != b.size())
      rt::violation("wrong-variables", "%s bound %zu variables of %zu", why.c_str(), v.size(), b.size());
  }
  static void forget(Vars &v) {
    Mode q(M_SIM);
    v.clear();
  }
  // matches all pairs in order; 1 yes, 0 no, -1 the model does not say
  int match_all(std::vector<Pair> &l, Vars &v, Binds &b, std::string &why) {
    int want = 1;
    why = "matching";
    for (Pair &x : l)
      why += " " + canon(x.p) + " with " + canon(x.c) + ";";
    try {
      for (Pair &x : l)
        if (!match(x.p, x.c, b)) {
          want = 0;
          break;
        }
    } catch (Unknown &) {
      want = -1;
    }
    bool got = false;
    must_do(
        "matching types", [&] {
          v.clear();
          got = true;
          for (Pair &x : l)
            if (!x.pt.match(x.ct, v)) {
              got = false;
              break;
            }
        },
        [&] { forget(v); });
    if (want >= 0 && got != (want == 1))
      rt::violation("wrong-match", "%s says %s", why.c_str(), got ? "yes" : "no");
    if (want == 1)
      check_vars(v, b, why);
    PROBE(want == 1 ? "matched" : want == 0 ? "did not match" : "no opinion");
    if (l.size() == 1 && want >= 0) {
      bool m = false;
      must_do("matching types", [&] { m = l[0].pt.match(l[0].ct); });
      if (m != got)
        rt::violation("wrong-match", "%s says %s the second time", why.c_str(), m ? "yes" : "no");
    }
    return want == 1 && got ? 1 : want == 0 ? 0 : -1;
  }
  void check_subst(const D &p, const ndt::type &pt, const Vars &v, const Binds &b, bool conc, const std::string &why) {
    std::string want;
    int v0 = 1;
    try {
      want = canon(subst(p, b, conc));
    } catch (Refuse &) {
      v0 = 0;
    } catch (Unknown &) {
      v0 = -1;
    }
    ndt::type t;
    Outcome o;
    for (int round = 0; round < 2; round++) {
      o = attempt([&] { t = ndt::substitute(pt, v, conc); });
      if (o.ok || !rt::op_fired_mask() || o.type != "std::bad_alloc")
        break;
      rt::op_faults_off();
      PROBE("again after a fault");
    }
    if (v0 >= 0 && o.ok != (v0 == 1))
      rt::violation(o.ok ? "accepted" : "refused", "%s, substituting into %.300s%s: %s", why.c_str(), canon(p).c_str(), conc ? " concretely" : "", o.ok ? text(t).c_str() : (o.type + ": " + o.what).c_str());
    if (o.ok && v0 == 1 && text(t) != want)
      rt::violation("wrong-type", "%s, substituting into %.300s%s gives %.300s instead of %.300s", why.c_str(), canon(p).c_str(), conc ? " concretely" : "", text(t).c_str(), want.c_str());
    if (o.ok && v0 == 1) {
      bool sym = true;
      {
        Mode q(M_PEEK);
        sym = t.is_symbolic();
      }
      if (conc && sym)
        rt::violation("wrong-type", "%s, substituting into %.300s gives %.300s which is symbolic", why.c_str(), canon(p).c_str(), text(t).c_str());
      PROBE("substituted");
    }
    if (!o.ok)
      PROBE("substitution refused");
    Mode q(M_SIM);
    t = ndt::type();
  }
  // bind one of the variables to something that is not concrete itself
  void forge(Rng &r, Vars &v, Binds &b, std::string &why) {
    std::vector<std::string> l;
    for (auto &x : b)
      if ((x.second.k == Bind::TYPE || x.second.k == Bind::DIM1) && v.count(x.first))
        l.push_back(x.first);
    if (l.empty())
      return;
    const std::string &n = l[r.below(l.size())];
    Bind &x = b[n];
    D d;
    if (x.k == Bind::TYPE) {
      static const char *names[] = {"Int", "Any", "Scalar", "UInt", "Float"};
      D s = r.chance(1, 2) ? named(NAME, names[r.below(5)]) : named(TV, "Zz");
      if (r.chance(1, 3)) {
        d.k = TUPLE;
        d.sub.push_back(s);
        d.npos = 1;
      } else
        d = s;
    } else
      d = r.chance(1, 2) ? dim(FIXED, named(NAME, "int32")) : dim(FIXEDN, named(NAME, "Int"), 3);
    x.d = d;
    x.symbolic = true;
    why += ", " + n + " then bound to " + canon(d);
    ndt::type t;
    must_do("make a symbolic type", [&] { t = build(d); });
    PROBE("variable bound to something symbolic");
    Mode q(M_SIM);
    v[n] = t;
    t = ndt::type();
  }
  // only what empty() can make
  static bool holds(const D &d) {
    if (d.k == PTR || d.k == CALL || d.k == OPT)
      return false;
    if ((d.k == STRUCT || d.k == TUPLE) && d.variadic)
      return false;
    for (const D &s : d.sub)
      if (!holds(s))
        return false;
    return true;
  }
  void exec(const Op &o, int) override {
    Rng r(((uint64_t)(unsigned short)o.a[0] << 32) ^ ((uint64_t)(unsigned short)o.a[1] << 16) ^ (unsigned short)o.a[2]);
    std::vector<Pair> l(o.kind == P_MATCH ? 1 : o.kind == P_MATCH2 ? r.range(2, 3) : r.range(1, 2));
    Vars v;
    Binds b;
    std::string why;
    switch (o.kind) {
    case P_MATCH:
    case P_MATCH2:
      for (Pair &x : l)
        make(r, o, x, &x == &l[0] ? nullptr : &l[0].c);
      match_all(l, v, b, why);
      break;
    case P_SUBST: {
      for (Pair &x : l)
        make(r, o, x, &x == &l[0] ? nullptr : &l[0].c);
      if (match_all(l, v, b, why) != 1)
        break;
      Pair y;
      if (r.chance(1, 2)) {
        y.p = l[0].p;
        Mode q(M_SIM);
        y.pt = l[0].pt;
      } else
        make(r, o, y, &l[0].c);
      if (r.chance(1, 3))
        forge(r, v, b, why);
      check_subst(y.p, y.pt, v, b, r.chance(2, 3), why);
      Mode q(M_SIM);
      y.pt = y.ct = ndt::type();
      break;
    }
    case P_CALL: {
      Pair ret;
      for (Pair &x : l) {
        make(r, o, x, &x == &l[0] ? nullptr : &l[0].c);
        if (!holds(x.c))
          x.c = scalar(r);
      }
      ret.p = r.chance(1, 2) ? l[0].p : pattern(l[0].c, r);
      bool dst = r.chance(1, 4);
      ret.c = l.back().c;
      int want = 1;
      std::string res;
      try {
        for (Pair &x : l)
          if (want && !match(x.p, x.c, b))
            want = 0;
        if (want && dst && !match(ret.p, ret.c, b))
          want = 0;
        if (want && !dst) {
          D d = subst(ret.p, b, true);
          if (!holds(d))
            throw Unknown();
          res = canon(d);
        } else if (want)
          res = canon(ret.c);
      } catch (Refuse &) {
        want = 0;
      } catch (Unknown &) {
        want = -1;
      }
      if (want < 0)
        break;
      why = "a function (";
      for (Pair &x : l)
        why += canon(x.p) + ", ";
      why += ") -> " + canon(ret.p) + " called with (";
      for (Pair &x : l)
        why += canon(x.c) + ", ";
      why += dst ? ") and destination " + canon(ret.c) : ")";
      nd::callable f;
      std::vector<nd::array> args(l.size());
      nd::array out, got;
      must_do("making a function", [&] {
        std::vector<ndt::type> t;
        for (Pair &x : l)
          t.push_back(build(x.p));
        f = nd::make_callable<typed_callable>(ndt::make_type<ndt::callable_type>(build(ret.p), ndt::make_type<ndt::tuple_type>(t.size(), t.data()), ndt::make_type<ndt::struct_type>()));
        for (size_t i = 0; i < l.size(); i++)
          args[i] = nd::empty(build(l[i].c));
        if (dst)
          out = nd::empty(build(ret.c));
      });
      Outcome oc;
      for (int round = 0; round < 2; round++) {
        oc = attempt([&] {
          if (dst) {
            std::pair<const char *, nd::array> kw("dst", out);
            got = f.call(args.size(), args.data(), 1, &kw);
          } else
            got = f.call(args.size(), args.data(), 0, nullptr);
        });
        if (oc.ok || !rt::op_fired_mask() || oc.type != "std::bad_alloc")
          break;
        rt::op_faults_off();
        PROBE("again after a fault");
      }
      if (oc.ok != (want == 1))
        rt::violation(oc.ok ? "accepted" : "refused", "%s: %s", why.c_str(), oc.ok ? text(got.get_type()).c_str() : (oc.type + ": " + oc.what).c_str());
      if (oc.ok && text(got.get_type()) != res)
        rt::violation("wrong-type", "%s gives an array of type %.300s, has to be %.300s", why.c_str(), text(got.get_type()).c_str(), res.c_str());
      PROBE(oc.ok ? "called" : "a call was refused");
      Mode q(M_SIM);
      got = out = nd::array();
      args.clear();
      args.shrink_to_fit();
      f = nd::callable();
      break;
    }
    case P_PUT: {
      Pair x;
      Op own = o;
      own.a[4] = 0;
      make(r, own, x, nullptr);
      if (x.c.k == CALL) {
        Mode q(M_SIM);
        x.pt = x.ct = ndt::type();
        break;
      }
      auto dp = std::make_shared<D>(x.p), dc = std::make_shared<D>(x.c);
      rt::lock(lock);
      Cell &p = pats[(unsigned short)o.a[3] % NS], &c = cands[(unsigned short)o.a[3] % NS];
      {
        Mode q(M_SIM);
        p.t = std::move(x.pt);
        c.t = std::move(x.ct);
        x.pt = x.ct = ndt::type();
      }
      p.d = dp, c.d = dc;
      rt::unlock(lock);
      break;
    }
    case P_TAKE: {
      Pair x;
      Op own = o;
      own.a[4] = 1;
      make(r, own, x, nullptr);
      if (text(x.pt) != canon(x.p) || text(x.ct) != canon(x.c))
        rt::violation("wrong-type", "a shared type changed: %.300s, has to be %.300s", text(x.pt).c_str(), canon(x.p).c_str());
      Mode q(M_SIM);
      x.pt = x.ct = ndt::type();
      break;
    }
    }
    forget(v);
    Mode q(M_SIM);
    for (Pair &x : l)
      x.pt = x.ct = ndt::type();
  }
  void end() override {
    for (int i = 0; i < NS; i++)
      for (Cell *c : {&pats[i], &cands[i]}) {
        if (text(c->t) != canon(*c->d))
          rt::violation("wrong-type", "a shared type changed: %.300s, has to be %.300s", text(c->t).c_str(), canon(*c->d).c_str());
        Mode q(M_SIM);
        c->t = ndt::type();
      }
  }
};
Register reg("C10", "patterns", []() -> Scenario * { return new C10; }, Tuning());
} // namespace
