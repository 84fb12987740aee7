#include "numeric.h"
#include <cfloat>
#include <complex>
#include <dynd/arithmetic.hpp>
#include <dynd/comparison.hpp>
#include <dynd/math.hpp>

namespace numeric {
const char *const opnames[NOP] = {"add", "subtract", "multiply", "divide", "mod", "pow", "bitwise_and", "bitwise_or", "bitwise_xor", "left_shift",
                                  "right_shift", "logical_and", "logical_or", "logical_xor", "less", "less_equal", "equal", "not_equal", "greater_equal",
                                  "greater", "plus", "minus", "bitwise_not", "logical_not", "sqrt", "cbrt", "sin", "cos", "tan", "exp"};
const nd::callable &fn(int op) {
  static const nd::callable *const f[NOP] = {&nd::add, &nd::subtract, &nd::multiply, &nd::divide, &nd::mod, &nd::pow, &nd::bitwise_and, &nd::bitwise_or,
                                             &nd::bitwise_xor, &nd::left_shift, &nd::right_shift, &nd::logical_and, &nd::logical_or, &nd::logical_xor,
                                             &nd::less, &nd::less_equal, &nd::equal, &nd::not_equal, &nd::greater_equal, &nd::greater, &nd::plus,
                                             &nd::minus, &nd::bitwise_not, &nd::logical_not, &nd::sqrt, &nd::cbrt, &nd::sin, &nd::cos, &nd::tan, &nd::exp};
  return *f[op];
}
template <bool B> struct flag {};

template <class A, class B> static void ints(int op, Res &r, const V *x, const V *y, flag<true>) { // both integral
  typedef decltype(A() + B()) C;
  typedef decltype(+A()) PA;
  A a = x ? get<A>(x) : A();
  B b = y ? get<B>(y) : B();
  bool have = x != nullptr;
  C p = (C)a, q = (C)b, c = 0;
  bool sg = std::numeric_limits<C>::is_signed;
  r.ok = true;
  r.k = kind_of<C>();
  switch (op) {
  case MOD:
  case DIV:
    if (!have)
      return;
    if (q == 0) {
      r.zero = true;
      return;
    }
    if (sg && q == (C)-1 && p == std::numeric_limits<C>::min()) {
      r.ub = true;
      return;
    }
    c = op == MOD ? p % q : p / q;
    break;
  case AND:
    c = p & q;
    break;
  case OR:
    c = p | q;
    break;
  case XOR:
    c = p ^ q;
    break;
  case SHL:
  case SHR: {
    r.k = kind_of<PA>();
    if (!have)
      return;
    PA pa = a;
    if (b < 0 || (unsigned long long)b >= 8 * sizeof(PA) || (op == SHL && (pa < 0 || (sizeof(PA) * 8 - 1 > 0 && (__int128)pa << b > (__int128)std::numeric_limits<PA>::max() && std::numeric_limits<PA>::is_signed))) ||
        (op == SHR && pa < 0)) {
      r.ub = true;
      return;
    }
    r.v = box<PA>(op == SHL ? pa << b : pa >> b);
    return;
  }
  }
  if (have)
    r.v = box<C>(c);
}
template <class A, class B> static void ints(int, Res &, const V *, const V *, flag<false>) {}

template <class A, class B> static void arith(int op, Res &r, const V *x, const V *y) {
  typedef typename std::common_type<A, B>::type C;
  typedef decltype(A() + B()) S;
  A a = x ? get<A>(x) : A();
  B b = y ? get<B>(y) : B();
  bool have = x != nullptr;
  bool whole = std::is_integral<A>::value && std::is_integral<B>::value;
  switch (op) {
  case LT:
  case LE:
  case EQ:
  case NE:
  case GE:
  case GT: {
    C p = (C)a, q = (C)b;
    r.ok = true, r.k = BOOL;
    if (have)
      r.v = box<bool>(op == LT ? p < q : op == LE ? p <= q : op == EQ ? p == q : op == NE ? p != q : op == GE ? p >= q : p > q);
    return;
  }
  case LAND:
  case LOR:
  case LXOR:
    r.ok = true, r.k = op == LXOR ? I32 : BOOL; // the exclusive one has the type of C++'s bool ^ bool
    if (have)
      r.v = box<bool>(op == LAND ? a && b : op == LOR ? a || b : !a != !b);
    return;
  case POW:
    return;
  case ADD:
  case SUB:
  case MUL: {
    r.ok = true, r.k = kind_of<S>();
    if (!have)
      return;
    if (std::is_integral<S>::value) {
      __int128 p = (S)a, q = (S)b, c = op == ADD ? p + q : op == SUB ? p - q : 0;
      if (op == MUL && std::numeric_limits<S>::is_signed && __builtin_mul_overflow(p, q, &c))
        r.ub = true;
      if (std::numeric_limits<S>::is_signed && (c > std::numeric_limits<S>::max() || c < std::numeric_limits<S>::min()))
        r.ub = true;
      if (r.ub)
        return;
      unsigned long long u = op == ADD ? (unsigned long long)p + (unsigned long long)q : op == SUB ? (unsigned long long)p - (unsigned long long)q : (unsigned long long)p * (unsigned long long)q;
      r.v = box<S>((S)u);
    } else {
      S p = (S)a, q = (S)b;
      r.v = box<S>(op == ADD ? p + q : op == SUB ? p - q : p * q);
    }
    return;
  }
  case DIV:
    if (!whole) {
      r.ok = true, r.k = kind_of<S>();
      S p = (S)a, q = (S)b;
      if (!have)
        return;
      if (q == 0)
        r.ub = true; // the sign of a nan is not defined
      else
        r.v = box<S>(p / q);
      return;
    }
  // fall through
  default:
    ints<A, B>(op, r, x, y, flag<std::is_integral<A>::value && std::is_integral<B>::value>());
  }
}
static void pow(Res &r, K a, const V *x, K b, const V *y) {
  if (a < F32 || b < F32 || a > F64 || b > F64)
    return;
  r.ok = true;
  r.k = F64; // the pow of C
  if (!x)
    return;
  r.v = box<double>(std::pow(x->d, y->d));
  if (!std::isfinite(r.v->d))
    r.ub = true;
}
template <class F> static std::complex<F> cval(K k, const V *v) {
  return std::complex<F>(cplx(k) ? (F)v->d : with(k, [&](auto z) { return (F)get<decltype(z)>(v); }), cplx(k) ? (F)v->im : F());
}
template <class F> static P cbox(std::complex<F> z) {
  P p = box<F>(z.real());
  p->im = z.imag();
  return p;
}
template <class F> static void complex_binary(int op, Res &r, K a, const V *x, K b, const V *y) {
  typedef std::complex<F> C;
  C p = cval<F>(a, x), q = cval<F>(b, y);
  C res;
  switch (op) {
  case ADD:
    res = p + q;
    break;
  case SUB:
    res = p - q;
    break;
  case MUL:
    res = C(p.real() * q.real() - p.imag() * q.imag(), p.real() * q.imag() + p.imag() * q.real());
    break;
  case DIV: {
    F n = q.real() * q.real() + q.imag() * q.imag();
    if (n == 0)
      r.ub = true;
    else
      res = C((p.real() * q.real() + p.imag() * q.imag()) / n, (p.imag() * q.real() - p.real() * q.imag()) / n);
    break;
  }
  default:
    r.v = box<bool>((p == q) == (op == EQ));
    return;
  }
  // no negative zeros: their sign depends on the formula
  r.v = cbox<F>(C(res.real() + F(), res.imag() + F()));
  if (!std::isfinite(r.v->d) || !std::isfinite(r.v->im))
    r.ub = true;
}
static Res complex_binary(int op, K a, const V *x, K b, const V *y) {
  Res r;
  if (a > C128 || b > C128 || a == BOOL || b == BOOL || !(op <= DIV || op == EQ || op == NE))
    return r;
  bool cmp = op == EQ || op == NE;
  if (cmp && a != b)
    return r;
  bool wide = a == F64 || a == C128 || b == F64 || b == C128;
  r.ok = true;
  r.k = cmp ? BOOL : wide ? C128 : C64;
  if (x && wide)
    complex_binary<double>(op, r, a, x, b, y);
  else if (x)
    complex_binary<float>(op, r, a, x, b, y);
  return r;
}
Res binary(int op, K a, const V *x, K b, const V *y) {
  Res r;
  if (cplx(a) || cplx(b))
    return complex_binary(op, a, x, b, y);
  if (a > F64 || b > F64)
    return r;
  if (op == POW) {
    pow(r, a, x, b, y);
    return r;
  }
  with(a, [&](auto p) { return with(b, [&](auto q) { arith<decltype(p), decltype(q)>(op, r, x, y); return 0; }); });
  if (r.v && r.k >= F32 && r.k <= F64 && !std::isfinite(r.v->d))
    r.ub = true;
  return r;
}
static bool flt(K k) { return k == F32 || k == F64; }
static P box_long(K k, long double x) {
  return with(k, [&](auto z) { return box<decltype(z)>((decltype(z))x); });
}
static P convert_complex(K d, K s, const V &x, int mode, bool &ub) {
  bool check = mode >= 1 && mode <= 3;
  if (mode == 3 && (std::isnan(x.d) || std::isnan(x.im))) // not equal to itself
    ub = true;
  if (!cplx(d)) {
    if (d == BOOL) {
      if (!check)
        return box<bool>(x.d != 0 || x.im != 0);
      return x.im == 0 && (x.d == 0 || x.d == 1) ? box<bool>(x.d == 1) : P();
    }
    if (check && x.im != 0) // a nan is not 0
      return P();
    return convert(d, part(s), x, mode, ub);
  }
  P im;
  if (cplx(s)) {
    V y;
    y.d = x.im;
    im = convert(part(d), part(s), y, mode, ub);
    if (!im)
      return P();
  }
  P p = convert(part(d), cplx(s) ? part(s) : s, x, mode, ub);
  if (p && im)
    p->im = im->d;
  return p;
}
P convert(K d, K s, const V &x, int mode, bool &ub) {
  if (cplx(d) || cplx(s))
    return convert_complex(d, s, x, mode, ub);
  bool check = mode >= 1 && mode <= 3;
  long double v = flt(s) ? (long double)x.d : s == U64 ? (long double)(unsigned long long)x.i : (long double)x.i;
  if (d == BOOL) {
    if (!check || s == BOOL)
      return box<bool>(!(v == 0));
    return v == 0 || v == 1 ? box<bool>(v == 1) : P();
  }
  if (!flt(d))
    return with(d, [&](auto z) -> P {
      typedef decltype(z) A;
      long double mn = std::numeric_limits<A>::min(), mx = std::numeric_limits<A>::max();
      if (!flt(s)) {
        if (check && (v < mn || v > mx))
          return P();
        return box<A>((A)x.i);
      }
      if (!check) {
        if (!(v > mn - 1 && v < mx + 1)) {
          ub = true;
          return box<A>(0);
        }
        return box<A>((A)truncl(v));
      }
      if (!(v >= mn && v <= mx))
        return P();
      if (mode != 1 && v != truncl(v))
        return P();
      return box<A>((A)truncl(v));
    });
  if (!flt(s)) {
    P p = box_long(d, v);
    if (mode == 3 && (long double)p->d != v)
      return P();
    return p;
  }
  if (d == F64 || s == F32)
    return box<double>(x.d);
  bool beyond = std::isfinite(x.d) && fabs(x.d) > FLT_MAX;
  if (beyond && check)
    return P();
  if (beyond || (mode == 3 && std::isnan(x.d)))
    ub = true;
  if (beyond)
    return box<double>(0);
  P p = box<float>((float)x.d);
  if (mode == 3 && p->d != x.d && !ub)
    return P();
  return p;
}
template <class A> static void un(int op, Res &r, const V *x, flag<true>) { // integral
  typedef decltype(+A()) PA;
  A a = x ? get<A>(x) : A();
  r.ok = true, r.k = kind_of<PA>();
  if (op == BNOT && x)
    r.v = box<PA>((PA)~a);
  if (op == SQRT || op == CBRT)
    r.ok = false;
}
template <class A> static void un(int op, Res &r, const V *x, flag<false>) {
  A a = x ? get<A>(x) : A();
  if (op == BNOT)
    return;
  r.ok = true, r.k = kind_of<A>();
  if (x)
    r.v = box<A>(op == SQRT ? std::sqrt(a) : std::cbrt(a));
  if (op == SQRT && a < 0)
    r.ub = true;
}
Res unary(int op, K k, const V *x) {
  Res r;
  if (cplx(k) && (op == PLUS || op == MINUS)) {
    r.ok = true, r.k = k;
    if (x) {
      r.v = box<double>(op == PLUS ? x->d : -x->d);
      r.v->im = op == PLUS ? x->im : -x->im;
    }
    return r;
  }
  if (op >= SIN) {
    r.ok = k == F64, r.k = F64;
    if (r.ok && x)
      r.v = box<double>(op == SIN ? std::sin(x->d) : op == COS ? std::cos(x->d) : op == TAN ? std::tan(x->d) : std::exp(x->d));
    return r;
  }
  if (k > F64)
    return r;
  if (k == BOOL && op != LNOT && op != SQRT && op != CBRT) { // bool1 has operators of its own
    r.ok = r.ub = true;
    return r;
  }
  with(k, [&](auto p) {
    typedef decltype(p) A;
    typedef decltype(+A()) PA;
    A a = x ? get<A>(x) : A();
    if (op == LNOT) {
      r.ok = true, r.k = BOOL;
      if (x)
        r.v = box<bool>(!a);
    } else if (op == PLUS || op == MINUS) {
      r.ok = true, r.k = kind_of<PA>();
      if (op == MINUS && std::numeric_limits<PA>::is_signed && std::is_integral<PA>::value && (PA)a == std::numeric_limits<PA>::min())
        r.ub = true;
      else if (x)
        r.v = box<PA>((PA)(op == PLUS ? +(PA)a : std::is_integral<PA>::value ? (PA)(0 - (unsigned long long)(PA)a) : -(PA)a));
    } else
      un<A>(op, r, x, flag<std::is_integral<A>::value>());
    return 0;
  });
  return r;
}
P number(Rng &r, K k) {
  if (cplx(k)) {
    P p = box<double>((r.below(100) - 50) / 4.0);
    p->im = (r.below(100) - 50) / 4.0;
    return p;
  }
  return with(k, [&](auto z) {
    typedef decltype(z) A;
    typedef std::numeric_limits<A> L;
    int c = r.below(16);
    if (std::is_same<A, bool>::value)
      return box<A>((A)r.below(2));
    if (std::is_floating_point<A>::value)
      return box<A>((A)((r.below(400) - 200) / 8.0));
    if (c < 5)
      return box<A>((A)r.below(4));
    if (c == 5)
      return box<A>(L::max());
    if (c == 6)
      return box<A>((A)(L::min() + 1));
    if (c == 7 && L::is_signed)
      return box<A>((A)-1);
    return box<A>((A)(r.below(100) - (L::is_signed ? 50 : 0)));
  });
}
bool is_sentinel(K k, const V &v) {
  return k > BOOL && k < F32 && with(k, [&](auto z) {
    typedef std::numeric_limits<decltype(z)> L;
    return (decltype(z))v.i == (L::is_signed ? L::min() : L::max());
  });
}
P tree(Rng &r, const T &t, int varmax) {
  if (t.k != FIXED && t.k != VAR && t.k != OPT)
    return number(r, t.k);
  P p(new V());
  p->unset = false;
  if (t.k == OPT) {
    p->na = r.chance(1, 3);
    do
      p->v = {number(r, t.sub[0].k)};
    while (is_sentinel(t.sub[0].k, *p->v[0]));
    return p;
  }
  int n = t.k == FIXED ? t.n : varmax;
  for (int i = 0; i < n; i++)
    p->v.push_back(tree(r, t.sub[0], varmax));
  return p;
}
T redtype(const T &t, const T &d) {
  if (t.k != FIXED && t.k != VAR)
    return d;
  T o;
  o.k = t.k, o.n = t.n;
  o.sub.push_back(redtype(t.sub[0], d));
  return o;
}
static std::vector<T> strip(const std::vector<T> &a, int nd, bool part[]) {
  std::vector<T> o;
  for (size_t i = 0; i < a.size(); i++) {
    part[i] = ndim(a[i]) == nd;
    o.push_back(part[i] ? a[i].sub[0] : a[i]);
  }
  return o;
}
bool result_type(const Elem &e, const std::vector<T> &a, T &out) {
  int nd = 0;
  for (auto &t : a)
    nd = std::max(nd, ndim(t));
  if (!nd)
    return e.type(a, out);
  bool part[8], var = false;
  std::vector<T> sub = strip(a, nd, part);
  int n = 1;
  for (size_t i = 0; i < a.size(); i++)
    if (part[i]) {
      if (a[i].k == VAR)
        var = true;
      else if (a[i].n != 1) {
        if (n != 1 && n != a[i].n)
          return false;
        n = a[i].n;
      }
    }
  T el;
  if (!result_type(e, sub, el))
    return false;
  out = dim(n == 1 && var ? -1 : n, el);
  return true;
}
bool accepts(const T &d, const std::vector<T> &a) {
  int nd = ndim(d), ns = 0;
  for (auto &t : a)
    ns = std::max(ns, ndim(t));
  if (ns > nd)
    return false;
  if (!nd)
    return true;
  bool part[8];
  std::vector<T> sub = strip(a, nd, part);
  int n = d.k == FIXED ? d.n : 1;
  for (size_t i = 0; i < a.size(); i++)
    if (part[i] && a[i].k == FIXED && a[i].n != 1) {
      if (d.k == FIXED ? a[i].n != d.n : false)
        return false;
      n = a[i].n;
    }
  return accepts(d.sub[0], sub);
}
P apply(const Elem &e, const T &rt, const std::vector<T> &ts, const std::vector<P> &vs, const P &old, Ev &ev) {
  int nd = ndim(rt);
  if (!nd) {
    std::vector<const V *> a;
    for (auto &p : vs)
      a.push_back(p.get());
    bool ub = false;
    P v = e.value(ts, a, ub);
    if (ub)
      ev.ub = true;
    if (!v) {
      ev.err = true;
      v = old ? clone(rt, old) : blank(rt);
    }
    return v;
  }
  bool part[8];
  std::vector<T> sub = strip(ts, nd, part);
  bool fixedsize = rt.k == FIXED || (old && !old->unset);
  int n = rt.k == FIXED ? rt.n : fixedsize ? (int)old->v.size() : 1;
  for (size_t i = 0; i < ts.size(); i++)
    if (part[i]) {
      int m = vs[i]->v.size();
      if (m == 1 || m == n)
        continue;
      if (!fixedsize && n == 1)
        n = m;
      else {
        ev.err = true;
        return old ? clone(rt, old) : blank(rt);
      }
    }
  P p(new V());
  p->unset = false;
  for (int j = 0; j < n; j++) {
    std::vector<P> el;
    for (size_t i = 0; i < ts.size(); i++)
      el.push_back(part[i] ? vs[i]->v[vs[i]->v.size() == 1 ? 0 : j] : vs[i]);
    e.at.push_back(j);
    p->v.push_back(apply(e, rt.sub[0], sub, el, old && (rt.k == FIXED || !old->unset) ? old->v[j] : P(), ev));
    e.at.pop_back();
  }
  return p;
}
bool Arith::type(const std::vector<T> &a, T &out) const {
  bool o = false;
  std::vector<K> k;
  for (auto &t : a) {
    o |= t.k == OPT;
    k.push_back(t.k == OPT ? t.sub[0].k : t.k);
  }
  if (o && a.size() == 1)
    return false;
  Res r = a.size() == 2 ? binary(op, k[0], nullptr, k[1], nullptr) : unary(op, k[0], nullptr);
  if (!r.ok)
    return false;
  out = o ? opt(r.k) : scalar(r.k);
  return true;
}
P Arith::value(const std::vector<T> &ts, const std::vector<const V *> &a, bool &ub) const {
  bool o = false, na = false;
  std::vector<K> k;
  std::vector<const V *> x;
  for (size_t i = 0; i < ts.size(); i++) {
    bool op = ts[i].k == OPT;
    o |= op;
    k.push_back(op ? ts[i].sub[0].k : ts[i].k);
    x.push_back(op ? a[i]->v[0].get() : a[i]);
    na |= op && a[i]->na;
  }
  if (na) {
    T t;
    type(ts, t);
    P p = blank(t);
    p->na = true;
    return p;
  }
  Res r = ts.size() == 2 ? binary(op, k[0], x[0], k[1], x[1]) : unary(op, k[0], x[0]);
  ub |= r.ub;
  if (r.zero)
    return nullptr;
  if (!r.v)
    r.v = blank(scalar(r.k));
  if (!o)
    return r.v;
  if (is_sentinel(r.k, *r.v)) // the value that stands for NA
    ub = true;
  P p(new V());
  p->unset = false;
  p->v.push_back(r.v);
  return p;
}
// the array as a view of a bigger or permuted one
// any order of the dimensions in memory, any step in each of them
struct Laid {
  int d = 0, perm[8], step[8], off[8], size[8], n[8];
  const T *elem;
  void start(const T &t) {
    const T *u = &t;
    for (d = 0; u->k == FIXED && d < 6; d++, u = &u->sub[0]) {
      perm[d] = d, step[d] = 1, off[d] = 0;
      n[d] = size[d] = u->n;
    }
    elem = u;
  }
  T type(int j) const { return j == d ? *elem : dim(size[perm[j]], type(j + 1)); }
  bool others = false; // the elements in between are numbers of their own, or further ones of p
  P value(Rng &r, const P &p, int j, int *at) const {
    if (j == d) {
      P q = p;
      for (int i = 0; i < d; i++) {
        int x = at[i] - off[i], s = std::abs(step[i]);
        if (x < 0 || x % s || x / s >= n[i])
        {
          if (others)
            return tree(r, *elem, 2);
          P o = p;
          for (int i = 0; i < d; i++)
            o = o->v[r.below(n[i])];
          return o;
        }
        q = q->v[step[i] < 0 ? n[i] - 1 - x / s : x / s];
      }
      return q;
    }
    P o(new V());
    o->unset = false;
    for (at[perm[j]] = 0; at[perm[j]] < size[perm[j]]; at[perm[j]]++)
      o->v.push_back(value(r, p, j + 1, at));
    return o;
  }
};
// the innermost elements become field f of records that have m fields
static T in_records(const T &t, int m, int f) {
  T o = t;
  if (t.k == FIXED || t.k == VAR) {
    o.sub[0] = in_records(t.sub[0], m, f);
    return o;
  }
  static const K ks[] = {I8, I64, STR};
  o = T();
  o.k = m & 1 ? TUPLE : STRUCT;
  for (int i = 0; i < m; i++) {
    o.sub.push_back(i == f ? t : scalar(ks[i % 3]));
    o.names.push_back("f" + std::to_string(i));
  }
  return o;
}
static P in_records(Rng &r, const T &t, const P &p, int m, int f, const T &w) {
  P o(new V());
  o->unset = p->unset;
  if (t.k == FIXED || t.k == VAR) {
    for (auto &c : p->v)
      o->v.push_back(in_records(r, t.sub[0], c, m, f, w.sub[0]));
    return o;
  }
  o->unset = false;
  for (int i = 0; i < m; i++)
    if (i == f)
      o->v.push_back(p);
    else if (w.sub[i].k == STR) {
      o->v.push_back(P(new V()));
      o->v.back()->unset = false;
      o->v.back()->s = std::string(r.below(30), 'a' + i);
    } else
      o->v.push_back(number(r, w.sub[i].k));
  return o;
}
static bool all_dims_set(const T &t, const P &p) {
  if (t.k != FIXED && t.k != VAR)
    return t.k != STRUCT && t.k != TUPLE;
  if (p->unset)
    return false;
  for (auto &c : p->v)
    if (!all_dims_set(t.sub[0], c))
      return false;
  return true;
}
static nd::array build_rows(Rng &r, const T &t, const P &p, bool others);
nd::array build(Rng &r, const T &t, const P &p, bool others) {
  int nd_ = ndim(t);
  if (!nd_ || nd_ > 6 || !r.chance(1, 6) || !all_dims_set(t, p))
    return build_rows(r, t, p, others);
  int m = r.range(1, 3), f = r.below(m);
  T w = in_records(t, m, f);
  nd::array a = build_rows(r, w, in_records(r, t, p, m, f, w), false);
  Mode q(M_QUIET);
  irange ix[8];
  ix[nd_] = irange(f);
  return a.at_array(nd_ + 1, ix);
}
static nd::array build_rows(Rng &r, const T &t, const P &p, bool others) {
  nd::array a;
  Laid l;
  l.start(t);
  l.others = others;
  if (!l.d || r.chance(1, 3)) {
    must_do("nd::empty", [&] { a = nd::empty(typed::make(t)); });
    Mode q(M_QUIET);
    fill(a, t, p);
    return a;
  }
  bool permuted = l.d > 1 && !has(t, VAR) && r.chance(1, 2), sliced = false;
  if (permuted)
    for (int i = l.d - 1; i > 0; i--)
      std::swap(l.perm[i], l.perm[r.below(i + 1)]);
  double total = 1;
  for (int i = 0; i < l.d; i++)
    total *= l.n[i];
  for (int i = 0; i < l.d; i++)
    if (l.n[i] && r.chance(1, permuted ? 3 : 2)) {
      int s = r.pickl({1, -1, -1, 2, -2, 3, -3}), off = r.below(3);
      int size = off + (l.n[i] - 1) * std::abs(s) + 1 + r.below(2);
      if (total / l.n[i] * size > 900)
        s = s < 0 ? -1 : 1, off = 0, size = l.n[i];
      total = total / l.n[i] * size;
      l.step[i] = s, l.off[i] = off, l.size[i] = size;
      sliced = true;
    }
  T w = l.type(0);
  int at[8];
  P wp = l.value(r, p, 0, at);
  must_do("nd::empty", [&] { a = nd::empty(typed::make(w)); });
  Mode q(M_QUIET);
  fill(a, w, wp);
  if (sliced) {
    irange ix[8];
    for (int j = 0; j < l.d; j++) {
      int i = l.perm[j], last = l.off[i] + (l.n[i] - 1) * std::abs(l.step[i]);
      if (!l.n[i])
        continue; // all of it
      if (l.step[i] > 0)
        ix[j] = irange(l.off[i], last + 1, l.step[i]);
      else
        ix[j] = irange(last, l.off[i] ? (intptr_t)l.off[i] - 1 : std::numeric_limits<intptr_t>::max(), l.step[i]);
    }
    a = a.at_array(l.d, ix);
  }
  if (permuted) {
    intptr_t axes[8];
    for (int j = 0; j < l.d; j++)
      axes[l.perm[j]] = j;
    for (int j = l.d; j < ndim(t); j++)
      axes[j] = j;
    a = a.permute(ndim(t), axes);
  }
  return a;
}
P ragged(Rng &r, const T &t, int n) {
  P p(new V());
  p->unset = false;
  if (t.k == FIXED || t.k == VAR) {
    int m = t.k == FIXED ? t.n : r.chance(1, 6) ? 0 : r.range(1, n);
    for (int i = 0; i < m; i++)
      p->v.push_back(ragged(r, t.sub[0], n));
    return p;
  }
  p = number(r, t.k);
  if (t.k == I32 || t.k == I64) // no overflow
    p->i %= 1000;
  return p;
}
void check_type(const char *what, const nd::array &a, const T &t) {
  std::string got = type_str(a.get_type()), want = ds(t);
  if (got != want)
    rt::violation("wrong-type", "%s: the type is %s, expected %s", what, got.c_str(), want.c_str());
}
static void leaf_texts(std::vector<std::string> &o, const T &t, const P &p) {
  if (t.k == FIXED || t.k == VAR)
    for (auto &c : p->v)
      leaf_texts(o, t.sub[0], c);
  else
    o.push_back(text(t, p));
}
static std::vector<std::string> cut(const std::string &s) {
  std::vector<std::string> o;
  std::string e;
  for (char c : s)
    if (c == '[' || c == ']' || c == '{' || c == '}' || c == ',' || c == ' ') {
      if (!e.empty())
        o.push_back(e);
      e.clear();
    } else
      e += c;
  if (!e.empty())
    o.push_back(e);
  return o;
}
bool all_set(const T &t, const P &p) {
  if (t.k == VAR && p->unset)
    return false;
  if (t.k == FIXED || t.k == VAR)
    for (auto &c : p->v)
      if (!all_set(t.sub[0], c))
        return false;
  return true;
}
void torn(const char *what, const nd::array &d, const T &t, const P &before, const P &after) {
  if (!all_set(t, before))
    return;
  std::vector<std::string> x = cut(dump(d)), y, z;
  leaf_texts(y, t, before);
  leaf_texts(z, t, after);
  bool ok = x.size() == y.size() && y.size() == z.size();
  for (size_t i = 0; ok && i < x.size(); i++)
    ok = x[i] == y[i] || x[i] == z[i];
  if (!ok)
    rt::violation("torn-write", "%s failed and left %s; before %s, wanted %s", what, dump(d).c_str(), text(t, before).c_str(), text(t, after).c_str());
}
} // namespace numeric
