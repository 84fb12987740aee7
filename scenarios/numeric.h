// Scalar arithmetic by the rules of C++, as a reference: result type, value, errors.
#pragma once
#include "typed.h"
#include <limits>
#include <type_traits>

namespace numeric {
using namespace typed;
enum { ADD, SUB, MUL, DIV, MOD, POW, AND, OR, XOR, SHL, SHR, LAND, LOR, LXOR, LT, LE, EQ, NE, GE, GT, NBIN, PLUS = NBIN, MINUS, BNOT, LNOT, SQRT, CBRT, SIN, COS, TAN, EXP, NOP };
extern const char *const opnames[NOP];
const nd::callable &fn(int op);
struct Res {
  bool ok = false; // there is such an operation
  bool ub = false; // the program must not do this
  bool zero = false; // division by zero
  K k = I32;
  P v;
};
// v may be NULL: the result type only
Res binary(int op, K a, const V *x, K b, const V *y);
Res unary(int op, K a, const V *x);
inline bool cplx(K k) { return k == C64 || k == C128; }
inline K part(K k) { return k == C64 ? F32 : k == C128 ? F64 : k; }
// assignment in an error mode; NULL: refused
P convert(K d, K s, const V &x, int mode, bool &ub);
template <class F> auto with(K k, F f) -> decltype(f((int)0)) {
  switch (k) {
  case BOOL:
    return f((bool)0);
  case I8:
    return f((int8_t)0);
  case I16:
    return f((int16_t)0);
  case I32:
    return f((int32_t)0);
  case I64:
    return f((int64_t)0);
  case U8:
    return f((uint8_t)0);
  case U16:
    return f((uint16_t)0);
  case U32:
    return f((uint32_t)0);
  case U64:
    return f((uint64_t)0);
  case F32:
    return f((float)0);
  default:
    return f((double)0);
  }
}
template <class A> K kind_of() {
  typedef std::numeric_limits<A> L;
  if (std::is_same<A, bool>::value)
    return BOOL;
  if (std::is_floating_point<A>::value)
    return sizeof(A) == 4 ? F32 : F64;
  int s = sizeof(A) == 1 ? 0 : sizeof(A) == 2 ? 1 : sizeof(A) == 4 ? 2 : 3;
  return (K)((L::is_signed ? I8 : U8) + s);
}
template <class A> A get(const V *v) { return std::is_floating_point<A>::value ? (A)v->d : (A)v->i; }
template <class A> P box(A x) {
  P p(new V());
  p->unset = false;
  if (std::is_floating_point<A>::value)
    p->d = (double)x;
  else
    p->i = (long long)x;
  return p;
}
bool is_sentinel(K k, const V &v); // the bits that stand for NA
P number(Rng &r, K k);        // often small, sometimes at the limits
P tree(Rng &r, const T &t, int varmax); // a value of nested dims over numbers
inline int ndim(const T &t) { return t.k == FIXED || t.k == VAR ? 1 + ndim(t.sub[0]) : 0; }
inline const T &dtype(const T &t) { return t.k == FIXED || t.k == VAR ? dtype(t.sub[0]) : t; }
T redtype(const T &t, const T &d); // same dims, another element type
inline T scalar(K k) {
  T t;
  t.k = k;
  return t;
}
inline T opt(K k) {
  T t;
  t.k = OPT;
  t.sub.push_back(scalar(k));
  return t;
}
inline T dim(int n, const T &e) { // n < 0: var
  T t;
  t.k = n < 0 ? VAR : FIXED;
  t.n = n < 0 ? 0 : n;
  t.sub.push_back(e);
  return t;
}

// ---- broadcasting -----------------------------------------------------------------------------------
// An elementwise function: result element type from element types (false: refused), and element values.
struct Elem {
  mutable std::vector<int> at; // the position of the element that apply() works on
  virtual ~Elem() {}
  virtual bool type(const std::vector<T> &a, T &out) const = 0;
  // returns the value, or NULL when it throws
  virtual P value(const std::vector<T> &ts, const std::vector<const V *> &a, bool &ub) const = 0;
};
struct Ev {
  bool err = false, ub = false;
};
bool result_type(const Elem &e, const std::vector<T> &a, T &out); // false: refused before anything runs
bool accepts(const T &dst, const std::vector<T> &a);              // may dims of dst hold the result of a
P apply(const Elem &e, const T &rt, const std::vector<T> &ts, const std::vector<P> &vs, const P &old, Ev &ev);
struct Arith : Elem {
  int op;
  explicit Arith(int o) : op(o) {}
  bool type(const std::vector<T> &a, T &out) const override;
  P value(const std::vector<T> &ts, const std::vector<const V *> &a, bool &ub) const override;
};

// ---- arrays and checks ---------------------------------------------------------------------------------
nd::array build(Rng &r, const T &t, const P &p, bool others = true);            // possibly a view of a bigger or permuted array
P ragged(Rng &r, const T &t, int n);                        // var dims of 0..n elements, small integers
void check_type(const char *what, const nd::array &a, const T &t);
bool all_set(const T &t, const P &p);                       // no unset var dims
// after a failure each element is as before or as wanted
void torn(const char *what, const nd::array &d, const T &t, const P &before, const P &after);
} // namespace numeric
