// C18: values of C++ become arrays and come back.  Scalars, containers of containers, tuples and arrays of arrays, with the type
// that the sizes call for; filling, shapes and iteration.
#include "numeric.h"
#include <array>
#include <functional>
#include <dynd/asarray.hpp>
#include <dynd/iterator.hpp>
#include <dynd/types/fixed_dim_kind_type.hpp>
#include <dynd/types/pointer_type.hpp>
using namespace numeric;

namespace {
enum { A_SCALAR, A_VECTOR, A_LIST, A_STATIC, A_TYPED, A_RECORD, A_POINT, A_FILLED, A_VALS, A_SHAPE, A_LIKE, A_ASARRAY, A_ITERATE, A_COMMON, A_NESTED, NK };
const char *const names[] = {"scalar", "vector", "initializer list", "static array", "array of a given type", "record of arrays", "combine_into_tuple", "zeros and ones", "vals", "shape", "empty_like", "asarray", "iteration", "common vector", "nested iteration"};
enum { NF = 4 };
const K kinds[] = {BOOL, I8, I16, I32, I64, U8, U16, U32, U64, F32, F64};

template <class A> struct Leaf {
  static A get(const P &p) { return numeric::get<A>(p.get()); }
  static K kind() { return kind_of<A>(); }
};
template <> struct Leaf<std::string> {
  static std::string get(const P &p) { return p->s; }
  static K kind() { return STR; }
};
template <class A, int N> struct Vec {
  typedef std::vector<typename Vec<A, N - 1>::type> type;
  static type make(const P &p) {
    type v;
    for (auto &e : p->v)
      v.push_back(Vec<A, N - 1>::make(e));
    return v;
  }
};
template <class A> struct Vec<A, 0> {
  typedef A type;
  static A make(const P &p) { return Leaf<A>::get(p); }
};
template <class A> bool same_bits(const A &x, const A &y) { return !memcmp(&x, &y, sizeof x); }
bool same_bits(const std::string &x, const std::string &y) { return x == y; }

// Something the user owns: its memory is watched, but allocating it never fails.
template <class C> struct Held {
  C *c;
  template <class F> explicit Held(F f) {
    Mode q(M_QUIET);
    c = new C(f());
  }
  ~Held() {
    if (c)
      release();
  }
  void release() {
    Mode q(M_QUIET);
    delete c;
    c = nullptr;
  }
};

P str(const std::string &s) {
  P p(new V());
  p->unset = false;
  p->s = s;
  return p;
}
P leaf(Rng &r, K k) {
  if (k != STR)
    return number(r, k);
  std::string s;
  for (int n = r.pickl({0, 1, 3, 15, 16, 40}); n > 0; n--)
    s += r.chance(1, 12) ? '\0' : r.chance(1, 12) ? (char)r.range(128, 255) : (char)('a' + r.below(26));
  return str(s);
}
P list(const std::vector<P> &v) {
  P p(new V());
  p->unset = false;
  p->v = v;
  return p;
}
// containers of containers; ragged: sizes differ
P tree(Rng &r, K k, const std::vector<int> &sizes, size_t level, bool ragged) {
  if (level == sizes.size())
    return leaf(r, k);
  int n = ragged && level && r.chance(1, 2) ? r.below(5) : sizes[level];
  std::vector<P> v;
  for (int i = 0; i < n; i++)
    v.push_back(tree(r, k, sizes, level + 1, ragged));
  return list(v);
}
P tree(Rng &r, K k, int depth) {
  std::vector<int> sizes;
  for (int i = 0; i < depth; i++)
    sizes.push_back(r.chance(1, 10) ? 0 : r.range(1, 5));
  return tree(r, k, sizes, 0, r.chance(1, 2));
}
void level_sizes(std::vector<int> &o, bool &empty, const P &p, int level) {
  if (!level) {
    o.push_back((int)p->v.size());
    return;
  }
  if (p->v.empty())
    empty = true;
  for (auto &e : p->v)
    level_sizes(o, empty, e, level - 1);
}
// The types the array may have: fixed where all sizes agree, var where they differ; either where only an empty container tells.
std::vector<T> types_of(const P &p, K k, int depth) {
  std::vector<T> o = {scalar(k)};
  for (int l = depth; l-- > 0;) {
    std::vector<int> s;
    bool empty = false;
    level_sizes(s, empty, p, l);
    bool differ = false;
    for (int x : s)
      differ |= x != s[0];
    int n = s.empty() ? 0 : s[0];
    std::vector<T> next;
    for (auto &e : o) {
      if (!differ)
        next.push_back(dim(n, e));
      if (differ || (empty && n))
        next.push_back(dim(-1, e));
    }
    o = next;
  }
  return o;
}
std::string all(const std::vector<T> &t) {
  std::string o;
  for (auto &e : t)
    o += (o.empty() ? "" : " or ") + ds(e);
  return o;
}
std::string words(const T &t, const P &p) { return text(t, p); }

void unexpected(const char *what, const Outcome &o, const std::string &on) {
  rt::violation("unexpected-error", "%s of %s: %s: %s", what, on.c_str(), o.type.c_str(), o.what.c_str());
}
// runs f again without faults when a fault made it fail
void retried(const char *what, const std::string &on, const std::function<void()> &f) {
  Outcome o;
  for (int i = 0; i < 2; i++) {
    o = attempt(f);
    if (o.ok || !rt::op_fired_mask() || o.type != "std::bad_alloc")
      break;
    rt::op_faults_off();
    PROBE("again after a failure");
  }
  if (!o.ok)
    unexpected(what, o, on);
}
T check_either(const char *what, const nd::array &a, const std::vector<T> &t, const P &p) {
  std::string got = type_str(a.get_type());
  for (auto &e : t)
    if (ds(e) == got) {
      check_dump("wrong-value", what, a, text(e, p));
      return e;
    }
  rt::violation("wrong-type", "%s of %s: the type is %s, expected %s", what, text(t[0], p).c_str(), got.c_str(), all(t).c_str());
  return t[0];
}
// an element comes back as it went in
template <class A> void read_back(Rng &r, const char *what, const nd::array &whole, P p, int depth) {
  nd::array a;
  {
    Mode m(M_SIM);
    a = whole;
  }
  for (; depth > 0; depth--) {
    if (p->v.empty()) {
      drop(a);
      return;
    }
    int i = r.below((int)p->v.size());
    nd::array b;
    bool back = r.chance(1, 3);
    int n = (int)p->v.size();
    retried("indexing", what, [&] { b = a(back ? i - n : i); });
    p = P(p->v[i]);
    Mode m(M_SIM);
    a = std::move(b);
  }
  A want = Leaf<A>::get(p);
  Held<A> got([] { return A(); });
  retried("as", what, [&] { *got.c = a.as<A>(); });
  if (!same_bits(*got.c, want))
    rt::violation("wrong-value", "an element of %s, %s, comes back as another value", what, words(scalar(Leaf<A>::kind()), p).c_str());
  drop(a);
}
// the array made of a C++ value, once while the value lives and once after it's gone
template <class A, class C, class F> void container(Rng &r, const char *what, const P &p, int depth, F make) {
  std::vector<T> t = types_of(p, Leaf<A>::kind(), depth);
  Held<C> c(make);
  nd::array a;
  retried(what, all(t), [&] { a = nd::array(*c.c); });
  T is = check_either(what, a, t, p);
  if (a.get_ndim() && a.get_flags() != (uint64_t)(nd::read_access_flag | nd::write_access_flag))
    rt::violation("wrong-access", "%s: the flags are %d", what, (int)a.get_flags());
  c.release();
  check_dump("wrong-value", what, a, text(is, p));
  read_back<A>(r, what, a, p, depth);
  drop(a);
  if (has(is, VAR))
    PROBE("of different sizes");
  else if (depth > 1)
    PROBE("of the same size");
}
template <class F> void some_kind(K k, F f) {
  switch (k) {
  case I8:
    return f((int8_t)0);
  case I32:
    return f((int32_t)0);
  case U16:
    return f((uint16_t)0);
  case I64:
    return f((int64_t)0);
  case F32:
    return f((float)0);
  case STR:
    return f(std::string());
  default:
    return f((double)0);
  }
}
const K some_kinds[] = {I8, I32, U16, I64, F32, F64, STR, STR};

struct C18 : Scenario {
  struct Slot {
    nd::array a;
    T t;
    P p;
  } shared[NF];
  Held<std::vector<std::vector<std::string>>> *strings = nullptr;
  P strings_p;

  void generate(Rng &r, Plan &p) override {
    p.nf = r.chance(1, 3) ? 1 : r.range(2, 4);
    int n = r.range(5, 20);
    static const int mix[] = {A_SCALAR, A_VECTOR, A_VECTOR, A_VECTOR, A_LIST, A_LIST, A_STATIC, A_STATIC, A_TYPED, A_RECORD, A_RECORD, A_POINT, A_FILLED, A_VALS, A_VALS, A_SHAPE, A_LIKE, A_ASARRAY, A_ITERATE, A_COMMON, A_NESTED};
    for (int i = 0; i < n; i++)
      p.add(r.range(1, p.nf), r.pick(mix), r.below(30000), r.below(30000));
    p.params[0] = r.below(30000);
    p.params[1] = r.below(30000);
  }
  std::string show(const Plan &, const Op &o) override { return fmt("%s r=%d,%d", names[o.kind % NK], o.a[0], o.a[1]); }
  const char *opname(const Op &o) override { return names[o.kind % NK]; }

  static P values(Rng &r, const T &t) {
    if (t.k != FIXED && t.k != VAR)
      return leaf(r, t.k);
    std::vector<P> v;
    for (int n = t.k == FIXED ? t.n : r.below(5); n > 0; n--)
      v.push_back(values(r, t.sub[0]));
    return list(v);
  }
  static T dims(Rng &r, T t, int lo, int hi, bool vars) {
    for (int n = r.range(lo, hi); n > 0; n--)
      t = dim(vars && r.chance(1, 3) ? -1 : r.chance(1, 12) ? 0 : r.range(1, 5), t);
    return t;
  }
  static nd::array fresh(const T &t, const P &p) {
    nd::array a;
    must_do("nd::empty", [&] { a = nd::empty(typed::make(t)); });
    Mode q(M_QUIET);
    fill(a, t, p);
    return a;
  }
  void begin(const Plan &p) override {
    Rng r(((uint64_t)(unsigned short)p.params[0] << 16) ^ (unsigned short)p.params[1]);
    for (Slot &s : shared) {
      s.t = dims(r, scalar(r.chance(1, 4) ? STR : r.pick(kinds)), 0, 3, true);
      s.p = values(r, s.t);
      nd::array a = fresh(s.t, s.p);
      Mode m(M_QUIET);
      s.a = std::move(a);
    }
    strings_p = tree(r, STR, 2);
    strings = new Held<std::vector<std::vector<std::string>>>([&] { return Vec<std::string, 2>::make(strings_p); });
  }
  void end() override {
    for (Slot &s : shared) {
      check_dump("source-changed", "an array at the end", s.a, text(s.t, s.p));
      drop(s.a);
    }
    {
      Mode q(M_QUIET);
      if (*strings->c != Vec<std::string, 2>::make(strings_p))
        rt::violation("source-changed", "the common vector is not as it was");
    }
    delete strings;
    strings = nullptr;
  }
  Slot &any(Rng &r) { return shared[r.below(NF)]; }

  // ---- scalars ----
  template <class A> static void one(Rng &r, const A &x, const T &t, const P &p) {
    nd::array a;
    retried("making a scalar", ds(t), [&] { a = nd::array(x); });
    check_type("a scalar", a, t);
    check_dump("wrong-value", "a scalar", a, text(t, p));
    if (!a.is_scalar() || a.get_ndim() != 0)
      rt::violation("wrong-type", "a scalar has %d dimensions", (int)a.get_ndim());
    Outcome o = attempt([&] { a.data(); });
    if (o.ok)
      rt::violation("wrong-access", "an array of the scalar %s lets itself be changed", text(t, p).c_str());
    drop(a);
    (void)r;
  }
  template <class A> static void back(const A &x, const char *what) {
    nd::array a;
    A y = A();
    retried("making a scalar", what, [&] { a = nd::array(x); });
    retried("as", what, [&] { y = a.as<A>(); });
    if (!same_bits(x, y))
      rt::violation("wrong-value", "a value of type %s comes back as another one", what);
    drop(a);
  }
  static void scalars(Rng &r) {
    int what = r.below(16);
    if (what < 11) {
      K k = kinds[what];
      P p = number(r, k);
      with(k, [&](auto z) {
        typedef decltype(z) A;
        A x = Leaf<A>::get(p);
        one(r, x, scalar(k), p);
        read_back<A>(r, "a scalar", fresh(scalar(k), p), p, 0);
        return 0;
      });
      PROBE("numbers");
      return;
    }
    if (what == 11) {
      P p = leaf(r, STR);
      Held<std::string> s([&] { return p->s; });
      one(r, *s.c, scalar(STR), p);
      one(r, s.c->c_str(), scalar(STR), str(s.c->c_str()));
      nd::array a;
      retried("making a string", "string", [&] { a = nd::array(*s.c); });
      read_back<std::string>(r, "a string", a, p, 0);
      drop(a);
      PROBE("strings");
    } else if (what == 12)
      back(dynd::complex<double>(number(r, F64)->d, number(r, F64)->d), "complex[float64]");
    else if (what == 13)
      back(dynd::complex<float>((float)number(r, F32)->d, (float)number(r, F32)->d), "complex[float32]");
    else if (what == 14) {
      // bytes
      P p = leaf(r, STR);
      std::string out;
      nd::array a;
      retried("making bytes", "bytes", [&] { a = nd::array(dynd::bytes(p->s.data(), p->s.size())); });
      check_type("bytes", a, scalar(BYTES));
      retried("as", "bytes", [&] {
        dynd::bytes b = a.as<dynd::bytes>();
        Mode h(M_HOST);
        out.assign(b.begin(), b.size());
      });
      if (out != p->s)
        rt::violation("wrong-value", "bytes %s come back as %s", S(p->s).c_str(), S(out).c_str());
      drop(a);
      PROBE("bytes");
    } else {
      // a type
      static const char *const tps[] = {"int32", "3 * string", "var * {x: int32, y: float64}", "(bool, ?int64)"};
      const char *want = r.pick(tps);
      std::string got;
      nd::array a;
      retried("making an array of a type", want, [&] { a = nd::array(ndt::type(want)); });
      retried("as", want, [&] {
        ndt::type t = a.as<ndt::type>();
        got = type_str(t);
      });
      if (got != want)
        rt::violation("wrong-value", "the type %s comes back as %s", want, got.c_str());
      drop(a);
      PROBE("types");
    }
  }

  // ---- containers ----
  static void vectors(Rng &r) {
    K k = r.pick(some_kinds);
    int depth = r.pickl({1, 2, 2, 2, 3, 3});
    P p = tree(r, k, depth);
    some_kind(k, [&](auto z) {
      typedef decltype(z) A;
      if (depth == 1)
        container<A, typename Vec<A, 1>::type>(r, "a vector", p, 1, [&] { return Vec<A, 1>::make(p); });
      else if (depth == 2)
        container<A, typename Vec<A, 2>::type>(r, "a vector of vectors", p, 2, [&] { return Vec<A, 2>::make(p); });
      else
        container<A, typename Vec<A, 3>::type>(r, "a vector of vectors of vectors", p, 3, [&] { return Vec<A, 3>::make(p); });
    });
    PROBE("vectors");
  }
  template <class A> static void lists(Rng &r) {
    K k = Leaf<A>::kind();
    std::vector<P> v;
    for (int i = 0; i < 8; i++)
      v.push_back(leaf(r, k));
    std::vector<A> x;
    {
      Mode q(M_QUIET);
      for (auto &e : v)
        x.push_back(Leaf<A>::get(e));
    }
    A x0 = x[0], x1 = x[1], x2 = x[2], x3 = x[3], x4 = x[4], x5 = x[5];
    auto l = [](std::vector<P> w) { return list(w); };
    nd::array a;
    P p;
    int depth = 1;
    std::function<void()> f;
    switch (r.below(9)) {
    case 0:
      p = l({v[0]});
      f = [&] { a = {x0}; };
      break;
    case 1:
      p = l({v[0], v[1], v[2], v[3], v[4]});
      f = [&] { a = {x0, x1, x2, x3, x4}; };
      break;
    case 2:
      p = l({l({v[0], v[1]}), l({v[2], v[3]})}), depth = 2;
      f = [&] { a = {{x0, x1}, {x2, x3}}; };
      break;
    case 3:
      p = l({l({v[0]}), l({v[1], v[2], v[3]})}), depth = 2;
      f = [&] { a = {{x0}, {x1, x2, x3}}; };
      break;
    case 4:
      p = l({l({v[0]}), l({v[1]}), l({v[2]})}), depth = 2;
      f = [&] { a = {{x0}, {x1}, {x2}}; };
      break;
    case 5:
      p = l({l({l({v[0]}), l({v[1]})}), l({l({v[2]})})}), depth = 3;
      f = [&] { a = {{{x0}, {x1}}, {{x2}}}; };
      break;
    case 6:
      p = l({l({l({v[0], v[1]}), l({v[2], v[3]})}), l({l({v[4], v[5]}), l({v[1], v[0]})})}), depth = 3;
      f = [&] { a = {{{x0, x1}, {x2, x3}}, {{x4, x5}, {x1, x0}}}; };
      break;
    case 7:
      p = l({l({l({v[0], v[1]}), l({v[2]})}), l({l({v[4], v[5]}), l({v[1], v[0]})})}), depth = 3;
      f = [&] { a = {{{x0, x1}, {x2}}, {{x4, x5}, {x1, x0}}}; };
      break;
    default:
      p = l({l({}), l({v[0], v[1]})}), depth = 2;
      f = [&] { a = {std::initializer_list<A>{}, {x0, x1}}; };
    }
    retried("making an array of an initializer list", ds(scalar(k)), f);
    check_either("an initializer list", a, types_of(p, k, depth), p);
    read_back<A>(r, "an initializer list", a, p, depth);
    drop(a);
    {
      Mode q(M_QUIET);
      x = std::vector<A>();
    }
    PROBE("initializer lists");
  }
  // the library has no two-dimensional C arrays of strings
  template <class A> static void two(Rng &, const P &, std::false_type) {}
  template <class A> static void two(Rng &r, const P &p, std::true_type) {
    auto at2 = [&](int i, int j) { return Leaf<A>::get(p->v[i]->v[j]); };
    struct H {
      A v[2][3];
    };
    Held<H> h([&] { return H{{{at2(0, 0), at2(0, 1), at2(0, 2)}, {at2(1, 0), at2(1, 1), at2(1, 2)}}}; });
    nd::array a;
    retried("making an array of an array", "arrays of arrays", [&] { a = nd::array(h.c->v); });
    h.release();
    check_either("an array of an array of arrays", a, types_of(p, Leaf<A>::kind(), 2), p);
    read_back<A>(r, "an array of an array of arrays", a, p, 2);
    drop(a);
  }
  template <class A> static void pointed(Rng &, const P &, std::false_type) {}
  template <class A> static void pointed(Rng &r, const P &p, std::true_type) {
    int n = (int)p->v.size();
    Held<std::vector<A>> h([&] { return Vec<A, 1>::make(p); });
    nd::array a;
    retried("making an array of a pointer and a size", "a pointer", [&] { a = nd::array(h.c->data(), n); });
    h.release();
    check_either("a pointer and a size", a, types_of(p, Leaf<A>::kind(), 1), p);
    read_back<A>(r, "a pointer and a size", a, p, 1);
    drop(a);
  }
  template <class A> static void statics(Rng &r) {
    K k = Leaf<A>::kind();
    auto l = [&](int n) { return tree(r, k, {n}, 0, false); };
    auto ll = [&](int n, int m) { return tree(r, k, {n, m}, 0, false); };
    auto at = [](const P &p, int i) { return Leaf<A>::get(p->v[i]); };
    auto at2 = [](const P &p, int i, int j) { return Leaf<A>::get(p->v[i]->v[j]); };
    switch (r.below(6)) {
    case 0: {
      P p = l(3);
      container<A, std::array<A, 3>>(r, "std::array", p, 1, [&] { return std::array<A, 3>{{at(p, 0), at(p, 1), at(p, 2)}}; });
      break;
    }
    case 1: {
      P p = ll(3, 2);
      container<A, std::array<std::array<A, 2>, 3>>(r, "std::array of std::array", p, 2, [&] {
        return std::array<std::array<A, 2>, 3>{{{{at2(p, 0, 0), at2(p, 0, 1)}}, {{at2(p, 1, 0), at2(p, 1, 1)}}, {{at2(p, 2, 0), at2(p, 2, 1)}}}};
      });
      break;
    }
    case 2: {
      P p = l(4);
      struct H {
        A v[4];
      };
      Held<H> h([&] { return H{{at(p, 0), at(p, 1), at(p, 2), at(p, 3)}}; });
      nd::array a;
      retried("making an array of an array", ds(scalar(k)), [&] { a = nd::array(h.c->v); });
      h.release();
      check_either("an array of an array", a, types_of(p, k, 1), p);
      read_back<A>(r, "an array of an array", a, p, 1);
      drop(a);
      break;
    }
    case 3: {
      two<A>(r, ll(2, 3), std::is_arithmetic<A>());
      break;
    }
    case 4: {
      pointed<A>(r, tree(r, k, {r.below(6)}, 0, false), std::integral_constant<bool, !std::is_same<A, bool>::value>());
      break;
    }
    default: {
      P p = l(1);
      container<A, std::array<A, 1>>(r, "std::array", p, 1, [&] { return std::array<A, 1>{{at(p, 0)}}; });
    }
    }
    PROBE("static arrays");
  }
  static void tuples(Rng &r) {
    P a = number(r, I32), b = number(r, F64), c = number(r, I8), d = number(r, U16), e = number(r, BOOL);
    T t;
    t.k = TUPLE;
    nd::array x;
    if (r.chance(1, 2)) {
      t.sub = {scalar(I8), scalar(F64), scalar(BOOL), scalar(I32)};
      std::tuple<int8_t, double, bool, int32_t> v(get<int8_t>(c.get()), b->d, e->i, get<int32_t>(a.get()));
      retried("making an array of a tuple", ds(t), [&] { x = nd::array(v); });
      check_type("a tuple", x, t);
      check_dump("wrong-value", "a tuple", x, text(t, list({c, b, e, a})));
    } else {
      T u, w;
      u.k = w.k = TUPLE;
      u.sub = {scalar(I32), scalar(I8)}, w.sub = {scalar(F64), scalar(U16)};
      t.sub = {u, scalar(BOOL), w};
      auto v = std::make_tuple(std::make_tuple(get<int32_t>(a.get()), get<int8_t>(c.get())), (bool)e->i, std::make_tuple(b->d, get<uint16_t>(d.get())));
      retried("making an array of a tuple", ds(t), [&] { x = nd::array(v); });
      check_type("a tuple", x, t);
      check_dump("wrong-value", "a tuple", x, text(t, list({list({a, c}), e, list({b, d})})));
    }
    drop(x);
    PROBE("tuples");
  }
  static P small(Rng &r, const T &t) { // a number that every type can hold
    if (t.k == FIXED || t.k == VAR) {
      std::vector<P> v;
      for (int n = t.k == FIXED ? t.n : r.below(5); n > 0; n--)
        v.push_back(small(r, t.sub[0]));
      return list(v);
    }
    P p(new V());
    p->unset = false;
    p->i = r.below(100);
    p->d = (double)p->i;
    return p;
  }
  void typed_(Rng &r) {
    static const K from[] = {I8, I32, U16, I64, F32, F64};
    K k = r.pick(from), to = (K)r.range(I8, F64);
    int depth = r.below(3);
    P p;
    if (depth == 0)
      p = small(r, scalar(k));
    else
      p = small(r, dims(r, scalar(k), depth, depth, true));
    std::vector<T> src = types_of(p, k, depth), ts = types_of(p, to, depth);
    T t = ts[r.below((int)ts.size())]; // for the full type
    bool full = depth && r.chance(1, 2);
    if (full && r.chance(1, 3) && t.k == FIXED)
      t = dim(-1, t.sub[0]); // the outer dimension as var
    ndt::type tp;
    must_do("the type", [&] { tp = typed::make(full ? t : scalar(to)); });
    nd::array a;
    some_kind(k, [&](auto z) {
      typedef decltype(z) A;
      this->given<A>(a, p, depth, tp, std::is_arithmetic<A>());
    });
    if (full) {
      check_type("an array of a given type", a, t);
      check_dump("wrong-value", "an array of a given type", a, text(t, p));
    } else
      check_either("an array of a given element type", a, ts, p);
    drop(a);
    {
      Mode m(M_SIM);
      tp = ndt::type();
    }
    PROBE("of a given type");
  }
  template <class A> void given(nd::array &a, const P &p, int depth, const ndt::type &tp, std::true_type) {
    if (depth == 0) {
      A x = Leaf<A>::get(p);
      retried("making an array of a type", type_str(tp), [&] { a = nd::array(x, tp); });
    } else if (depth == 1) {
      Held<std::vector<A>> v([&] { return Vec<A, 1>::make(p); });
      retried("making an array of a type", type_str(tp), [&] { a = nd::array(*v.c, tp); });
    } else {
      Held<std::vector<std::vector<A>>> v([&] { return Vec<A, 2>::make(p); });
      retried("making an array of a type", type_str(tp), [&] { a = nd::array(*v.c, tp); });
    }
  }
  template <class A> void given(nd::array &, const P &, int, const ndt::type &, std::false_type) {}

  // ---- records ----
  void record(Rng &r) {
    int n = r.pickl({0, 1, 2, 2, 3, 4});
    bool st = r.chance(1, 2);
    static const char *const fn[] = {"x", "y", "length_of_it", "d"};
    T t;
    t.k = st ? STRUCT : TUPLE;
    std::vector<P> v;
    Held<std::vector<nd::array>> in([] { return std::vector<nd::array>(); });
    for (int i = 0; i < n; i++) {
      bool own = r.chance(1, 2);
      Slot &s = any(r);
      T et = s.t;
      P ep = s.p;
      nd::array e;
      if (own) {
        Gen g;
        g.opts = false;
        et = typed::gen_type(r, g, 2);
        ep = typed::gen_value(r, g, et);
        e = fresh(et, ep);
      } else {
        Mode m(M_SIM);
        e = s.a;
      }
      t.sub.push_back(et);
      v.push_back(ep);
      if (st)
        t.names.push_back(fn[i]);
      Mode q(M_QUIET);
      in.c->push_back(std::move(e));
    }
    for (int i = 0; i < n; i++)
      if (!all_set(t.sub[i], v[i])) { // copies of var dimensions without a size
        release(in);
        return;
      }
    nd::array a;
    if (st) {
      Held<std::vector<std::pair<const char *, nd::array>>> pairs([&] {
        std::vector<std::pair<const char *, nd::array>> o;
        for (int i = 0; i < n; i++)
          o.emplace_back(fn[i], (*in.c)[i]);
        return o;
      });
      retried("as_struct", ds(t), [&] { a = nd::as_struct(n, pairs.c->data()); });
      Mode m(M_SIM);
      for (auto &e : *pairs.c)
        e.second = nd::array();
    } else
      retried("nd::tuple", ds(t), [&] { a = nd::tuple(n, in.c->data()); });
    check_type("a record of arrays", a, t);
    check_dump("wrong-value", "a record of arrays", a, text(t, list(v)));
    release(in);
    check_dump("wrong-value", "a record of arrays that are gone", a, text(t, list(v)));
    if (n) {
      int i = r.below(n);
      nd::array f;
      retried("taking a field", ds(t), [&] { f = st && r.chance(1, 2) ? a.p(fn[i]) : a(i); });
      drop(a);
      check_type("a field", f, t.sub[i]);
      check_dump("wrong-value", "a field", f, text(t.sub[i], v[i]));
      drop(f);
    } else
      drop(a);
    PROBE("records");
  }
  static void release(Held<std::vector<nd::array>> &in) {
    for (auto &e : *in.c)
      drop(e);
  }
  // ---- a tuple of pointers: the arrays themselves, not copies ----
  void point(Rng &r) {
    int n = r.pickl({0, 1, 2, 3, 4});
    Held<std::vector<nd::array>> in([] { return std::vector<nd::array>(); });
    std::vector<T> t;
    std::vector<P> p;
    int own = -1;
    for (int i = 0; i < n; i++) {
      T et;
      P ep;
      nd::array e;
      if (own < 0 || r.chance(1, 2)) {
        et = dims(r, scalar(r.pick(kinds)), 0, 2, true);
        ep = values(r, et);
        e = fresh(et, ep);
        own = i;
      } else {
        Slot &s = any(r);
        et = s.t, ep = s.p;
        Mode m(M_SIM);
        e = s.a;
      }
      t.push_back(et);
      p.push_back(ep);
      Mode q(M_QUIET);
      in.c->push_back(std::move(e));
    }
    std::string want = "(", wtp = "(";
    auto texts = [&] {
      want = "(", wtp = "(";
      for (int i = 0; i < n; i++) {
        want += (i ? ", *" : "*") + text(t[i], p[i]);
        wtp += (i ? ", pointer[" : "pointer[") + ds(t[i]) + "]";
      }
      want += ")", wtp += ")";
    };
    texts();
    nd::array a;
    retried("combine_into_tuple", wtp, [&] { a = nd::combine_into_tuple(n, in.c->data()); });
    std::string got = type_str(a.get_type());
    if (got != wtp)
      rt::violation("wrong-type", "combine_into_tuple: the type is %s, expected %s", got.c_str(), wtp.c_str());
    check_dump("wrong-value", "combine_into_tuple", a, want);
    if (own >= 0) { // a change is seen through the tuple
      P np = values(r, t[own]);
      if (!has(t[own], VAR)) {
        Mode q(M_QUIET);
        fill((*in.c)[own], t[own], np);
        p[own] = np;
      }
      texts();
      check_dump("wrong-value", "combine_into_tuple after a change", a, want);
    }
    bool late = r.chance(1, 2);
    if (!late)
      release(in);
    // parts of the tuple, and of what it points to
    nd::array part;
    std::string pwant, pname = "a part of " + wtp;
    if (n && r.chance(2, 3)) {
      irange ir[5];
      int k = 0, i = r.below(n);
      std::string ptp;
      T cur;
      P pcur;
      bool one = false;
      if (r.chance(1, 3)) {
        int j = r.range(i + 1, n);
        ir[k++] = r.chance(1, 3) ? (i = 0, j = n, irange()) : irange(i, j);
        pwant = ptp = "(";
        for (int x = i; x < j; x++) {
          pwant += (x > i ? ", *" : "*") + text(t[x], p[x]);
          ptp += (x > i ? ", pointer[" : "pointer[") + ds(t[x]) + "]";
        }
        pwant += ")", ptp += ")";
      } else {
        cur = t[i], pcur = p[i], one = true;
        ir[k++] = irange(i);
        some_part(r, cur, pcur, ir, k, pname);
        pwant = "*" + text(cur, pcur);
        ptp = "pointer[" + ds(cur) + "]";
      }
      retried("taking a part of a tuple of pointers", wtp, [&] { part = a.at_array(k, ir); });
      got = type_str(part.get_type());
      if (got != ptp)
        rt::violation("wrong-type", "%s: the type is %s, expected %s", pname.c_str(), got.c_str(), ptp.c_str());
      check_dump("wrong-value", pname.c_str(), part, pwant);
      if (one && !is_scalar(cur) && r.chance(1, 2)) { // and a part of the part
        k = 0;
        pname += " |";
        some_part(r, cur, pcur, ir, k, pname);
        nd::array from;
        {
          Mode q(M_SIM);
          from = part;
        }
        retried("taking a part of a pointer", ptp, [&] { part = from.at_array(k, ir); });
        drop(from);
        pwant = "*" + text(cur, pcur);
        ptp = "pointer[" + ds(cur) + "]";
        got = type_str(part.get_type());
        if (got != ptp)
          rt::violation("wrong-type", "%s: the type is %s, expected %s", pname.c_str(), got.c_str(), ptp.c_str());
        check_dump("wrong-value", pname.c_str(), part, pwant);
      }
      PROBE("parts of what pointers point to");
    }
    if (late)
      release(in);
    check_dump("wrong-value", "combine_into_tuple after the arrays were let go", a, want);
    drop(a);
    if (!pwant.empty())
      check_dump("wrong-value", (pname + " after all else was let go").c_str(), part, pwant);
    drop(part);
    PROBE("tuples of pointers");
  }
  typedef std::vector<std::array<long, 3>> Sel; // 0: one, 1: from .. to, 2: all
  static void some_part(Rng &r, T &t, P &p, irange *ir, int &k, std::string &name) {
    Sel ix;
    for (const T *u = &t; u->k == FIXED && k < 4 && u->n && r.chance(2, 3); u = &u->sub[0]) {
      long lo = r.below(u->n), hi = r.range(lo + 1, u->n);
      int w = r.below(3);
      ix.push_back({w, lo, hi});
      ir[k++] = w == 0 ? irange(lo) : w == 1 ? irange(lo, hi) : irange();
      name += w == 0 ? fmt(" %ld", lo) : w == 1 ? fmt(" %ld:%ld", lo, hi) : " all";
    }
    P q = select(t, p, ix, 0);
    t = select_type(t, ix, 0);
    p = q;
  }
  static T select_type(const T &t, const Sel &ix, size_t i) {
    if (i == ix.size())
      return t;
    T e = select_type(t.sub[0], ix, i + 1);
    if (ix[i][0] == 0)
      return e;
    T o = t;
    if (ix[i][0] == 1)
      o.n = ix[i][2] - ix[i][1];
    o.sub[0] = e;
    return o;
  }
  static P select(const T &t, const P &p, const Sel &ix, size_t i) {
    if (i == ix.size())
      return p;
    if (ix[i][0] == 0)
      return select(t.sub[0], p->v[ix[i][1]], ix, i + 1);
    P o = clone(t, p);
    o->v.clear();
    long lo = ix[i][0] == 1 ? ix[i][1] : 0, hi = ix[i][0] == 1 ? ix[i][2] : (long)p->v.size();
    for (; lo < hi; lo++)
      o->v.push_back(select(t.sub[0], p->v[lo], ix, i + 1));
    return o;
  }

  // ---- zeros, ones ----
  static void filled(Rng &r) {
    K k = r.chance(1, 8) ? OPT : (K)r.range(BOOL, F64);
    T e = k == OPT ? opt(I32) : scalar(k);
    int nd_ = r.below(4), how = r.below(4);
    bool one = r.chance(1, 2);
    T t = e;
    std::vector<intptr_t> shape;
    for (int i = 0; i < nd_; i++) {
      shape.insert(shape.begin(), r.chance(1, 10) ? 0 : r.range(1, 5));
      t = dim((int)shape[0], t);
    }
    std::function<P(const T &)> fill_ = [&](const T &x) {
      P p(new V());
      p->unset = false;
      if (x.k == FIXED)
        for (int i = 0; i < x.n; i++)
          p->v.push_back(fill_(x.sub[0]));
      else if (x.k == OPT)
        p->v = {fill_(x.sub[0])};
      else
        p->i = one, p->d = one;
      return p;
    };
    P p = fill_(t);
    ndt::type tp;
    must_do("the type", [&] { tp = typed::make(e); });
    nd::array a;
    retried("filling", ds(t), [&] {
      if (how && nd_ == 1)
        a = one ? nd::ones(shape[0], tp) : nd::zeros(shape[0], tp);
      else if (how && nd_ == 2)
        a = one ? nd::ones(shape[0], shape[1], tp) : nd::zeros(shape[0], shape[1], tp);
      else
        a = one ? nd::dtyped_ones(nd_, shape.data(), tp) : nd::dtyped_zeros(nd_, shape.data(), tp);
    });
    check_type(one ? "ones" : "zeros", a, t);
    check_dump("wrong-value", one ? "ones" : "zeros", a, text(t, p));
    drop(a);
    Mode m(M_SIM);
    tp = ndt::type();
    PROBE("zeros and ones");
  }

  // ---- empty, dtyped_empty ----
  static void made(Rng &r) {
    T t = scalar(r.chance(1, 5) ? STR : (K)r.range(BOOL, F64));
    ndt::type tp;
    must_do("the type", [&] { tp = typed::make(t); });
    int n = r.below(5), how = r.below(3);
    std::vector<intptr_t> shape;
    for (int i = 0; i < n; i++) {
      shape.insert(shape.begin(), r.chance(1, 6) ? -1 : r.chance(1, 8) ? 0 : r.range(1, 4));
      t = dim((int)shape[0], t);
    }
    nd::array a;
    retried("making an array of a shape", ds(t), [&] {
      if (how == 0 && n == 1)
        a = nd::empty(shape[0], tp);
      else if (how == 0 && n == 2)
        a = nd::empty(shape[0], shape[1], tp);
      else if (how == 0 && n == 3)
        a = nd::empty(shape[0], shape[1], shape[2], tp);
      else if (how == 1)
        a = nd::dtyped_empty(shape, tp);
      else
        a = nd::dtyped_empty(n, shape.data(), tp);
    });
    check_type("an empty array", a, t);
    if (!a.get_flags() || (a.get_flags() & nd::write_access_flag) == 0)
      rt::violation("wrong-flags", "a new array of %s cannot be written to", ds(t).c_str());
    P p = gen_value(r, Gen(), t);
    {
      Mode q(M_QUIET);
      typed::fill(a, t, p);
    }
    check_dump("wrong-value", "an empty array after its elements were set", a, text(t, p));
    drop(a);
    Mode m(M_SIM);
    tp = ndt::type();
  }

  // ---- vals, vals_at ----
  static void vals(Rng &r) {
    K k = (K)r.range(I8, F64);
    T t = dims(r, scalar(k), 1, 3, false);
    P p = small(r, t);
    nd::array a = build(r, t, p);
    P before = clone(t, p);
    // the part that changes
    int ni = r.below(ndim(t) + 1);
    std::vector<irange> ix;
    std::vector<int> fixed_;
    T vt = t, *cur = &vt;
    std::vector<std::vector<int>> sel;
    T u = t;
    bool empty = false;
    for (int i = 0; i < ni; i++) {
      int n = u.n;
      std::vector<int> s;
      bool single = false;
      if (n == 0 || r.chance(1, 4)) {
        ix.push_back(irange());
        for (int j = 0; j < n; j++)
          s.push_back(j);
      } else if (r.chance(1, 2)) {
        int j = r.below(n);
        ix.push_back(irange(r.chance(1, 2) ? j : j - n));
        s.push_back(j);
        single = true;
      } else {
        int lo = r.below(n), hi = r.range(lo, n), step = r.pickl({1, 2, -1});
        if (step > 0) {
          ix.push_back(irange(lo, hi, step));
          for (int j = lo; j < hi; j += step)
            s.push_back(j);
        } else {
          ix.push_back(irange(lo, std::numeric_limits<intptr_t>::max(), -1));
          for (int j = lo; j >= 0; j--)
            s.push_back(j);
        }
      }
      empty |= s.empty();
      sel.push_back(s);
      u = T(u.sub[0]);
      if (single) {
        T e = cur->sub[0];
        *cur = e;
      } else {
        cur->n = (int)s.size();
        cur = &cur->sub[0];
      }
      fixed_.push_back(single);
    }
    // values: one for all, or an array of the shape
    bool whole = ndim(vt) > 0 && r.chance(1, 2);
    K k2 = (K)r.range(I8, F64);
    T st = whole ? redtype(vt, scalar(k2)) : scalar(k2);
    P sp = small(r, st);
    std::function<void(P &, const P *, size_t)> put = [&](P &d, const P *s, size_t i) {
      if (i < sel.size()) {
        for (size_t j = 0; j < sel[i].size(); j++)
          put(d->v[sel[i][j]], !s ? s : fixed_[i] ? s : &(*s)->v[j], i + 1);
        return;
      }
      if (!d->v.empty()) {
        for (size_t j = 0; j < d->v.size(); j++)
          put(d->v[j], s ? &(*s)->v[j] : s, i);
        return;
      }
      const P &x = s ? *s : sp;
      if (x->v.empty() && !x->unset) {
        d = P(new V(*x));
      }
    };
    std::function<bool(const T &)> hollow = [&](const T &x) { return x.k == FIXED && (x.n == 0 || hollow(x.sub[0])); };
    if (!hollow(t))
      put(p, whole ? &sp : nullptr, 0);
    nd::array src = whole ? build(r, st, sp) : nd::array();
    auto run = [&] {
      if (whole) {
        switch (ni) {
        case 0:
          a.vals() = src;
          break;
        case 1:
          a.vals_at(ix[0]) = src;
          break;
        case 2:
          a.vals_at(ix[0], ix[1]) = src;
          break;
        default:
          a.vals_at(ix[0], ix[1], ix[2]) = src;
        }
      } else
        with(k2, [&](auto z) {
          typedef decltype(z) A;
          A x = Leaf<A>::get(sp);
          switch (ni) {
          case 0:
            a.vals() = x;
            break;
          case 1:
            a.vals_at(ix[0]) = x;
            break;
          case 2:
            a.vals_at(ix[0], ix[1]) = x;
            break;
          default:
            a.vals_at(ix[0], ix[1], ix[2]) = x;
          }
          return 0;
        });
    };
    Outcome o = attempt(run);
    if (!o.ok && (!rt::op_fired_mask() || o.type != "std::bad_alloc"))
      unexpected("vals", o, ds(st) + " to a part of " + ds(t));
    if (!o.ok) {
      torn("vals", a, t, before, p);
      rt::op_faults_off();
      must_do("vals after a failure", run);
    }
    check_dump("wrong-value", fmt("%s to a part of %s", text(st, sp).c_str(), text(t, before).c_str()).c_str(), a, text(t, p));
    drop(src);
    drop(a);
    PROBE("vals");
    if (ni)
      PROBE("vals_at");
  }

  // ---- shapes ----
  static void shape(Rng &r) {
    K k = r.pick(kinds);
    T t = dims(r, scalar(k), 0, 3, true);
    P p = values(r, t);
    nd::array a = build(r, t, p);
    int n = ndim(t);
    if (a.get_ndim() != n || a.is_scalar() != (n == 0))
      rt::violation("wrong-shape", "%s has %d dimensions", ds(t).c_str(), (int)a.get_ndim());
    Held<std::vector<intptr_t>> sh([] { return std::vector<intptr_t>(); }), st([] { return std::vector<intptr_t>(); });
    retried("get_shape", ds(t), [&] { *sh.c = a.get_shape(); });
    if ((int)sh.c->size() != n)
      rt::violation("wrong-shape", "get_shape of %s has %d sizes", ds(t).c_str(), (int)sh.c->size());
    const T *u = &t;
    for (int i = 0; i < n; i++, u = &u->sub[0])
      if (u->k == FIXED && (*sh.c)[i] != u->n)
        rt::violation("wrong-shape", "get_shape of %s: size %d is %d", ds(t).c_str(), i, (int)(*sh.c)[i]);
    if (t.k == VAR && (*sh.c)[0] != (intptr_t)p->v.size())
      rt::violation("wrong-shape", "get_shape of %s: size 0 is %d, not %d", ds(t).c_str(), (int)(*sh.c)[0], (int)p->v.size());
    if (n) {
      intptr_t d = -2;
      retried("get_dim_size", ds(t), [&] { d = a.get_dim_size(); });
      if (d != (intptr_t)p->v.size())
        rt::violation("wrong-shape", "get_dim_size of %s is %d, not %d", ds(t).c_str(), (int)d, (int)p->v.size());
      int i = r.below(n);
      u = &t;
      for (int j = 0; j < i; j++)
        u = &u->sub[0];
      if (u->k == FIXED) {
        retried("get_dim_size", ds(t), [&] { d = a.get_dim_size(i); });
        if (d != u->n)
          rt::violation("wrong-shape", "get_dim_size(%d) of %s is %d", i, ds(t).c_str(), (int)d);
      }
    }
    Outcome o = attempt([&] { a.get_dim_size(n); });
    if (o.ok)
      rt::violation("lost-error", "get_dim_size(%d) of %s is accepted", n, ds(t).c_str());
    for (int i = 0; i <= n + 1; i++) {
      std::string got;
      Outcome oc = attempt([&] {
        ndt::type d = a.get_dtype(i);
        got = type_str(d);
      });
      const T *w = &t;
      for (int j = 0; j < n - i; j++)
        w = &w->sub[0];
      if (i <= n) {
        if (!oc.ok && rt::op_fired_mask())
          continue;
        if (!oc.ok)
          unexpected("get_dtype", oc, ds(t));
        if (got != ds(*w))
          rt::violation("wrong-type", "get_dtype(%d) of %s is %s", i, ds(t).c_str(), got.c_str());
      } else if (oc.ok)
        rt::violation("lost-error", "get_dtype(%d) of %s is %s", i, ds(t).c_str(), got.c_str());
    }
    // strides lead to the elements
    if (n && !has(t, VAR)) {
      retried("get_strides", ds(t), [&] { *st.c = a.get_strides(); });
      intptr_t off = 0;
      nd::array b;
      {
        Mode m(M_SIM);
        b = a;
      }
      bool none = false;
      u = &t;
      for (int i = 0; i < n && !none; i++, u = &u->sub[0]) {
        if (u->n == 0) {
          none = true;
          break;
        }
        int j = r.below(u->n);
        off += j * (*st.c)[i];
        nd::array c;
        retried("indexing", ds(t), [&] { c = b(j); });
        Mode m(M_SIM);
        b = std::move(c);
      }
      if (!none && b.cdata() != a.cdata() + off)
        rt::violation("wrong-shape", "the strides of %s do not lead to an element", ds(t).c_str());
      drop(b);
    }
    nd::array e, s;
    retried("eval", ds(t), [&] { e = a.eval(); });
    retried("storage", ds(t), [&] { s = a.storage(); });
    check_dump("wrong-value", "eval", e, text(t, p));
    if (e.get() != a.get() || s.cdata() != a.cdata() || s.get_ndim() != a.get_ndim() || s.get_dtype().get_data_size() != a.get_dtype().get_data_size())
      rt::violation("copied", "eval or storage of %s is other memory", ds(t).c_str());
    drop(e), drop(s), drop(a);
    PROBE("shapes");
  }
  void like(Rng &r) {
    K k = r.chance(1, 4) ? STR : r.pick(kinds);
    bool other = r.chance(1, 2);
    T t;
    P p;
    nd::array a;
    if (r.chance(1, 3)) {
      Slot &s = any(r);
      t = s.t, p = s.p;
      Mode m(M_SIM);
      a = s.a;
    } else if (k == STR) {
      t = dims(r, scalar(k), 0, 4, false);
      p = values(r, t);
      a = fresh(t, p);
    } else {
      t = dims(r, scalar(k), 0, 4, false);
      p = values(r, t);
      a = build(r, t, p);
    }
    if (has(t, VAR)) { // sizes of var dimensions are not part of the type
      drop(a);
      return;
    }
    K k2 = other ? r.pick(kinds) : dtype(t).k;
    ndt::type tp;
    must_do("the type", [&] { tp = typed::make(scalar(k2)); });
    nd::array b;
    retried("empty_like", ds(t), [&] { b = other ? nd::empty_like(a, tp) : nd::empty_like(a); });
    T rt_ = redtype(t, scalar(k2));
    check_type("empty_like", b, rt_);
    if (ndim(t)) { // packed, with the dimensions in the order of the source
      Held<std::vector<intptr_t>> x([] { return std::vector<intptr_t>(); }), y([] { return std::vector<intptr_t>(); });
      retried("get_strides", ds(t), [&] {
        *x.c = a.get_strides();
        *y.c = b.get_strides();
      });
      std::vector<std::pair<intptr_t, int>> by; // |stride|, size
      const T *u = &rt_;
      bool none = false;
      size_t elem = (size_t)b.get_dtype().get_data_size();
      for (size_t i = 0; i < y.c->size(); i++, u = &u->sub[0]) {
        none |= u->n == 0;
        if (u->n > 1)
          by.emplace_back((*y.c)[i], u->n);
        for (size_t j = i + 1; j < y.c->size(); j++) {
          const T *w = &rt_;
          for (size_t q = 0; q < j; q++)
            w = &w->sub[0];
          if (u->n > 1 && w->n > 1 && std::llabs((*x.c)[i]) != std::llabs((*x.c)[j]) && (std::llabs((*x.c)[i]) < std::llabs((*x.c)[j])) != ((*y.c)[i] < (*y.c)[j]))
            none = none || (rt::violation("wrong-shape", "empty_like of %s does not keep the order of the dimensions", ds(t).c_str()), true);
        }
      }
      std::sort(by.begin(), by.end());
      intptr_t want = (intptr_t)elem;
      for (auto &e : by) {
        if (!none && e.first != want)
          rt::violation("wrong-shape", "empty_like of %s is not packed: a stride of %d, not %d", ds(t).c_str(), (int)e.first, (int)want);
        want *= e.second;
      }
    }
    if (!other) {
      Outcome o = attempt([&] { b.assign(a); });
      if (!o.ok && !rt::op_fired_mask())
        unexpected("assigning to empty_like", o, ds(t));
      if (o.ok)
        check_dump("wrong-value", "empty_like, assigned", b, text(t, p));
    }
    drop(b);
    drop(a);
    Mode m(M_SIM);
    tp = ndt::type();
    PROBE("empty_like");
  }
  void as_array(Rng &r) {
    T t;
    P p;
    nd::array a;
    int how = r.below(3);
    if (how == 0) { // as it is
      Slot &s = any(r);
      t = s.t, p = s.p;
      Mode m(M_SIM);
      a = s.a;
    } else {
      t = dims(r, scalar((K)r.range(I8, F64)), 1, 3, how == 1);
      p = small(r, t);
      a = build(r, t, p);
    }
    T rt_ = t;
    std::string want = ds(t);
    ndt::type tp;
    if (how == 0 && r.chance(1, 2)) {
      const T *u = &t;
      want.clear();
      for (; u->k == FIXED || u->k == VAR; u = &u->sub[0])
        want += u->k == FIXED ? "Fixed * " : "var * ";
      want += r.chance(1, 2) && u->k != STR ? "Scalar" : ds(*u);
    } else if (how == 1) {
      rt_ = redtype(t, scalar((K)r.range(I8, F64)));
      if (rt_.k == FIXED && r.chance(1, 3)) {
        T e = dim(-1, rt_.sub[0]);
        rt_ = e;
      }
      want = ds(rt_);
    } else if (how == 2) {
      rt_ = redtype(t, scalar((K)r.range(I8, F64)));
      want.clear();
      const T *u = &rt_;
      for (; u->k == FIXED; u = &u->sub[0])
        want += r.chance(1, 2) ? "Fixed * " : fmt("%d * ", u->n);
      want += ds(*u);
    }
    must_do("the type", [&] { tp = ndt::type(want); });
    nd::array b;
    retried("asarray", ds(t) + " as " + want, [&] { b = nd::asarray(a, tp); });
    if (how == 0 && b.get() != a.get())
      rt::violation("copied", "asarray of %s as %s is another array", ds(t).c_str(), want.c_str());
    check_type("asarray", b, rt_);
    check_dump("wrong-value", "asarray", b, text(rt_, p));
    drop(b);
    drop(a);
    {
      Mode m(M_SIM);
      tp = ndt::type();
    }
    PROBE("asarray");
    if (how == 2)
      PROBE("asarray of a pattern");
  }

  // ---- iteration ----
  template <class A> static void iterate(Rng &r) {
    K k = kind_of<A>();
    int n = r.pickl({1, 2});
    T t = dims(r, scalar(k), n, n, false);
    P p = values(r, t);
    nd::array a = build(r, t, p);
    std::string got;
    int count = 0;
    if (n == 1) {
      got = "[";
      must_do("iterating", [&] {
        auto v = a.view<fixed<A>>();
        Mode k_(M_SIM);
        count = (int)v.size();
        for (auto x : v) {
          A y = x;
          Mode h(M_HOST);
          got += (got.size() > 1 ? ", " : "") + text(scalar(k), box(y));
        }
        if (count) {
          int i = t.n - 1;
          A y = v[i];
          Mode h(M_HOST);
          if (text(scalar(k), box(y)) != text(scalar(k), p->v[i]))
            rt::violation("wrong-value", "element %d of a view of %s", i, text(t, p).c_str());
        }
      });
      got += "]";
    } else {
      got = "[";
      must_do("iterating", [&] {
        auto v = a.view<fixed<fixed<A>>>();
        count = (int)v.size();
        for (auto row : v) {
          {
            Mode h(M_HOST);
            got += got.size() > 1 ? ", [" : "[";
          }
          bool first = true;
          for (auto x : row) {
            A y = x;
            Mode h(M_HOST);
            got += (first ? "" : ", ") + text(scalar(k), box(y));
            first = false;
          }
          Mode h(M_HOST);
          got += "]";
        }
      });
      got += "]";
    }
    if (count != t.n)
      rt::violation("wrong-shape", "a view of %s has size %d", ds(t).c_str(), count);
    if (got != text(t, p))
      rt::violation("wrong-value", "iterating over %s of %s gives %s", text(t, p).c_str(), ds(t).c_str(), got.c_str());
    drop(a);
    PROBE("iteration");
    if (t.n == 1)
      PROBE("one element");
  }

  // dynd::begin<N>: all the elements of containers of containers, one after the other
  template <int N, class C> static void flat(C &c, const P &p, const char *what) {
    std::vector<std::string> want;
    std::function<void(const P &, int)> walk = [&](const P &q, int n) {
      if (n == 0)
        want.push_back(I(q->i));
      else
        for (auto &e : q->v)
          walk(e, n - 1);
    };
    walk(p, N);
    std::string got;
    size_t n = 0;
    must_do("iterating", [&] {
      for (auto it = dynd::begin<N>(c); it != dynd::end<N>(c); ++it) {
        long long x = *it;
        Mode h(M_HOST);
        if (n >= want.size() || want[n] != I(x))
          rt::violation("wrong-value", "nested iteration over %s: element %d is %lld", what, (int)n, x);
        n++;
      }
    });
    if (n != want.size())
      rt::violation("wrong-value", "nested iteration over %s visits %d of %d elements", what, (int)n, (int)want.size());
  }
  static void nested(Rng &r) {
    int depth = r.pickl({1, 2, 2, 3, 3});
    P p = tree(r, I32, depth);
    std::string what = text(types_of(p, I32, depth)[0], p);
    if (depth == 1) {
      Held<std::vector<int>> c([&] { return Vec<int, 1>::make(p); });
      flat<1>(*c.c, p, what.c_str());
    } else if (depth == 2) {
      Held<std::vector<std::vector<int>>> c([&] { return Vec<int, 2>::make(p); });
      const auto &cc = *c.c;
      r.chance(1, 2) ? flat<2>(*c.c, p, what.c_str()) : flat<2>(cc, p, what.c_str());
    } else {
      Held<std::vector<std::vector<std::vector<int>>>> c([&] { return Vec<int, 3>::make(p); });
      const auto &cc = *c.c;
      r.chance(1, 2) ? flat<3>(*c.c, p, what.c_str()) : flat<3>(cc, p, what.c_str());
    }
    PROBE("nested iteration");
  }

  void exec(const Op &o, int) override {
    Rng r(((uint64_t)(unsigned short)o.a[0] << 16) ^ (unsigned short)o.a[1]);
    switch (o.kind) {
    case A_SCALAR:
      scalars(r);
      break;
    case A_VECTOR:
      vectors(r);
      break;
    case A_LIST:
      switch (r.below(5)) {
      case 0:
        lists<bool>(r);
        break;
      case 1:
        lists<int64_t>(r);
        break;
      case 2:
        lists<float>(r);
        break;
      case 3:
        lists<int32_t>(r);
        break;
      default:
        lists<std::string>(r);
      }
      break;
    case A_STATIC:
      switch (r.below(6)) {
      case 0:
        statics<int16_t>(r);
        break;
      case 1:
        statics<double>(r);
        break;
      case 2:
        statics<uint8_t>(r);
        break;
      case 3:
        statics<bool>(r);
        break;
      case 4:
        statics<std::string>(r);
        break;
      default:
        tuples(r);
      }
      break;
    case A_TYPED:
      typed_(r);
      break;
    case A_RECORD:
      record(r);
      break;
    case A_POINT:
      point(r);
      break;
    case A_FILLED:
      r.chance(1, 2) ? filled(r) : made(r);
      break;
    case A_VALS:
      vals(r);
      break;
    case A_SHAPE:
      shape(r);
      break;
    case A_LIKE:
      like(r);
      break;
    case A_ASARRAY:
      as_array(r);
      break;
    case A_ITERATE:
      if (r.chance(1, 2))
        iterate<int32_t>(r);
      else
        iterate<double>(r);
      break;
    case A_NESTED:
      nested(r);
      break;
    case A_COMMON: {
      nd::array a;
      std::vector<T> t = types_of(strings_p, STR, 2);
      retried("a common vector", all(t), [&] { a = nd::array(*strings->c); });
      check_either("a common vector", a, t, strings_p);
      drop(a);
      PROBE("a common vector");
      break;
    }
    }
  }
};
Register reg("C18", "values", []() -> Scenario * { return new C18; }, Tuning());
} // namespace
