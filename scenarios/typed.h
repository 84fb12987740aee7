// Random nested types and values with an independent model of their contents.
#pragma once
#include "dynd_sim.h"

namespace typed {
enum K { BOOL, I8, I16, I32, I64, U8, U16, U32, U64, F32, F64, C64, C128, STR, BYTES, FSTR, FBYTES, OPT, FIXED, VAR, TUPLE, STRUCT, PTR };
struct T {
  K k = I32;
  int n = 0; // size of fixed things
  std::vector<T> sub;
  std::vector<std::string> names;
};
struct V;
// Plain reference count: fibers switch only at instrumented points, and these are none.
#define TYPED_PLAIN __attribute__((no_sanitize("thread"), noinline))
struct P {
  V *p = nullptr;
  P() {}
  P(std::nullptr_t) {}
  explicit P(V *v) : p(v) { hold(v); }
  P(const P &o) : p(o.p) { hold(p); }
  P(P &&o) : p(o.p) { o.p = nullptr; }
  P &operator=(P o) {
    std::swap(p, o.p);
    return *this;
  }
  ~P() {
    if (p && drop(p))
      destroy(p);
  }
  V *get() const { return p; }
  V *operator->() const { return p; }
  V &operator*() const { return *p; }
  explicit operator bool() const { return p; }
  void reset() { *this = P(); }
  static void hold(V *v);
  static bool drop(V *v);
  static void destroy(V *v);
};
struct V {
  long refs = 0;
  long long i = 0;
  double d = 0, im = 0;
  std::string s;
  bool na = false;  // option
  bool unset = true; // var: never given a size
  std::vector<P> v;
  V() {}
  V(const V &o) : i(o.i), d(o.d), im(o.im), s(o.s), na(o.na), unset(o.unset), v(o.v) {}
};
struct Gen {
  bool strings = true, bytes = true, fstr = true, opts = true, vars = true, recs = true, fixeds = true;
  bool fbytes = false; // the library does not assign fixed_bytes
  bool strvars = true; // elements with out-of-line data inside var dims
  int maxdim = 4, maxlen = 24;
  bool longvars = false;
  bool rich = false; // strings with quotes, controls and characters past ASCII
};
inline bool is_scalar(const T &t) { return t.k < FIXED; }
inline bool is_int(K k) { return k >= I8 && k <= U64; }
T gen_scalar(Rng &r, const Gen &g);
T gen_type(Rng &r, const Gen &g, int depth);
P gen_value(Rng &r, const Gen &g, const T &t);
P blank(const T &t);              // what nd::empty gives where it gives something defined
P clone(const T &t, const P &p);
void copy_into(const T &t, const P &dst, const P &src); // in-place, keeps the nodes of fixed structure
bool same(const T &t, const P &a, const P &b);
std::string text(const T &t, const P &p); // as dump()
void text_to(std::string &o, const T &t, const P &p);
std::string ds(const T &t);               // datashape text
std::string to_json(const T &t, const P &p, Rng *ws = nullptr);
ndt::type make(const T &t);               // through the constructors
// writes the value through raw memory, strings through dynd::string::assign, var blocks through the memory block
void fill(const T &t, const P &p, const char *meta, char *data);
void fill(const nd::array &a, const T &t, const P &p);
bool has(const T &t, K k);
bool pod(const T &t); // no out-of-line data
int leaves(const T &t, const P &p);
} // namespace typed
