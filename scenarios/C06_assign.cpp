// C06: conversions between element types under each error mode, through arrays of every layout.
#include "numeric.h"
#include <cfloat>
#include <dynd/assignment.hpp>
using namespace numeric;

namespace {
enum { A_METHOD, A_FUNC, A_DEFAULT, A_AS, NK };
const char *const names[] = {"assign", "nd::assign", "assign in the default mode", "as"};
enum { NF = 9 };
const char *const modes[] = {"nocheck", "overflow", "fractional", "inexact", "default"};
struct Slot {
  nd::array a;
  T t;
  P p;
};
bool num(K k) { return k <= F64; }
bool flt(K k) { return k == F32 || k == F64; }
P mk(long long i) {
  P p(new V());
  p->unset = false, p->i = i;
  return p;
}
std::string trim(const std::string &s) {
  size_t b = s.find_first_not_of(" \t\r\n"), e = s.find_last_not_of(" \t\r\n");
  return b == s.npos ? "" : s.substr(b, e - b + 1);
}
std::string low(std::string s) {
  for (char &c : s)
    c = c >= 'A' && c <= 'Z' ? c + 32 : c;
  return s;
}
bool na_word(const std::string &s) { return s == "" || s == "NA" || s == "None" || low(s) == "null"; }

// "-"? digits ( "." zeros | e "+"? zeros? digit{1,2} )?
bool int_text(const std::string &s, bool &neg, unsigned __int128 &v) {
  size_t i = 0;
  neg = !s.empty() && s[0] == '-';
  i += neg;
  size_t b = i;
  v = 0;
  const unsigned __int128 cap = (unsigned __int128)1 << 100;
  for (; i < s.size() && isdigit((unsigned char)s[i]); i++)
    if (v < cap)
      v = v * 10 + (s[i] - '0');
  if (i == b)
    return false;
  if (i == s.size())
    return true;
  if (s[i] == '.') {
    for (i++; i < s.size() && s[i] == '0'; i++)
      ;
    return i == s.size();
  }
  if (s[i] != 'e' && s[i] != 'E')
    return false;
  i++;
  if (i < s.size() && s[i] == '+')
    i++;
  if (i == s.size())
    return false;
  while (i < s.size() && s[i] == '0')
    i++;
  int e = 0;
  for (int j = 0; j < 2 && i < s.size() && isdigit((unsigned char)s[i]); j++, i++)
    e = e * 10 + (s[i] - '0');
  if (i != s.size())
    return false;
  for (; e > 0; e--)
    if (v < cap)
      v *= 10;
  return true;
}
int bool_text(const std::string &t) { // -1: not one
  std::string s = low(t);
  for (const char *w : {"0", "n", "f", "no", "off", "false"})
    if (s == w)
      return 0;
  for (const char *w : {"1", "y", "t", "yes", "on", "true"})
    if (s == w)
      return 1;
  return -1;
}
bool float_text(const std::string &t, double &v) {
  std::string s = low(t);
  size_t i = !s.empty() && s[0] == '-';
  std::string w = s.substr(i);
  if (w == "nan" || w == "inf" || w == "infinity") {
    v = w == "nan" ? NAN : i ? -INFINITY : INFINITY;
    return true;
  }
  if (s.empty() || s[0] == ' ')
    return false;
  char *e;
  v = strtod(s.c_str(), &e);
  return !*e;
}

struct Conv : Elem {
  T d;
  int mode;
  Conv(const T &d, int mode) : d(d), mode(mode) {}
  bool type(const std::vector<T> &, T &out) const override {
    out = d;
    return true;
  }
  static bool supported(const T &d, const T &s) {
    if (s.k == OPT && d.k == OPT)
      return supported(d.sub[0], s.sub[0]);
    if (s.k == OPT)
      return supported(d, s.sub[0]);
    if (d.k == OPT)
      return supported(d.sub[0], s);
    if (num(d.k) && num(s.k))
      return true;
    if (d.k >= I8 && d.k <= I64)
      return s.k == STR || s.k == FSTR;
    if (d.k == BOOL || flt(d.k))
      return s.k == STR;
    if (d.k == STR)
      return s.k == STR || s.k == FSTR;
    if (d.k == FSTR)
      return s.k == STR || s.k == FSTR || s.k == I32;
    if (d.k == BYTES)
      return s.k == BYTES;
    return false;
  }
  static P from_text(K d, const std::string &s, int mode, bool &ub) {
    bool check = mode >= 1 && mode <= 4;
    if (d == BOOL) {
      int b = bool_text(s);
      if (b < 0 && (mode == 0 || mode == 4))
        ub = true; // anything goes
      return b < 0 && !ub ? P() : box<bool>(b > 0);
    }
    if (flt(d)) {
      double v;
      if (!float_text(s, v))
        return P();
      V x;
      x.d = v;
      return d == F64 ? box<double>(v) : convert(F32, F64, x, mode, ub);
    }
    bool neg;
    unsigned __int128 v;
    return with(d, [&](auto z) -> P {
      typedef decltype(z) A;
      bool ok = int_text(s, neg, v);
      unsigned __int128 lim = (unsigned __int128)std::numeric_limits<A>::max() + (neg ? 1 : 0);
      if (!ok || v > lim) {
        if (!check)
          ub = true;
        return ub ? box<A>(0) : P();
      }
      if (!check && s.find('.') != s.npos)
        ub = true;
      return box<A>((A)(neg ? -(__int128)v : (__int128)v));
    });
  }
  static P cut(const std::string &s, int n, int mode, bool &ub) {
    P p(new V());
    p->unset = false;
    if ((int)s.size() > n) {
      if (mode != 0)
        return P();
      ub = true;
    }
    p->s = s;
    return p;
  }
  static P one(const T &d, const T &s, const V &x, int mode, bool &ub) {
    if (s.k == OPT) {
      if (x.na) {
        if (d.k != OPT)
          return P();
        P p = blank(d);
        p->na = true;
        return p;
      }
      return one(d, s.sub[0], *x.v[0], mode, ub);
    }
    if (d.k == OPT) {
      P v;
      K k = d.sub[0].k;
      bool na = false;
      if (s.k == STR) {
        na = na_word(x.s);
        if (!na)
          v = from_text(k, x.s, k == F32 && mode == 3 ? 2 : mode, ub); // text has no exactness to lose
        if (trim(x.s) != x.s)
          ub = true;
      } else if (flt(s.k) && std::isnan(x.d))
        na = true;
      else
        v = one(d.sub[0], s, x, mode, ub);
      if (na) {
        P p = blank(d);
        p->na = true;
        return p;
      }
      if (!v)
        return v;
      if (is_sentinel(k, *v))
        ub = true;
      P p(new V());
      p->unset = false;
      p->na = flt(k) && std::isnan(v->d);
      p->v.push_back(v);
      return p;
    }
    if (num(d.k) && num(s.k))
      return convert(d.k, s.k, x, mode, ub);
    if (num(d.k))
      return from_text(d.k, trim(x.s), mode, ub);
    if (d.k == FSTR)
      return cut(num(s.k) ? std::to_string(x.i) : x.s, d.n, num(s.k) ? 2 : mode, ub);
    P p(new V());
    p->unset = false;
    p->s = x.s;
    return p;
  }
  P value(const std::vector<T> &ts, const std::vector<const V *> &a, bool &ub) const override { return one(d, ts[0], *a[0], mode, ub); }
};

// every element of the destination of a refused assignment is either the old or the new value
void old_or_new(const char *what, const T &t, const ndt::type &tp, const P &o, const P &n, const char *meta, const char *data) {
  if (t.k == FIXED) {
    const size_stride_t *ss = reinterpret_cast<const size_stride_t *>(meta);
    for (int i = 0; i < t.n; i++)
      old_or_new(what, t.sub[0], tp.extended<ndt::base_dim_type>()->get_element_type(), o->v[i], n->v[i], meta + sizeof(size_stride_t), data + i * ss->stride);
    return;
  }
  std::string got;
  dump_to(got, tp, meta, data);
  std::string a = text(t, o), b = text(t, n);
  if (got != a && got != b)
    rt::violation("partial-element", "%s was refused and left an element %s, which was %s and can only become %s", what, got.c_str(), a.c_str(), b.c_str());
}

struct C06 : Scenario {
  Slot fr[NF];

  void generate(Rng &r, Plan &p) override {
    p.nf = r.chance(1, 3) ? 1 : r.range(2, 4);
    int n = r.range(4, 16);
    static const int mix[] = {A_METHOD, A_METHOD, A_METHOD, A_METHOD, A_FUNC, A_FUNC, A_DEFAULT, A_AS};
    for (int i = 0; i < n; i++)
      p.add(r.range(1, p.nf), r.pick(mix), r.below(NF), r.below(64), r.below(5), r.below(30000), r.below(30000));
    p.params[0] = r.below(30000);
    p.params[1] = r.below(30000);
  }
  std::string show(const Plan &, const Op &o) override {
    return fmt("%s %d to %d mode=%s r=%d,%d", names[o.kind % NK], o.a[0], o.a[1], modes[o.a[2] % 5], o.a[3], o.a[4]);
  }
  const char *opname(const Op &o) override { return names[o.kind % NK]; }

  static P text_value(Rng &r, bool wild) {
    P p(new V());
    p->unset = false;
    std::string &s = p->s;
    if (!wild) {
      s = std::to_string(r.below(100));
      return p;
    }
    static const char *const odd[] = {"", "NA", "None", "null", "NULL", "-", "1.5", "2.000", "1e2", "1E+3", "12e", "1e19", "1e20", "9e99", "1e100", "0e50", "-0", "- 1", "true", "Off", "YES", "n", "T", "tru", "falsee", "on", "2", "nan", "-inf", "Infinity", "1e-3", "3.5e38", "-3.5e38", "1e400", "0.1", "0.1000000001", "12x", "0x10", "--1", "+5", "1 2", "127", "128", "-128", "-129", "32767", "32768", "-32769", "2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "25000000000000000000", "30000000000000000000", "60000000000000000000", "184467440737095516160", "340282366920938463463374607431768211456", "99999999999999999999999999999999999999999999999", "16777217", "9007199254740993"};
    s = odd[r.below(sizeof odd / sizeof *odd)];
    if (r.chance(1, 8))
      s = " " + s + "\t";
    if (r.chance(1, 8)) {
      s = r.chance(1, 2) ? "-" : "";
      for (int n = r.range(1, 24); n-- > 0;)
        s += '0' + r.below(10);
    }
    return p;
  }
  static P real(Rng &r, K k, bool wild) {
    P p(new V());
    p->unset = false;
    if (!wild) {
      p->d = r.below(100);
      return p;
    }
    static const double odd[] = {0.5, -0.5, 1.5, 127.5, 128, -128, -128.5, -129, 255, 255.5, 256, -1, 32767, 32768, -32769, 65535.5, 65536, 2147483647, 2147483648.0, -2147483648.0, -2147483649.0, 4294967295.0, 4294967296.0, 9223372036854774784.0, 9223372036854775808.0, -9223372036854775808.0, 18446744073709549568.0, 18446744073709551616.0, 1e30, -1e30, 3.4028234663852886e38, 3.4028235677973366e38, 1e39, -1e300, 5e-324, 1e-40, 0.1, NAN, INFINITY, -INFINITY, -0.0, 16777217, 2, 1, 0};
    p->d = odd[r.below(sizeof odd / sizeof *odd)];
    if (k == F32)
      p->d = (double)(float)(fabs(p->d) > FLT_MAX && std::isfinite(p->d) ? 1e30 : p->d);
    return p;
  }
  static P element(Rng &r, const T &t, bool wild) {
    if (t.k == OPT) {
      P p(new V());
      p->unset = false;
      p->na = wild && r.chance(1, 2);
      do
        p->v = {element(r, t.sub[0], wild)};
      while (is_sentinel(t.sub[0].k, *p->v[0]) || (flt(t.sub[0].k) && std::isnan(p->v[0]->d)));
      return p;
    }
    if (t.k == BOOL)
      return mk(r.below(2));
    if (flt(t.k))
      return real(r, t.k, wild);
    if (num(t.k))
      return wild ? number(r, t.k) : mk(r.below(100));
    P p = text_value(r, wild);
    if (t.k == FSTR) {
      if ((int)p->s.size() > t.n)
        p->s.resize(t.n);
    }
    return p;
  }
  static P fillv(Rng &r, const T &t, int n, int wild) {
    if (t.k == FIXED || t.k == VAR) {
      P p(new V());
      p->unset = false;
      int m = t.k == FIXED ? t.n : r.chance(1, 4) ? 1 : n;
      for (int i = 0; i < m; i++)
        p->v.push_back(fillv(r, t.sub[0], n, wild));
      return p;
    }
    return element(r, t, wild && r.chance(1, wild));
  }
  static T scalar_of(Rng &r, int i) {
    static const K ks[] = {I8, I16, I32, I64, U8, U16, U32, U64, F32, F64, BOOL};
    static const K os[] = {BOOL, I8, I16, I32, I64, U8, U16, U32, U64, F32, F64};
    if (i < 3)
      return scalar(r.pick(ks));
    if (i == 3)
      return scalar(r.chance(1, 2) ? F32 : F64);
    if (i == 4)
      return opt(r.pick(os));
    if (i < 7)
      return scalar(STR);
    if (i == 7) {
      T t = scalar(FSTR);
      t.n = r.range(1, 12);
      return t;
    }
    return r.chance(1, 3) ? scalar(BYTES) : scalar_of(r, r.below(8));
  }
  void begin(const Plan &p) override {
    Rng r(((uint64_t)(unsigned short)p.params[0] << 16) ^ (unsigned short)p.params[1]);
    for (int i = 0; i < NF; i++) {
      T t = scalar_of(r, i);
      int nd = r.chance(1, 4) ? 0 : r.range(1, 3);
      for (int d = 0; d < nd; d++)
        t = dim(d == 0 && r.chance(1, 6) ? -1 : r.chance(1, 16) ? 0 : r.chance(1, 6) ? 1 : nd == 1 && r.chance(1, 3) ? r.range(60, 300) : r.range(2, 5), t);
      P v = fillv(r, t, r.range(0, 6), r.chance(1, 4) ? 0 : r.chance(1, 2) ? 30 : r.range(1, 8));
      nd::array a = numeric::build(r, t, v, false);
      Mode q(M_SIM);
      fr[i].a = std::move(a), fr[i].t = t, fr[i].p = v;
    }
  }
  template <class A> void as(const Slot &s, int mode) {
    K k = kind_of<A>();
    Conv c(scalar(k), mode);
    bool ub = false;
    P v = c.value({s.t}, {s.p.get()}, ub);
    if (ub)
      return;
    std::string what = fmt("as<%s>() of %s %s, mode %s", ds(scalar(k)).c_str(), ds(s.t).c_str(), text(s.t, s.p).c_str(), modes[mode]);
    if (!Conv::supported(scalar(k), s.t) || !v) {
      must_fail(what.c_str(), [&] { s.a.as<A>(assign_error_mode(mode)); });
      PROBE("refused as");
      return;
    }
    A x = A();
    must_do(what.c_str(), [&] { x = s.a.as<A>(assign_error_mode(mode)); });
    std::string got = text(scalar(k), box<A>(x)), want = text(scalar(k), v);
    if (got != want)
      rt::violation("wrong-value", "%s is %s, expected %s", what.c_str(), got.c_str(), want.c_str());
    PROBE("as");
  }
  void exec(const Op &o, int) override {
    Slot &s = fr[o.a[0] % NF];
    Rng r(((uint64_t)(unsigned short)o.a[3] << 16) ^ (unsigned short)o.a[4]);
    int mode = o.kind == A_DEFAULT ? 2 : o.a[2] % 5;
    if (o.kind == A_AS) {
      if (ndim(s.t))
        return;
      switch (o.a[1] % 11) {
      case 0:
        return as<bool>(s, mode);
      case 1:
        return as<int8_t>(s, mode);
      case 2:
        return as<int16_t>(s, mode);
      case 3:
        return as<int32_t>(s, mode);
      case 4:
        return as<int64_t>(s, mode);
      case 5:
        return as<uint8_t>(s, mode);
      case 6:
        return as<uint16_t>(s, mode);
      case 7:
        return as<uint32_t>(s, mode);
      case 8:
        return as<uint64_t>(s, mode);
      case 9:
        return as<float>(s, mode);
      default:
        return as<double>(s, mode);
      }
    }
    // the destination
    T e = scalar_of(r, o.a[1] % 9);
    const T &se = dtype(s.t);
    if (r.chance(1, 6) && (e.k == STR || e.k == FSTR)) // usually something it can be assigned to
      e = scalar_of(r, 2);
    T t = redtype(s.t, e);
    bool same_dims = true;
    if (r.chance(1, 4) && ndim(t) < 4)
      t = dim(r.range(1, 3), t), same_dims = false;
    else if (t.k == FIXED && r.chance(1, 12))
      t.n = t.n == 1 ? r.range(2, 4) : t.n + 1, same_dims = false;
    if (t.k == VAR && s.p->v.size() > 0 && r.chance(1, 2) && same_dims)
      t = dim(s.p->v.size(), t.sub[0]);
    if ((has(t, STR) || has(t, BYTES)) && has(t, VAR)) // not supported
      return;
    P old;
    {
      struct F {
        static P go(Rng &r, const T &t) {
          if (t.k == VAR)
            return blank(t);
          if (t.k == FIXED) {
            P p(new V());
            p->unset = false;
            for (int i = 0; i < t.n; i++)
              p->v.push_back(go(r, t.sub[0]));
            return p;
          }
          return element(r, t, false);
        }
      };
      old = F::go(r, t);
    }
    std::string what = fmt("%s %s <- %s, mode %s", names[o.kind % NK], ds(t).c_str(), ds(s.t).c_str(), modes[mode]);
    nd::array d = numeric::build(r, t, old, false), em;
    bool ok = Conv::supported(e, se) && accepts(t, {s.t});
    Conv c(e, mode);
    Ev ev;
    P v;
    if (ok) {
      v = apply(c, t, {s.t}, {s.p}, old, ev);
      if (ev.ub) {
        drop(d);
        return;
      }
    }
    if (o.kind == A_FUNC)
      must_do("an error mode", [&] { em = nd::empty(ndt::make_type<assign_error_mode>()); *reinterpret_cast<assign_error_mode *>(em.data()) = assign_error_mode(mode); });
    auto call = [&] {
      if (o.kind == A_METHOD)
        d.assign(s.a, assign_error_mode(mode));
      else if (o.kind == A_DEFAULT)
        d.assign(s.a);
      else {
        nd::array res = nd::assign({s.a}, {{"error_mode", em}, {"dst", d}});
      }
    };
    if (!ok || ev.err) {
      must_fail(what.c_str(), call);
      if (!ok) {
        check_dump("changed", what.c_str(), d, text(t, old));
        PROBE("unsupported");
      } else if (pod(t) && !has(t, FSTR)) {
        Mode h(M_HOST);
        old_or_new(what.c_str(), t, d.get_type(), old, v, d->metadata(), d.cdata());
        PROBE("a value is refused");
      }
    } else {
      must_do(what.c_str(), call, [&] { check_dump("source-changed", what.c_str(), s.a, text(s.t, s.p)); });
      check_dump("wrong-value", what.c_str(), d, text(t, v));
      if (se.k == STR || se.k == FSTR)
        PROBE("from text");
      else if (se.k == OPT || e.k == OPT)
        PROBE("options");
      else if (se.k != e.k)
        PROBE("between numbers");
      if (!same_dims)
        PROBE("broadcast");
    }
    check_dump("source-changed", what.c_str(), s.a, text(s.t, s.p));
    drop(d), drop(em);
  }
  void end() override {
    for (Slot &s : fr) {
      check_dump("source-changed", "a shared source at the end", s.a, text(s.t, s.p));
      drop(s.a);
      s.p.reset();
    }
  }
};
Scenario *mk_() { return new C06; }
Tuning tune() {
  Tuning t;
  return t;
}
Register reg("C06", "assign", mk_, tune());
} // namespace
