// C12, functions of text: find, count, replace, split, concatenate and compare over arrays of strings, with broadcasting, into new
// arrays, given destinations and in place, against definitions by the naive search.
#include "numeric.h"
#include <dynd/comparison.hpp>
#include <dynd/string.hpp>
using namespace numeric;

namespace {
enum { T_CAT, T_COUNT, T_FIND, T_RFIND, T_REPLACE, T_SPLIT, T_STARTS, T_ENDS, T_CONTAINS, T_EQ, T_NE, T_LT, T_LE, T_GT, T_GE, NT };
const char *const tnames[NT] = {"concatenation", "count", "find", "rfind", "replace", "split", "startswith", "endswith",
                                "contains", "equal", "not_equal", "less", "less_equal", "greater", "greater_equal"};
const nd::callable &tfn(int t) {
  const nd::callable *const f[NT] = {&nd::string_concatenation, &nd::string_count, &nd::string_find, &nd::string_rfind, &nd::string_replace,
                                     &nd::string_split, &nd::string_startswith, &nd::string_endswith, &nd::string_contains, &nd::equal,
                                     &nd::not_equal, &nd::less, &nd::less_equal, &nd::greater, &nd::greater_equal};
  return *f[t];
}
int arity(int t) { return t == T_REPLACE ? 3 : 2; }
K kind(int t) { return t == T_CAT || t == T_REPLACE || t == T_SPLIT ? STR : t >= T_STARTS ? BOOL : I64; }

// where the needle is, from the left, without overlaps; an empty needle is nowhere
std::vector<size_t> places(const std::string &h, const std::string &n) {
  std::vector<size_t> o;
  for (size_t i = 0; !n.empty() && i + n.size() <= h.size();)
    if (h.compare(i, n.size(), n) == 0)
      o.push_back(i), i += n.size();
    else
      i++;
  return o;
}
P str(const std::string &s) {
  P p(new V());
  p->unset = false;
  p->s = s;
  return p;
}
P boolean(bool b) {
  P p(new V());
  p->unset = false;
  p->i = b;
  return p;
}
struct Text : Elem {
  int op;
  explicit Text(int o) : op(o) {}
  bool type(const std::vector<T> &a, T &out) const override {
    for (auto &t : a)
      if (t.k != STR)
        return false;
    out = scalar(kind(op)); // the parts of a split are below this
    return true;
  }
  P value(const std::vector<T> &, const std::vector<const V *> &a, bool &) const override {
    const std::string &h = a[0]->s, &n = a[1]->s;
    switch (op) {
    case T_CAT:
      return str(h + n);
    case T_COUNT:
      return box<long long>((long long)places(h, n).size());
    case T_FIND:
      return box<long long>(n.empty() ? -1 : (long long)(ptrdiff_t)h.find(n));
    case T_RFIND:
      return box<long long>(n.empty() ? -1 : (long long)(ptrdiff_t)h.rfind(n));
    case T_CONTAINS:
      return boolean(!n.empty() && h.find(n) != std::string::npos);
    case T_STARTS:
      return boolean(h.size() >= n.size() && h.compare(0, n.size(), n) == 0);
    case T_ENDS:
      return boolean(h.size() >= n.size() && h.compare(h.size() - n.size(), n.size(), n) == 0);
    case T_EQ:
      return boolean(h == n);
    case T_NE:
      return boolean(h != n);
    case T_LT:
      return boolean(h < n);
    case T_LE:
      return boolean(h <= n);
    case T_GT:
      return boolean(h > n);
    case T_GE:
      return boolean(h >= n);
    case T_REPLACE:
    case T_SPLIT: {
      P parts(new V());
      parts->unset = false;
      std::string all;
      size_t from = 0;
      for (size_t i : places(h, n)) {
        parts->v.push_back(str(h.substr(from, i - from)));
        if (op == T_REPLACE)
          all += h.substr(from, i - from) + a[2]->s;
        from = i + n.size();
      }
      parts->v.push_back(str(h.substr(from)));
      return op == T_SPLIT ? parts : str(all + h.substr(from));
    }
    }
    return P();
  }
};
void longest(const T &t, const P &p, size_t &n) {
  if (t.k == STR)
    n = std::max(n, p->s.size());
  else
    for (auto &c : p->v)
      if (t.k == FIXED || t.k == VAR)
        longest(t.sub[0], c, n);
}
void leaves_of(const T &t, const P &p, std::vector<std::string> &o) {
  if (t.k == STR)
    o.push_back(p->s);
  else
    for (auto &c : p->v)
      leaves_of(t.sub[0], c, o);
}

enum { X_CALL, X_DST, X_INPLACE, X_BAD, X_DROP, NK };
const char *const names[] = {"call", "call into", "in place", "refused", "drop"};
enum { NH = 4, NF = 8, NR = 3 }; // haystacks first, then needles
struct Slot {
  nd::array a;
  T t;
  P p;
  bool set = false;
};

struct C12T : Scenario {
  Slot fr[NF], res[rt::MAXF][NR];
  std::vector<std::string> pats; // what the texts are made of
  int varmax = 3;

  void generate(Rng &r, Plan &p) override {
    p.nf = r.chance(1, 3) ? 1 : r.range(2, 4);
    int n = r.range(4, 20);
    static const int mix[] = {X_CALL, X_CALL, X_CALL, X_CALL, X_CALL, X_DST, X_DST, X_INPLACE, X_INPLACE, X_INPLACE, X_BAD, X_DROP};
    for (int i = 0; i < n; i++)
      p.add(r.range(1, p.nf), r.pick(mix), r.below(NT), r.below(30000), r.below(30000), r.below(NR));
    p.params[0] = r.below(30000);
    p.params[1] = r.below(30000);
  }
  std::string show(const Plan &, const Op &o) override { return fmt("%s %s r=%d,%d -> %d", names[o.kind % NK], tnames[o.a[0] % NT], o.a[1], o.a[2], o.a[3]); }
  const char *opname(const Op &o) override { return names[o.kind % NK]; }

  static void set(Slot &s, nd::array &a, const T &t, const P &p) {
    {
      Mode m(M_SIM);
      s.a = std::move(a);
    }
    s.t = t, s.p = p, s.set = true;
  }
  static void clear(Slot &s) {
    drop(s.a);
    s.set = false;
    s.p.reset();
  }
  std::string hay(Rng &r) {
    std::string s;
    int n = r.chance(1, 8) ? 0 : r.range(1, 12);
    bool noise = r.chance(1, 2);
    const std::string *one = r.chance(1, 2) ? &r_pat(r) : nullptr;
    for (int i = 0; i < n; i++) {
      s += one ? *one : r_pat(r);
      if (noise && r.chance(1, 3))
        s += "ab\xc3"[r.below(3)];
      if (noise && r.chance(1, 5) && !s.empty())
        s.pop_back();
    }
    return s;
  }
  const std::string &r_pat(Rng &r) { return pats[r.below((int)pats.size())]; }
  P leaf(Rng &r, bool h, const std::vector<std::string> &seen) {
    if (h)
      return str(hay(r));
    if (r.chance(1, 2))
      return str(r_pat(r));
    if (!seen.empty() && r.chance(2, 3)) {
      const std::string &s = seen[r.below((int)seen.size())];
      size_t at = r.below((int)s.size() + 1);
      return str(s.substr(at, r.below(std::min((int)(s.size() - at), 20) + 1)));
    }
    return str(hay(r));
  }
  // var dims are 1, or the base size of their level, or something else
  P ragged_text(Rng &r, const T &t, const int *base, bool h, const std::vector<std::string> &seen) {
    if (t.k != FIXED && t.k != VAR)
      return leaf(r, h, seen);
    int n = t.n;
    if (t.k == VAR) {
      int c = r.below(16);
      n = c < 12 ? base[ndim(t) - 1] : c < 15 ? 1 : r.below(3);
    }
    P p(new V());
    p->unset = false;
    for (int i = 0; i < n; i++)
      p->v.push_back(ragged_text(r, t.sub[0], base, h, seen));
    return p;
  }
  nd::array make_new(const T &t, const P &p, Rng *views) {
    nd::array a;
    if (views)
      return numeric::build(*views, t, p, false);
    must_do("nd::empty", [&] { a = nd::empty(typed::make(t)); });
    Mode q(M_QUIET);
    fill(a, t, p);
    return a;
  }
  void begin(const Plan &p) override {
    Rng r(((uint64_t)(unsigned short)p.params[0] << 16) ^ (unsigned short)p.params[1]);
    pats.clear();
    int np = r.range(1, 3);
    for (int i = 0; i < np; i++) {
      static const char *const al[] = {"ab", "abc", "a", "\xc3\xa9", "ax!9\x7f", "ab\x01\x41\x81\xc1", "a@`"};
      const char *a = r.pick(al);
      int n = r.chance(1, 3) ? 1 : r.range(1, 6);
      std::string s;
      for (int j = 0; j < n; j++)
        s += a[r.below((int)strlen(a))] == '@' ? '\0' : a[r.below((int)strlen(a))];
      pats.push_back(s);
    }
    int base[2];
    for (int &b : base)
      b = r.chance(1, 12) ? 0 : r.range(2, 5);
    std::vector<std::string> seen;
    for (int i = 0; i < NF; i++) {
      T t = scalar(STR);
      int nd = r.range(0, 2);
      for (int d = 0; d < nd; d++) {
        int c = r.below(12);
        t = dim(c < 6 ? base[d] : c < 8 ? 1 : c < 9 ? r.range(2, 4) : -1, t);
      }
      P v = ragged_text(r, t, base, i < NH, seen);
      leaves_of(t, v, seen);
      nd::array a = make_new(t, v, &r);
      set(fr[i], a, t, v);
    }
  }
  Slot &any(Rng &r, int f, bool h) {
    if (r.chance(1, 4))
      return res[f][r.below(NR)];
    return h || r.chance(1, 6) ? fr[r.below(NH)] : fr[NH + r.below(NF - NH)];
  }
  void exec(const Op &o, int) override {
    int f = o.fiber, op = o.a[0] % NT, na = arity(op); // in place: mostly the two which give text
    Rng r(((uint64_t)(unsigned short)o.a[1] << 16) ^ (unsigned short)o.a[2]);
    Slot &dst = res[f][o.a[3] % NR];
    Slot *s[3];
    for (int i = 0; i < 3; i++)
      s[i] = &any(r, f, i == 0);
    if (o.kind == X_INPLACE && !r.chance(1, 4)) {
      if (op != T_CAT && op != T_REPLACE)
        op = r.chance(1, 2) ? T_CAT : T_REPLACE;
      na = arity(op);
      s[r.below(na)] = &res[f][r.below(NR)];
    }
    std::vector<T> ts;
    std::vector<P> vs;
    for (int i = 0; i < na; i++) {
      if (!s[i]->set)
        return;
      if (dtype(s[i]->t).k != STR)
        return;
      ts.push_back(s[i]->t), vs.push_back(s[i]->p);
    }
    Text e(op);
    std::string what = std::string(tnames[op]) + "(" + ds(ts[0]) + ", " + ds(ts[1]) + (na == 3 ? ", " + ds(ts[2]) : "") + ")";
    auto sources = [&] {
      for (int i = 0; i < na; i++)
        check_dump("source-changed", what.c_str(), s[i]->a, s[i]->set ? text(s[i]->t, s[i]->p) : "NULL");
    };
    nd::array n;
    T rt;
    Ev ev;
    auto call = [&] {
      if (na == 2)
        n = tfn(op)(s[0]->a, s[1]->a);
      else
        n = tfn(op)(s[0]->a, s[1]->a, s[2]->a);
    };
    switch (o.kind) {
    case X_CALL: {
      if (!result_type(e, ts, rt)) {
        must_fail(what.c_str(), call);
        PROBE("refused");
        break;
      }
      P v = apply(e, rt, ts, vs, P(), ev);
      if (ev.err) {
        must_fail(what.c_str(), call);
        PROBE("failed while computing");
        break;
      }
      if (op == T_SPLIT)
        rt = redtype(rt, dim(-1, scalar(STR)));
      must_do(what.c_str(), call, sources);
      check_type(what.c_str(), n, rt);
      check_dump("wrong-result", what.c_str(), n, text(rt, v));
      keep(dst, n, rt, v);
      if (op == T_REPLACE)
        PROBE("replaced");
      if (op == T_SPLIT)
        PROBE("split");
      break;
    }
    case X_DST:
    case X_INPLACE: {
      if (op == T_SPLIT && o.kind == X_INPLACE)
        return;
      bool joint = result_type(e, ts, rt);
      if (!joint)
        rt = scalar(kind(op));
      T el = scalar(kind(op)), dt = redtype(rt, el);
      bool bad = false;
      nd::array d;
      P old;
      Slot *own = nullptr;
      if (o.kind == X_INPLACE) {
        if (kind(op) == STR && r.chance(2, 3))
          own = s[r.below(na)];
        else
          own = &dst;
        if (own < res[f] || own >= res[f] + NR || !own->set || ds(own->t) != ds(dt))
          return;
        old = own->p, d = own->a;
      } else {
        int c = r.below(8);
        int most = 0;
        for (auto &t : ts)
          most = std::max(most, ndim(t));
        if (c == 0)
          dt = dim(r.range(0, 3), dt);
        else if (c == 1)
          dt = dim(-1, dt);
        else if (c == 2)
          dt = redtype(fr[r.below(NF)].t, el);
        else if (c == 3 && dt.k == FIXED && dt.n)
          dt.k = VAR, dt.n = 0;
        else if (c == 4) {
          static const K ks[] = {I8, I32, U64, F64, BYTES};
          el = scalar(r.pick(ks));
          dt = redtype(dt, el);
          bad = true;
        }
        if (op >= T_EQ && ndim(dt) > 0 && !most)
          bad = true; // of the comparisons, scalars are not repeated
        static const int base[] = {2, 3, 2, 2};
        std::vector<std::string> none;
        T full = op == T_SPLIT && !bad ? redtype(dt, dim(-1, scalar(STR))) : dt;
        old = el.k == STR && op != T_SPLIT && r.chance(1, 2) ? ragged_text(r, dt, base, true, none) : blank(full);
        must_do("nd::empty", [&] { d = nd::empty(typed::make(full)); });
        if (op != T_SPLIT && all_set(dt, old)) {
          Mode q(M_QUIET);
          fill(d, dt, old);
        }
      }
      what += " into " + ds(dt);
      auto into = [&] {
        if (na == 2)
          n = tfn(op)({s[0]->a, s[1]->a}, {{"dst", d}});
        else
          n = tfn(op)({s[0]->a, s[1]->a, s[2]->a}, {{"dst", d}});
      };
      bool alias = false;
      for (int i = 0; i < na; i++)
        alias |= own == s[i];
      if (bad || !accepts(dt, ts)) {
        must_fail(what.c_str(), into);
        if (op != T_SPLIT && all_set(dt, old))
          check_dump("dst-changed", what.c_str(), d, text(dt, old));
        PROBE("unsuitable destination");
        break;
      }
      P v = apply(e, dt, ts, vs, op == T_SPLIT ? blank(dt) : old, ev);
      if (!joint && !ev.err)
        break; // dimensions that do not go together but have no elements: refused or not
      if (ev.err)
        must_fail(what.c_str(), into);
      else if (alias) { // not repeated after a failure: a source has changed
        Outcome out = attempt(into);
        if (!out.ok && !rt::op_fired_mask())
          rt::violation("unexpected-error", "%s failed although nothing was injected: %s", what.c_str(), out.what.c_str());
        ev.err = !out.ok;
      } else
        must_do(what.c_str(), into, [&] {
          if (op != T_SPLIT)
            torn(what.c_str(), d, dt, old, v);
          sources();
        });
      if (ev.err) {
        if (op != T_SPLIT)
          torn(what.c_str(), d, dt, old, v);
        if (own)
          clear(*own);
        PROBE("failed into a destination");
        break;
      }
      if (op == T_SPLIT)
        dt = redtype(dt, dim(-1, scalar(STR)));
      check_dump("wrong-result", what.c_str(), d, text(dt, v));
      if (own) {
        own->p = v;
        drop(n);
        size_t most = 0;
        longest(own->t, v, most);
        if (most > 300) {
          drop(d);
          clear(*own);
        }
        PROBE(alias ? "onto a source" : "in place");
      } else {
        drop(n);
        keep(dst, d, dt, v);
        PROBE("into a destination");
      }
      break;
    }
    case X_BAD: {
      nd::array x;
      must_do("making an operand", [&] { x = r.chance(1, 2) ? nd::array(3) : nd::array(2.5); });
      switch (r.below(3)) {
      case 0:
        must_fail("a function of text with an operand too many", [&] { n = tfn(op)(s[0]->a, s[1]->a, s[0]->a, s[1]->a); });
        break;
      case 1:
        must_fail("a function of text with an unknown keyword", [&] {
          if (na == 2)
            n = tfn(op)({s[0]->a, s[1]->a}, {{"whatever", x}});
          else
            n = tfn(op)({s[0]->a, s[1]->a, s[2]->a}, {{"whatever", x}});
        });
        break;
      default:
        must_fail("a function of text with a number", [&] {
          if (na == 2)
            n = tfn(op)(s[0]->a, x);
          else
            n = tfn(op)(s[0]->a, s[1]->a, x);
        });
      }
      drop(x);
      break;
    }
    case X_DROP:
      clear(dst);
      break;
    }
    drop(n);
    sources();
  }
  static void keep(Slot &dst, nd::array &n, const T &t, const P &v) {
    size_t most = 0;
    longest(t, v, most);
    if (most > 300 || ndim(t) > 3 || leaves(t, v) > 200)
      return;
    set(dst, n, t, v);
  }
  void end() override {
    for (int f = 0; f < rt::MAXF; f++)
      for (Slot &s : res[f])
        if (s.set) {
          check_dump("wrong-contents", "a result at the end", s.a, text(s.t, s.p));
          clear(s);
        }
    for (Slot &s : fr) {
      check_dump("source-changed", "a shared operand at the end", s.a, text(s.t, s.p));
      clear(s);
    }
  }
};
Register reg("C12", "text", []() -> Scenario * { return new C12T; }, Tuning(), 4);
} // namespace
