// C11: sets of overloads and the registry.  The overloads of a function are kept in a model set; a call has to reach an
// overload which matches, none of the others that match being more specific; adding one is all or nothing.  The registry is a
// tree of names; looking one up gives what was registered under it.
#include "dynd_sim.h"
#include <dynd/arithmetic.hpp>
#include <dynd/callables/multidispatch_callable.hpp>
#include <dynd/kernels/base_strided_kernel.hpp>
#include <dynd/option.hpp>
#include <dynd/registry.hpp>
#include <dynd/statistics.hpp>
#include <dynd/types/substitute_typevars.hpp>
using namespace dynd_sim;

namespace {
// ---- the types a function can be overloaded for: any two are nested or have nothing in common -----------------------------
struct Node {
  const char *text;
  int parent;
  bool conc;
};
const Node nodes[] = {
    {"Any", -1, false},          {"Scalar", 0, false},        {"Int", 1, false},          {"int8", 2, true},          {"int16", 2, true},
    {"int32", 2, true},          {"int64", 2, true},          {"UInt", 1, false},         {"uint8", 7, true},         {"uint16", 7, true},
    {"uint32", 7, true},         {"uint64", 7, true},         {"Float", 1, false},        {"float32", 12, true},      {"float64", 12, true},
    {"Complex", 1, false},       {"complex[float64]", 15, true}, {"String", 1, false},    {"string", 17, true},       {"FixedString", 17, false},
    {"fixed_string[4]", 19, true}, {"fixed_string[9]", 19, true}, {"Bytes", 1, false},    {"bytes", 22, true},        {"FixedBytes", 22, false},
    {"fixed_bytes[3]", 24, true}, {"bool", 1, true},          {"(...)", 1, false},        {"(int32, ...)", 27, false}, {"(int32, float64)", 28, true},
    {"(int32)", 28, true},       {"(bool, ...)", 27, false},  {"(bool, string)", 31, true}, {"{x: Scalar}", 1, false}, {"{x: Int}", 33, false},
    {"{x: int32}", 34, true},    {"{x: int8}", 34, true},     {"{x: float64}", 33, true}, {"{y: int32}", 1, true},    {"?Scalar", 1, false},
    {"?Int", 39, false},         {"?int32", 40, true},        {"?int64", 40, true},       {"?float64", 39, true},     {"Dim * Any", 0, false},
    {"Fixed * Any", 44, false},  {"2 * Any", 45, false},      {"2 * Scalar", 46, false},  {"2 * Int", 47, false},     {"2 * int32", 48, true},
    {"2 * float64", 47, true},   {"2 * 3 * int32", 46, true}, {"3 * Any", 45, false},     {"3 * int32", 52, true},    {"var * Any", 44, false},
    {"var * Scalar", 54, false}, {"var * Int", 55, false},    {"var * int32", 56, true},  {"var * string", 55, true}, {"var * 2 * int32", 54, true}};
const int NN = sizeof nodes / sizeof *nodes;
bool covers(int a, int b) {
  while (b >= 0 && b != a)
    b = nodes[b].parent;
  return b >= 0;
}
struct Sig {
  int n[2];
  int tag;
};
bool above(const Sig &a, const Sig &b, int n) { // a matches all that b matches
  for (int i = 0; i < n; i++)
    if (!covers(a.n[i], b.n[i]))
      return false;
  return true;
}
bool refused(const std::vector<Sig> &v, int n) {
  for (size_t i = 0; i < v.size(); i++)
    for (size_t j = i + 1; j < v.size(); j++) {
      if (above(v[i], v[j], n) || above(v[j], v[i], n))
        continue;
      bool meet = true;
      for (int k = 0; k < n; k++)
        if (!covers(v[i].n[k], v[j].n[k]) && !covers(v[j].n[k], v[i].n[k]))
          meet = false;
      if (!meet)
        continue;
      bool ok = false;
      for (const Sig &k : v)
        if (above(v[i], k, n) && above(v[j], k, n))
          ok = true;
      if (!ok)
        return true;
    }
  return false;
}
ndt::type types[NN];

struct tag_kernel : nd::base_strided_kernel<tag_kernel, 0> {
  int tag;
  explicit tag_kernel(int t) : tag(t) {}
  void single(char *dst, char *const *) { *reinterpret_cast<int *>(dst) = tag; }
  void call(nd::array *dst, const nd::array *) { *reinterpret_cast<int *>(dst->data()) = tag; }
};
class tag_callable : public nd::base_callable {
public:
  int tag;
  tag_callable(const ndt::type &tp, int t) : base_callable(tp), tag(t) {}
  ndt::type resolve(base_callable *, char *, nd::call_graph &cg, const ndt::type &dst_tp, size_t, const ndt::type *, size_t, const nd::array *,
                    const std::map<std::string, ndt::type> &) {
    int t = tag;
    cg.emplace_back([t](nd::kernel_builder &kb, kernel_request_t kernreq, char *, const char *, size_t, const char *const *) { kb.emplace_back<tag_kernel>(kernreq, t); });
    return dst_tp;
  }
};
nd::callable tagged(const Sig &s, int n) {
  ndt::type t[2];
  for (int i = 0; i < n; i++)
    t[i] = types[s.n[i]];
  return nd::make_callable<tag_callable>(ndt::make_type<ndt::callable_type>(ndt::make_type<int>(), ndt::make_type<ndt::tuple_type>(n, t), ndt::make_type<ndt::struct_type>()), s.tag);
}
std::vector<ndt::type> by_first(const ndt::type &, size_t, const ndt::type *src) {
  callback();
  return {src[0]};
}
std::vector<ndt::type> by_both(const ndt::type &, size_t, const ndt::type *src) {
  callback();
  return {src[0], src[1]};
}
std::vector<ndt::type> by_second_then_first(const ndt::type &, size_t, const ndt::type *src) {
  callback();
  return {src[1], src[0]};
}

struct Set {
  nd::callable f;
  std::vector<Sig> v;
  int n = 1;
  bool live = false;
};

enum { O_MAKE, O_ADD, O_CALL, O_COPY, O_SHARED, NK };
const char *const names[] = {"make a function of overloads", "add an overload", "call", "share a function", "call a shared function"};
enum { NS = 3 };
struct C11 : Scenario {
  Set own[5][2], shared[NS];
  rt::SimLock lock;
  int tags = 0;

  void generate(Rng &r, Plan &p) override {
    p.nf = r.chance(1, 4) ? 1 : r.range(2, 4);
    int n = r.range(6, 26);
    static const int mix[] = {O_MAKE, O_MAKE, O_ADD, O_ADD, O_ADD, O_CALL, O_CALL, O_CALL, O_COPY, O_SHARED, O_SHARED};
    for (int i = 0; i < n; i++)
      p.add(r.range(1, p.nf), r.pick(mix), r.below(30000), r.below(30000), r.below(30000), r.below(NS), r.below(2));
    p.params[0] = r.below(30000);
    p.params[1] = r.below(30000);
  }
  std::string show(const Plan &, const Op &o) override { return fmt("%s r=%d,%d,%d slot %d", names[o.kind % NK], o.a[0], o.a[1], o.a[2], o.a[3]); }
  const char *opname(const Op &o) override { return names[o.kind % NK]; }

  // overloads near those which are there, so that they are nested, ambiguous or the same
  static int near(Rng &r, int n) {
    switch (r.below(4)) {
    case 0:
      return nodes[n].parent < 0 ? n : nodes[n].parent;
    case 1: {
      int c[NN], k = 0;
      for (int i = 0; i < NN; i++)
        if (nodes[i].parent == n)
          c[k++] = i;
      return k ? c[r.below(k)] : n;
    }
    case 2:
      return n;
    default:
      return r.below(NN);
    }
  }
  static Sig sig(Rng &r, const std::vector<Sig> &v, int n, int tag) {
    Sig s;
    s.tag = tag;
    const Sig *like = !v.empty() && r.chance(3, 4) ? &v[r.below((int)v.size())] : nullptr;
    for (int i = 0; i < 2; i++)
      s.n[i] = i >= n ? 0 : like ? near(r, like->n[i]) : r.chance(1, 2) ? r.below(3) * 22 % NN : r.below(NN);
    return s;
  }
  static std::string text(const std::vector<Sig> &v, int n) {
    std::string s;
    for (const Sig &x : v) {
      s += fmt(" #%d(%s", x.tag, nodes[x.n[0]].text);
      s += n == 2 ? fmt(", %s)", nodes[x.n[1]].text) : std::string(")");
    }
    return s;
  }
  void begin(const Plan &p) override {
    Rng r(((uint64_t)(unsigned short)p.params[0] << 20) ^ (unsigned short)p.params[1]);
    tags = 0;
    {
      Mode q(M_QUIET);
      for (int i = 0; i < NN; i++)
        types[i] = ndt::type(std::string(nodes[i].text));
    }
    for (int k = 0; k < NS; k++) {
      Set &s = shared[k];
      s.v.clear();
      s.n = 1 + r.below(2);
      int m = r.range(0, 6);
      for (int i = 0; i < m; i++) {
        std::vector<Sig> v = s.v;
        v.push_back(sig(r, v, s.n, ++tags));
        if (!refused(v, s.n))
          s.v = v;
      }
      std::string bad;
      {
        Mode q(M_QUIET);
        try {
          s.f = create(s.v, s.n, r.chance(1, 3), r);
        } catch (std::exception &e) {
          bad = e.what();
        }
      }
      if (!bad.empty())
        rt::violation("refused", "overloads%s: %s", text(s.v, s.n).c_str(), bad.c_str());
      s.live = true;
    }
  }
  static nd::callable create(const std::vector<Sig> &v, int n, bool swapped, Rng &) {
    std::vector<nd::callable> l;
    for (const Sig &s : v)
      l.push_back(tagged(s, n));
    ndt::type any[2] = {types[0], types[0]};
    ndt::type tp = ndt::make_type<ndt::callable_type>(types[0], ndt::make_type<ndt::tuple_type>(n, any), ndt::make_type<ndt::struct_type>());
    if (n == 1)
      return nd::make_callable<nd::multidispatch_callable<1>>(tp, dispatcher<1, nd::callable>(by_first, l.begin(), l.end()));
    return nd::make_callable<nd::multidispatch_callable<2>>(tp, dispatcher<2, nd::callable>(swapped ? by_second_then_first : by_both, l.begin(), l.end()));
  }
  static void drop(Set &s) {
    Mode q(M_SIM);
    s.f = nd::callable();
    s.live = false;
  }
  // like must_do, but refusals of an ambiguous set are part of the answer
  template <class F> static void decide(const char *what, const std::vector<Sig> &v, int n, bool want, F f) {
    Outcome o;
    for (int round = 0; round < 2; round++) {
      o = attempt(f);
      if (o.ok || !rt::op_fired_mask() || (o.type != "std::bad_alloc" && !o.cb))
        break;
      rt::op_faults_off();
      PROBE("again after a fault");
    }
    if (o.ok != want)
      rt::violation(o.ok ? "accepted" : "refused", "%s%s: %s", what, text(v, n).c_str(), o.ok ? "accepted, though ambiguous" : (o.type + ": " + o.what).c_str());
    if (!o.ok && o.type != "std::runtime_error")
      rt::violation("wrong-error", "%s%s: %s: %s", what, text(v, n).c_str(), o.type.c_str(), o.what.c_str());
    PROBE(o.ok ? "overloads accepted" : "ambiguous overloads refused");
  }
  // the tags of the overloads a call may reach
  static std::vector<int> reach(const std::vector<Sig> &v, const Sig &c, int n) {
    std::vector<int> out;
    for (const Sig &s : v) {
      if (!above(s, c, n))
        continue;
      bool best = true;
      for (const Sig &t : v)
        if (above(t, c, n) && above(s, t, n) && !above(t, s, n))
          best = false;
      if (best)
        out.push_back(s.tag);
    }
    return out;
  }
  static void call(const nd::callable &f, const std::vector<Sig> &v, int n, Rng &r) {
    Sig c;
    for (int i = 0; i < 2; i++) {
      int k = !v.empty() && r.chance(3, 4) ? v[r.below((int)v.size())].n[i] : r.below(NN), l[NN], m = 0;
      for (int j = 0; j < NN; j++)
        if (nodes[j].conc && covers(k, j))
          l[m++] = j;
      c.n[i] = l[r.below(m)];
    }
    std::vector<int> want = reach(v, c, n);
    std::string why = "a call with (" + std::string(nodes[c.n[0]].text) + (n == 2 ? std::string(", ") + nodes[c.n[1]].text : "") + ") of" + text(v, n);
    nd::array a[2];
    must_do("making arguments", [&] {
      for (int i = 0; i < n; i++)
        a[i] = nd::empty(types[c.n[i]]);
    });
    nd::array out;
    int got = -1;
    bool spec = r.chance(1, 3);
    Outcome o;
    for (int round = 0; round < 2; round++) {
      o = attempt([&] {
        if (spec) {
          ndt::type s[2];
          for (int i = 0; i < n; i++)
            s[i] = types[c.n[i]];
          got = static_cast<const tag_callable *>(f.specialize(types[0], n, s).get())->tag;
        } else if (n == 1)
          out = f(a[0]);
        else
          out = f(a[0], a[1]);
      });
      if (o.ok || !rt::op_fired_mask() || (o.type != "std::bad_alloc" && !o.cb))
        break;
      rt::op_faults_off();
      PROBE("again after a fault");
    }
    if (o.ok != !want.empty())
      rt::violation(o.ok ? "accepted" : "refused", "%s: %s", why.c_str(), o.ok ? "accepted" : (o.type + ": " + o.what).c_str());
    if (!o.ok && o.type != "std::out_of_range")
      rt::violation("wrong-error", "%s: %s: %s", why.c_str(), o.type.c_str(), o.what.c_str());
    if (o.ok) {
      if (!spec) {
        std::string t = type_str(out.get_type());
        if (t != "int32")
          rt::violation("wrong-overload", "%s gives an array of type %s", why.c_str(), t.c_str());
        Mode q(M_SIM);
        got = *reinterpret_cast<const int *>(out.cdata());
      }
      bool in = false;
      for (int t : want)
        in |= t == got;
      if (!in)
        rt::violation("wrong-overload", "%s reaches #%d, has to reach #%d", why.c_str(), got, want[0]);
      PROBE(spec ? "looked up" : "called");
    } else
      PROBE("no overload for the call");
    Mode q(M_SIM);
    out = a[0] = a[1] = nd::array();
  }
  void exec(const Op &o, int) override {
    Rng r(((uint64_t)(unsigned short)o.a[0] << 32) ^ ((uint64_t)(unsigned short)o.a[1] << 16) ^ (unsigned short)o.a[2]);
    Set &s = own[rt::cur_fiber()][o.a[4] & 1];
    switch (o.kind) {
    case O_MAKE: {
      int n = 1 + r.below(2), m = r.range(1, 7);
      bool legal = r.chance(2, 3);
      std::vector<Sig> v;
      for (int i = 0; i < m; i++) {
        std::vector<Sig> w = v;
        w.insert(w.begin() + r.below((int)w.size() + 1), sig(r, w, n, o.a[0] % 1000 * 100 + i));
        if (!legal || !refused(w, n))
          v = w;
      }
      bool want = !refused(v, n), swapped = r.chance(1, 3);
      nd::callable f;
      decide("overloads", v, n, want, [&] { f = create(v, n, swapped, r); });
      if (!want)
        break;
      drop(s);
      Mode q(M_SIM);
      s.f = std::move(f);
      f = nd::callable();
      s.v = v, s.n = n;
      s.live = true;
      break;
    }
    case O_ADD: {
      if (!s.live)
        break;
      std::vector<Sig> v = s.v;
      v.push_back(sig(r, v, s.n, o.a[0] % 1000 * 100 + 50));
      bool want = !refused(v, s.n);
      nd::callable g;
      must_do("making a function", [&] { g = tagged(v.back(), s.n); });
      decide("adding the last of the overloads", v, s.n, want, [&] { s.f->overload(g); });
      {
        Mode q(M_SIM);
        g = nd::callable();
      }
      if (want)
        s.v = v;
      PROBE("added to a function");
      break;
    }
    case O_CALL:
      if (s.live)
        call(s.f, s.v, s.n, r);
      break;
    case O_COPY: { // from now on nobody changes it
      if (!s.live)
        break;
      nd::callable f = nd::callable();
      std::vector<Sig> v = s.v;
      int n = s.n;
      {
        Mode q(M_SIM);
        f = std::move(s.f);
        s.f = nd::callable();
      }
      s.live = false;
      rt::lock(lock);
      Set &d = shared[(unsigned short)o.a[3] % NS];
      {
        Mode q(M_SIM);
        std::swap(d.f, f);
      }
      d.v = v;
      d.n = n;
      rt::unlock(lock);
      Mode q(M_SIM);
      f = nd::callable();
      break;
    }
    case O_SHARED: {
      nd::callable f;
      rt::lock(lock);
      Set &d = shared[(unsigned short)o.a[3] % NS];
      {
        Mode q(M_SIM);
        f = d.f;
      }
      std::vector<Sig> v = d.v;
      int n = d.n;
      rt::unlock(lock);
      for (int i = r.range(1, 3); i > 0; i--)
        call(f, v, n, r);
      PROBE("shared by the threads");
      Mode q(M_SIM);
      f = nd::callable();
      break;
    }
    }
  }
  void end() override {
    for (auto &l : own)
      for (Set &s : l)
        drop(s);
    for (Set &s : shared)
      drop(s);
    Mode q(M_SIM);
    for (ndt::type &t : types)
      t = ndt::type();
  }
};
Tuning tune() {
  Tuning t;
  t.callback = true;
  return t;
}
Register reg("C11", "overloads", []() -> Scenario * { return new C11; }, tune());
} // namespace
