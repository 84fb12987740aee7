// C12, values: dynd::string and dynd::bytes as containers of bytes, against std::string.  Each fiber has objects of its own and
// reads a few that are shared; every mutation is all or nothing when memory runs out.
#include "dynd_sim.h"
#include <algorithm>
#include <dynd/bytes.hpp>
#include <dynd/types/string_type.hpp>
using namespace dynd_sim;

namespace {
enum { NS = 4, NSH = 3 };
enum { S_TEXT, S_COPY, S_MOVE, S_PART, S_APPEND, S_PLUS, S_SUM, S_RESERVE, S_RESIZE, S_CLEAR, S_NEW, S_SWAP, S_WRITE, S_COMPARE, S_SORT, S_GROW, NK };
const char *const names[] = {"assign text", "assign a copy", "assign by moving", "assign a part of itself", "append", "+=", "+", "reserve", "resize",
                             "clear", "construct", "swap", "write", "compare", "sort", "grow byte by byte"};
// lengths around the ones at which the representation changes
std::string some_bytes(Rng &r) {
  static const int lens[] = {0, 0, 1, 2, 7, 8, 12, 13, 14, 14, 15, 15, 16, 17, 22, 23, 24, 31, 40, 64, 100};
  int n = r.pick(lens);
  int alpha = r.below(4);
  std::string s;
  for (int i = 0; i < n; i++)
    s += alpha == 0 ? "ab"[r.below(2)] : alpha == 1 ? (char)(128 + r.below(128)) : alpha == 2 ? "a\0\x80\xff"[r.below(4)] : (char)r.below(256);
  return s;
}

template <class T> struct Var {
  T *obj = nullptr;
  std::string m;
};

template <class T> struct Part {
  Var<T> own[rt::MAXF][NS], shared[NSH];
  static const bool text = std::is_same<T, dynd::string>::value;

  static T *make(const std::string &s) {
    Mode q(M_QUIET);
    return new T(s.data(), s.size());
  }
  template <class U> static void destroy(U *&p) {
    Mode q(M_SIM);
    delete p;
    p = nullptr;
  }
  void begin(Rng &r, int nf) {
    for (Var<T> &v : shared)
      v.m = some_bytes(r), v.obj = make(v.m);
    for (int f = 1; f <= nf; f++)
      for (Var<T> &v : own[f])
        v.m = r.chance(1, 3) ? std::string() : some_bytes(r), v.obj = make(v.m);
  }
  void end(int nf) {
    for (Var<T> &v : shared)
      check(v, "a shared value at the end"), destroy(v.obj);
    for (int f = 1; f <= nf; f++)
      for (Var<T> &v : own[f])
        check(v, "a value at the end"), destroy(v.obj);
  }
  static std::string get(const T &x, size_t &cap, bool &term) {
    Mode q(M_PEEK);
    const char *b = x.begin(), *e = x.end();
    std::string s;
    cap = x.capacity();
    size_t n = x.size();
    term = true;
    if (b != x.data() || (size_t)(e - b) != n || x.empty() != (n == 0))
      term = false;
    else if (n <= cap && n < 100000) {
      if (text)
        term = b[n] == 0;
      uint32_t m = rt::set_mode(M_HOST);
      s.resize(n);
      rt::set_mode(m);
      for (size_t i = 0; i < n; i++)
        s[i] = b[i];
    }
    return s;
  }
  static void check(const T &x, const std::string &want, const char *what) {
    size_t cap;
    bool term;
    std::string got = get(x, cap, term);
    if (got != want)
      rt::violation("wrong-contents", "after %s a %s is %s instead of %s", what, text ? "string" : "bytes", S(got).c_str(), S(want).c_str());
    if (cap < got.size())
      rt::violation("wrong-contents", "after %s the capacity is below the size", what);
    if (!term)
      rt::violation("not-terminated", "after %s a %s of %d bytes is not terminated, or its size, begin, end and data do not agree", what, text ? "string" : "bytes", (int)got.size());
  }
  static void check(const Var<T> &v, const char *what) { check(*v.obj, v.m, what); }
  static std::string probe_text(const T &x) {
    size_t c;
    bool t;
    return get(x, c, t);
  }
  Var<T> &src(int f, Rng &r) {
    int c = r.below(NS + NSH);
    return c < NS ? own[f][c] : shared[c - NS];
  }

  void exec(const Op &o, int nf) {
    int f = o.fiber;
    (void)nf;
    Rng r(((uint64_t)(unsigned short)o.a[1] << 16) ^ (unsigned short)o.a[2]);
    Var<T> &d = own[f][r.below(NS)], &s = src(f, r), &s2 = src(f, r);
    T &x = *d.obj;
    const char *what = names[o.kind % NK];
    auto same = [&] { check(d, what), check(s, what), check(s2, what); };
    switch (o.kind) {
    case S_TEXT: {
      std::string t = some_bytes(r);
      char *from = buffer(t);
      must_do(what, [&] { x.assign(from, t.size()); }, same);
      unbuffer(from);
      d.m = t;
      break;
    }
    case S_COPY:
      must_do(what, [&] { x = *s.obj; }, same);
      d.m = s.m;
      break;
    case S_MOVE: {
      if (&s >= shared && &s < shared + NSH)
        return;
      std::string t = s.m;
      bool ctor = r.chance(1, 3);
      must_do(what, [&] {
        if (ctor) {
          T tmp(std::move(*s.obj));
          x = std::move(tmp);
        } else
          x = std::move(*s.obj);
      }, [&] {
        if (&s != &d)
          check(d, "a failed move"), moved(s);
      });
      if (&s != &d)
        moved(s);
      d.m = t;
      break;
    }
    case S_PART: {
      size_t at = r.below((int)d.m.size() + 1), n = r.below((int)(d.m.size() - at) + 1);
      must_do(what, [&] { x.assign(x.data() + at, n); }, same);
      d.m = d.m.substr(at, n);
      PROBE("a part of itself");
      break;
    }
    case S_APPEND: {
      if (r.chance(1, 2)) {
        size_t at = r.below((int)d.m.size() + 1), n = r.below((int)(d.m.size() - at) + 1);
        must_do("appending a part of itself", [&] { x.append(x.data() + at, n); }, same);
        d.m += d.m.substr(at, n);
      } else {
        std::string t = some_bytes(r);
        char *from = buffer(t);
        must_do(what, [&] { x.append(from, t.size()); }, same);
        unbuffer(from);
        d.m += t;
      }
      break;
    }
    case S_PLUS: {
      must_do(what, [&] { x += *s.obj; }, same);
      d.m += std::string(s.m);
      if (&s == &d)
        PROBE("added to itself");
      break;
    }
    case S_SUM: {
      std::string t = s.m + s2.m;
      must_do(what, [&] { x = *s.obj + *s2.obj; }, same);
      d.m = t;
      break;
    }
    case S_RESERVE: {
      int n = r.below(60);
      must_do(what, [&] { x.reserve(n); }, same);
      if (x.capacity() < (size_t)n)
        rt::violation("wrong-capacity", "after reserving %d bytes the capacity is %d", n, (int)x.capacity());
      check(d, what);
      // within the capacity nothing is allocated, so nothing can fail, and the bytes stay where they are
      size_t cap = x.capacity();
      if (cap > 300)
        break;
      std::string t;
      while (d.m.size() + t.size() < cap && !r.chance(1, 40))
        t += (char)r.below(256);
      const char *where = x.data();
      uint64_t before = rt::op_peek().allocs;
      Outcome oc = attempt([&] { x.append(t.data(), t.size()); });
      if (!oc.ok || x.data() != where || rt::op_peek().allocs != before)
        rt::violation("wrong-capacity", "appending %d bytes to %d within a capacity of %d %s", (int)t.size(), (int)d.m.size(), (int)cap,
                      !oc.ok ? "failed" : "moved the bytes or allocated memory");
      d.m += t;
      PROBE("appended within the capacity");
      break;
    }
    case S_RESIZE: {
      size_t n = r.chance(1, 2) ? r.below((int)d.m.size() + 1) : r.below(50);
      bool grow = r.chance(1, 3);
      must_do(what, [&] {
        if (grow)
          x.resize_grow(n);
        else
          x.resize(n);
      }, same);
      size_t old = std::min(n, d.m.size());
      d.m.resize(n);
      for (size_t i = old; i < n; i++)
        d.m[i] = (char)r.below(256);
      if (x.size() != n)
        rt::violation("wrong-contents", "resized to %d bytes it has %d", (int)n, (int)x.size());
      Mode q(M_SIM);
      for (size_t i = old; i < n; i++)
        x.data()[i] = d.m[i];
      break;
    }
    case S_CLEAR: {
      Mode q(M_SIM);
      x.clear();
      d.m.clear();
      break;
    }
    case S_NEW: {
      std::string t = some_bytes(r);
      make_one(s, t, r.below(4));
      break;
    }
    case S_SWAP: {
      if (&s >= shared && &s < shared + NSH)
        return;
      // moves twice and a half; the move constructor of these classes may copy
      std::string a = d.m, b = s.m;
      bool failed = !expect_ok(what, [&] { std::swap(x, *s.obj); });
      if (failed) {
        check(d, "a failed swap"), check(s, "a failed swap");
        break;
      }
      std::swap(d.m, s.m);
      break;
    }
    case S_WRITE: {
      Mode q(M_SIM);
      for (size_t i = 0; i < d.m.size(); i += 1 + r.below(5)) {
        d.m[i] = (char)r.below(256);
        (r.chance(1, 2) ? x.data() : x.begin())[i] = d.m[i];
      }
      break;
    }
    case S_COMPARE: {
      std::string near = s.m;
      if (r.chance(1, 2) && !near.empty())
        near[r.below((int)near.size())] ^= (char)(1 << r.below(8));
      else if (r.chance(1, 2))
        near += '\0';
      T *y = r.chance(1, 2) ? make(near) : nullptr;
      compare(*s.obj, s.m, y ? *y : *s2.obj, y ? near : s2.m);
      if (y)
        destroy(y);
      break;
    }
    case S_SORT: {
      std::vector<std::string> m;
      int n = r.range(2, 9);
      for (int i = 0; i < n; i++)
        m.push_back(r.chance(1, 3) ? src(f, r).m : some_bytes(r));
      int at = r.below(n), how = r.below(4);
      std::vector<T> *v = nullptr;
      must_do("a container of them", [&] {
        delete v;
        v = nullptr;
        v = new std::vector<T>();
        for (const std::string &e : m)
          v->push_back(T(e.data(), e.size()));
        arrange(*v, at, how);
      });
      arrange_model(m, at, how);
      if (v->size() != m.size())
        rt::violation("wrong-contents", "a container of %d of them has %d", (int)m.size(), (int)v->size());
      for (size_t i = 0; i < m.size(); i++)
        check((*v)[i], m[i], "moving them around in a container");
      Mode q(M_SIM);
      delete v;
      break;
    }
    case S_GROW: {
      int n = r.range(20, 160);
      std::string t;
      for (int i = 0; i < n; i++)
        t += (char)r.below(256);
      int done = 0;
      auto add = [&] {
        for (; done < n; done++)
          x.append(&t[done], 1);
      };
      uint64_t before = rt::op_peek().allocs;
      if (!expect_ok(what, add)) {
        check(x, d.m + t.substr(0, done), "a failed append of one byte");
        rt::op_faults_off();
        if (!attempt(add).ok)
          rt::violation("no-recovery", "appending still fails after the injected faults stopped");
      }
      if (rt::op_peek().allocs - before > 12)
        rt::violation("wrong-capacity", "appending %d bytes one at a time allocated %d times", n, (int)(rt::op_peek().allocs - before));
      d.m += t;
      break;
    }
    }
    check(d, what), check(s, what), check(s2, what);
    if (d.m.size() > 400) {
      Mode q(M_SIM);
      x.clear();
      d.m.clear();
    }
  }
  // text to read from, in simulated memory of exactly its size
  static char *buffer(const std::string &t) {
    Mode q(M_QUIET);
    char *p = new char[t.size()];
    memcpy(p, t.data(), t.size());
    return p;
  }
  static void unbuffer(char *p) {
    Mode q(M_QUIET);
    delete[] p;
  }
  // what has been moved from is empty or as it was
  static void moved(Var<T> &v) {
    std::string now = probe_text(*v.obj);
    if (now.empty())
      v.m.clear();
    check(v, "being moved from");
  }
  static void compare(const dynd::string &a, const std::string &ma, const dynd::string &b, const std::string &mb) {
    bool got[6], want[6] = {ma == mb, ma != mb, ma < mb, ma <= mb, ma > mb, ma >= mb};
    static const char *const ops[] = {"==", "!=", "<", "<=", ">", ">="};
    {
      Mode q(M_SIM);
      got[0] = a == b, got[1] = a != b, got[2] = a < b, got[3] = a <= b, got[4] = a > b, got[5] = a >= b;
    }
    for (int i = 0; i < 6; i++)
      if (got[i] != want[i])
        rt::violation("wrong-order", "%s %s %s is %s", S(ma).c_str(), ops[i], S(mb).c_str(), B(got[i]).c_str());
  }
  static void compare(const dynd::bytes &a, const std::string &ma, const dynd::bytes &b, const std::string &mb) {
    bool eq, ne;
    {
      Mode q(M_SIM);
      eq = a == b, ne = a != b;
    }
    if (eq != (ma == mb) || ne != (ma != mb))
      rt::violation("wrong-order", "comparing the bytes %s and %s", S(ma).c_str(), S(mb).c_str());
  }
  static void make_one(Var<dynd::string> &s, const std::string &t, int how) {
    dynd::string *y = nullptr;
    std::string want = how == 0 ? s.m : how == 3 ? std::string() : t;
    if (how == 2)
      want = want.substr(0, want.find('\0'));
    must_do("constructing a string", [&] { y = how == 0 ? new dynd::string(*s.obj) : how == 1 ? new dynd::string(t) : how == 2 ? new dynd::string(t.c_str()) : new dynd::string(); });
    check(*y, want, "constructing");
    destroy(y);
  }
  static void make_one(Var<dynd::bytes> &s, const std::string &t, int how) {
    dynd::bytes *y = nullptr;
    std::string want = how == 0 ? s.m : how == 3 ? std::string("a\0\xff", 3) : how == 2 ? std::string() : t;
    must_do("constructing bytes", [&] { y = how == 0 ? new dynd::bytes(*s.obj) : how == 1 ? new dynd::bytes(t.data(), t.size()) : how == 2 ? new dynd::bytes() : new dynd::bytes("a\0\xff"); });
    check(*y, want, "constructing");
    Mode q(M_SIM);
    delete y;
  }
  static void arrange(std::vector<dynd::string> &v, int at, int how) {
    if (how == 0)
      std::sort(v.begin(), v.end());
    else
      arrange_any(v, at, how);
  }
  static void arrange(std::vector<dynd::bytes> &v, int at, int how) { arrange_any(v, at, how); }
  template <class U> static void arrange_any(std::vector<U> &v, int at, int how) {
    if (how == 1)
      v.erase(v.begin() + at);
    else if (how == 2)
      v.insert(v.begin() + at, U(v[at]));
    else
      std::rotate(v.begin(), v.begin() + at, v.end());
  }
  static void arrange_model(std::vector<std::string> &v, int at, int how) {
    if (how == 0 && text)
      std::sort(v.begin(), v.end());
    else
      arrange_any(v, at, how);
  }
};

struct C12V : Scenario {
  Part<dynd::string> text;
  Part<dynd::bytes> bytes;
  int nf = 1;
  void generate(Rng &r, Plan &p) override {
    p.nf = r.chance(1, 2) ? 1 : r.range(2, 4);
    int n = r.range(6, 30);
    for (int i = 0; i < n; i++)
      p.add(r.range(1, p.nf), r.below(NK), r.below(3) != 0, r.below(30000), r.below(30000));
    p.params[0] = r.below(30000);
    p.params[1] = r.below(30000);
  }
  std::string show(const Plan &, const Op &o) override { return fmt("%s (%s) r=%d,%d", names[o.kind % NK], o.a[0] ? "string" : "bytes", o.a[1], o.a[2]); }
  const char *opname(const Op &o) override { return names[o.kind % NK]; }
  void begin(const Plan &p) override {
    Rng r(((uint64_t)(unsigned short)p.params[0] << 16) ^ (unsigned short)p.params[1]);
    nf = p.nf;
    text.begin(r, nf);
    bytes.begin(r, nf);
  }
  void exec(const Op &o, int) override {
    if (o.a[0])
      text.exec(o, nf);
    else
      bytes.exec(o, nf);
  }
  void end() override {
    text.end(nf);
    bytes.end(nf);
  }
};
Register reg("C12", "values", []() -> Scenario * { return new C12V; }, Tuning(), 2);
} // namespace
