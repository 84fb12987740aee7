// C01: arrays shared between threads.  References to arrays are copied, viewed, read and released by several
// threads; storage has to live exactly as long as references to it exist, and reads have to see the contents.
#include "dynd_sim.h"
#include <dynd/arithmetic.hpp>

namespace {
enum { K_MAKE, K_MAKEV, K_MAKES, K_EXTERNAL, K_TAKE, K_GIVE, K_COPY, K_MOVE, K_SLICE, K_PICK, K_READ, K_DROP, K_ADD, K_STRUCT, K_SWAP,
       K_EVALCOPY, NK };
const char *const names[] = {"make_fixed", "make_var", "make_strings", "make_external", "take_shared", "publish", "copy", "move", "slice", "pick",
                             "read", "drop", "add", "make_struct", "swap", "eval_copy"};
enum { NP = 4, NS = 3, MAXEXT = 48 };

struct Cell {
  nd::array a;
  std::string text = "NULL"; // canonical contents
  int shape = 0;    // 0 empty, 1: 1-D int fixed, 2: 2-D int fixed, 3: var of int, 4: strings, 5: scalar int, 6 struct
  std::vector<std::vector<long long>> v;
  std::vector<int> ext; // externals this cell keeps alive
};

struct C01 : Scenario {
  Cell priv[rt::MAXF][NP];
  Cell shared[NS];
  rt::SimLock lock;
  External ext[MAXEXT];
  int refs[MAXEXT]; // how many cells keep external i alive (lower bound for life)
  int next = 0;
  int nf = 1;

  void generate(Rng &r, Plan &p) override {
    p.nf = r.chance(1, 6) ? 1 : r.range(2, 4);
    int n = r.range(6, 26);
    for (int i = 0; i < n; i++) {
      static const int mix[] = {K_MAKE, K_MAKE, K_MAKEV, K_MAKES, K_EXTERNAL, K_EXTERNAL, K_TAKE, K_TAKE, K_TAKE, K_TAKE, K_GIVE, K_GIVE, K_GIVE,
                                K_COPY, K_MOVE, K_SLICE, K_SLICE, K_PICK, K_READ, K_READ, K_DROP, K_DROP, K_ADD, K_STRUCT, K_SWAP, K_EVALCOPY};
      p.add(r.range(1, p.nf), r.pick(mix), r.below(NP), r.below(NP), r.below(NS), r.range(1, 6), r.below(5), r.below(1000));
    }
    p.params[0] = r.below(4); // what the shared slots hold at the start
  }
  std::string show(const Plan &, const Op &o) override {
    return fmt("%s p%d p%d s%d n=%d m=%d v=%d", names[o.kind % NK], o.a[0], o.a[1], o.a[2], o.a[3], o.a[4], o.a[5]);
  }
  const char *opname(const Op &o) override { return names[o.kind % NK]; }

  void render(Cell &c) {
    auto row = [](const std::vector<long long> &x) { return LI(x); };
    switch (c.shape) {
    case 1:
      c.text = LI(c.v[0]);
      break;
    case 2:
      c.text = L(c.v, row);
      break;
    case 3:
      c.text = L(c.v[0], [](long long x) { return I(x); }, '{', '}');
      break;
    case 4:
      c.text = L(c.v[0], [](long long x) { return S(str(x)); });
      break;
    case 5:
      c.text = I(c.v[0][0]);
      break;
    case 6:
      c.text = "(x: " + I(c.v[0][0]) + ", y: " + S(str(c.v[0][1])) + ")";
      break;
    case 7:
      c.text = S(str(c.v[0][0]));
      break;
    default:
      c.text = "NULL";
    }
  }
  static std::string str(long long x) {
    // some strings are stored inline, some on the heap
    return x % 3 == 0 ? fmt("s%lld", x) : fmt("a string that does not fit inline %lld", x);
  }
  void set_model(Cell &c, int shape, std::vector<std::vector<long long>> v) {
    c.shape = shape;
    c.v = v;
    c.ext.clear();
    render(c);
  }
  void verify(const char *what, const Cell &c) { check_dump("wrong-contents", what, c.a, c.text); }
  void verify_alive(const Cell &c) {
    for (int e : c.ext)
      if (ext[e].freed)
        rt::violation("freed-too-early", "the external owner %d was freed while an array still refers to its memory", e);
  }

  // builds an array into `a`; returns the model
  void make(Cell &c, int kind, int n, int m, int v) {
    std::vector<std::vector<long long>> val;
    int shape = 0;
    nd::array res;
    auto body = [&] {
      uint32_t old = rt::set_mode(M_HOST);
      val.clear();
      rt::set_mode(old);
      switch (kind) {
      case K_MAKE: {
        if (m) {
          nd::array t = nd::empty(n, m, ndt::make_type<int>());
          int *d = reinterpret_cast<int *>(t.data());
          for (int i = 0; i < n * m; i++)
            d[i] = v + i;
          shape = 2;
          res = t;
        } else {
          int tmp[8];
          for (int i = 0; i < n; i++)
            tmp[i] = v + i;
          res = nd::array(tmp, n);
          shape = 1;
        }
        break;
      }
      case K_MAKEV: {
        int tmp[8];
        for (int i = 0; i < n; i++)
          tmp[i] = v + i;
        nd::array src(tmp, n);
        nd::array t = nd::empty(ndt::make_type<ndt::var_dim_type>(ndt::make_type<int>()));
        t.vals() = src;
        res = t;
        shape = 3;
        break;
      }
      case K_MAKES: {
        nd::array t = nd::empty(n, ndt::make_type<dynd::string>());
        for (int i = 0; i < n; i++) {
          uint32_t o2 = rt::set_mode(M_HOST);
          std::string s = str(v + i);
          rt::set_mode(o2);
          reinterpret_cast<dynd::string *>(t.data())[i].assign(s.data(), s.size());
          rt::set_mode(M_HOST);
          s = std::string();
          rt::set_mode(o2);
        }
        res = t;
        shape = 4;
        break;
      }
      case K_STRUCT: {
        nd::array t = nd::empty("{x: int32, y: string}");
        t(0).vals() = v;
        uint32_t o2 = rt::set_mode(M_HOST);
        std::string s = str(v + 1);
        rt::set_mode(o2);
        t(1).vals() = s;
        rt::set_mode(M_HOST);
        s = std::string();
        rt::set_mode(o2);
        res = t;
        shape = 6;
        break;
      }
      }
    };
    must_do(names[kind], body);
    switch (shape) {
    case 2:
      for (int i = 0; i < n; i++) {
        val.push_back({});
        for (int j = 0; j < m; j++)
          val.back().push_back(v + i * m + j);
      }
      break;
    case 1:
    case 3:
    case 4:
      val.push_back({});
      for (int i = 0; i < n; i++)
        val[0].push_back(v + i);
      break;
    case 6:
      val.push_back({v, v + 1});
      break;
    }
    {
      Mode q(M_SIM);
      c.a = std::move(res); // releases what was there
    }
    set_model(c, shape, val);
    verify("a fresh array", c);
  }
  void make_external(Cell &c, int n, int v) {
    if (next >= MAXEXT)
      return;
    int e = next++;
    External &x = ext[e];
    x.freed = 0;
    x.size = n * sizeof(int);
    {
      Mode q(M_QUIET);
      x.mem = (char *)malloc(x.size);
      for (int i = 0; i < n; i++)
        ((int *)x.mem)[i] = v + i;
    }
    bool have_owner = false;
    auto body = [&] {
      nd::memory_block owner = nd::make_memory_block<nd::external_memory_block>((void *)&x, &External::release);
      have_owner = true;
      nd::array t = nd::make_array(ndt::make_fixed_dim(n, ndt::make_type<int>()), x.mem, owner, nd::readwrite_access_flags);
      t.get_type()->arrmeta_default_construct(t->metadata(), true);
      c.a = t;
    };
    bool ok = expect_ok("wrapping external memory", body);
    if (!ok) {
      if (have_owner) {
        // the owner existed and every reference to it is gone again: it must have been freed, exactly once
        if (x.freed != 1)
          rt::violation("owner-lost", "wrapping external memory failed and its free function ran %d times", x.freed);
      } else {
        Mode q(M_QUIET);
        free(x.mem);
        x.freed = 1;
      }
      PROBE("external wrap failed");
      return;
    }
    std::vector<long long> row;
    for (int i = 0; i < n; i++)
      row.push_back(v + i);
    set_model(c, 1, {row});
    c.ext = {e};
    verify("an array over external memory", c);
  }

  void begin(const Plan &p) override {
    nf = p.nf;
    next = 0;
    lock = rt::SimLock();
    for (int i = 0; i < NS; i++) {
      switch ((p.params[0] + i) % 4) {
      case 0:
        make(shared[i], K_MAKE, 4, 2, 10 * i);
        break;
      case 1:
        make(shared[i], K_MAKES, 3, 0, 7 * i);
        break;
      case 2:
        make_external(shared[i], 5, 100 * i);
        break;
      case 3:
        make(shared[i], K_MAKEV, 4, 0, 20 * i);
        break;
      }
    }
  }
  void exec(const Op &o, int) override {
    Cell *P = priv[o.fiber];
    Cell &a = P[o.a[0] % NP], &b = P[o.a[1] % NP], &s = shared[o.a[2] % NS];
    int n = 1 + (o.a[3] + 5) % 6, m = o.a[4], v = o.a[5];
    switch (o.kind) {
    case K_MAKE:
    case K_MAKEV:
    case K_MAKES:
    case K_STRUCT:
      make(a, o.kind, n, m % 4, v);
      break;
    case K_EXTERNAL:
      make_external(a, n, v);
      break;
    case K_TAKE: {
      // copies the shared reference under the lock, uses it outside
      nd::array t;
      rt::lock(lock);
      std::string text = s.text;
      int shape = s.shape;
      auto val = s.v;
      auto ex = s.ext;
      {
        Mode q(M_SIM);
        t = s.a;
      }
      rt::unlock(lock);
      {
        Mode q(M_SIM);
        a.a = std::move(t);
      }
      a.text = text, a.shape = shape, a.v = val, a.ext = ex;
      verify("an array taken from another thread", a);
      verify_alive(a);
      PROBE("took a shared reference");
      break;
    }
    case K_GIVE: {
      Cell old;
      rt::lock(lock);
      std::swap(old.text, s.text);
      std::swap(old.ext, s.ext);
      {
        Mode q(M_SIM);
        old.a = std::move(s.a);
        s.a = a.a;
      }
      s.text = a.text, s.shape = a.shape, s.v = a.v, s.ext = a.ext;
      rt::unlock(lock);
      verify("the replaced array", old);
      drop(old.a);
      break;
    }
    case K_SWAP: {
      rt::lock(lock);
      std::swap(a.text, s.text);
      std::swap(a.shape, s.shape);
      std::swap(a.v, s.v);
      std::swap(a.ext, s.ext);
      {
        Mode q(M_SIM);
        a.a.swap(s.a);
      }
      rt::unlock(lock);
      verify("a swapped array", a);
      break;
    }
    case K_COPY: {
      {
        Mode q(M_SIM);
        b.a = a.a;
      }
      if (&a != &b)
        b.text = a.text, b.shape = a.shape, b.v = a.v, b.ext = a.ext;
      verify("a copied reference", b);
      break;
    }
    case K_MOVE: {
      if (&a == &b)
        break;
      {
        Mode q(M_SIM);
        b.a = std::move(a.a);
      }
      b.text = a.text, b.shape = a.shape, b.v = a.v, b.ext = a.ext;
      a.text = "NULL", a.shape = 0, a.ext.clear();
      verify("a moved reference", b);
      verify("a moved-from reference", a);
      break;
    }
    case K_SLICE: {
      if (a.shape < 1 || a.shape > 4 || a.shape == 3 || a.v.empty())
        break;
      size_t len = a.shape == 2 ? a.v.size() : a.v[0].size();
      int lo = m % (int)len, hi = lo + 1 + v % (int)(len - lo);
      nd::array t;
      must_do("slicing", [&] { t = a.a(irange(lo, hi)); });
      Cell c;
      c.shape = a.shape == 3 ? 1 : a.shape;
      if (a.shape == 2)
        c.v.assign(a.v.begin() + lo, a.v.begin() + hi);
      else
        c.v = {std::vector<long long>(a.v[0].begin() + lo, a.v[0].begin() + hi)};
      c.ext = a.ext;
      render(c);
      {
        Mode q(M_SIM);
        b.a = std::move(t);
      }
      b.text = c.text, b.shape = c.shape, b.v = c.v, b.ext = c.ext;
      verify("a slice", b);
      PROBE("sliced");
      break;
    }
    case K_PICK: {
      if (a.shape < 1 || a.shape > 4 || a.v.empty())
        break;
      size_t len = a.shape == 2 ? a.v.size() : a.v[0].size();
      int i = m % (int)len;
      nd::array t;
      must_do("indexing", [&] { t = a.a(i); });
      Cell c;
      c.shape = a.shape == 2 ? 1 : a.shape == 4 ? 7 : 5;
      c.v = {a.shape == 2 ? a.v[i] : std::vector<long long>{a.v[0][i]}};
      c.ext = a.ext;
      render(c);
      {
        Mode q(M_SIM);
        b.a = std::move(t);
      }
      b.text = c.text, b.shape = c.shape, b.v = c.v, b.ext = c.ext;
      verify("an element", b);
      break;
    }
    case K_READ:
      verify("a read", a);
      verify_alive(a);
      if (a.shape == 1) {
        nd::array t;
        must_do("sum", [&] { t = nd::sum(a.a); });
        long long sum = 0;
        for (long long x : a.v[0])
          sum += x;
        check_dump("wrong-contents", "the sum of a shared array", t, I(sum));
        drop(t);
      }
      break;
    case K_ADD: {
      if (a.shape != 1 && a.shape != 2 && a.shape != 5)
        break;
      nd::array t;
      must_do("addition", [&] { t = a.a + a.a; });
      Cell c;
      c.shape = a.shape;
      c.v = a.v;
      for (auto &r : c.v)
        for (auto &x : r)
          x = (int)(2 * x);
      render(c);
      {
        Mode q(M_SIM);
        b.a = std::move(t);
      }
      b.text = c.text, b.shape = c.shape, b.v = c.v, b.ext.clear();
      verify("a sum", b);
      break;
    }
    case K_EVALCOPY: {
      if (a.shape == 0)
        break;
      nd::array t;
      must_do("eval_copy", [&] { t = a.a.eval_copy(); });
      {
        Mode q(M_SIM);
        b.a = std::move(t);
      }
      if (&a != &b)
        b.text = a.text, b.shape = a.shape, b.v = a.v;
      b.ext.clear();
      verify("an evaluated copy", b);
      break;
    }
    case K_DROP:
      verify_alive(a);
      drop(a.a);
      a.text = "NULL", a.shape = 0, a.ext.clear();
      break;
    }
  }
  void end() override {
    for (auto &row : priv)
      for (Cell &c : row) {
        verify("an array after all threads ended", c);
        verify_alive(c);
        drop(c.a);
        c.text = "NULL", c.shape = 0, c.ext.clear();
      }
    for (Cell &c : shared) {
      verify("a shared array after all threads ended", c);
      verify_alive(c);
      drop(c.a);
      c.text = "NULL", c.shape = 0, c.ext.clear();
    }
    for (int i = 0; i < next; i++)
      if (ext[i].freed != 1)
        rt::violation("owner-lost", "the free function of external owner %d ran %d times after the last reference went away", i,
                      ext[i].freed);
  }
};
Tuning tune() {
  Tuning t;
  return t;
}
Register reg("C01", "arrays", []() -> Scenario * { return new C01; }, tune());
} // namespace
