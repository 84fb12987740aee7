// C17, memory blocks: storage handed out by pod, zero-initialising and object blocks is aligned, apart from all other storage of
// the block, keeps its content until the last reference goes, through growing, running out of memory, finalising and views.
#include "dynd_sim.h"
#include <dynd/memblock/external_memory_block.hpp>
#include <dynd/memblock/objectarray_memory_block.hpp>
#include <dynd/memblock/pod_memory_block.hpp>
#include <dynd/memblock/zeroinit_memory_block.hpp>
#include <dynd/types/bytes_type.hpp>
#include <dynd/types/string_type.hpp>
using namespace dynd_sim;

namespace {
enum { NS = 4, NSH = 3, NT = 9 };
enum { POD, ZERO, OBJ };
enum { S_MAKE, S_ALLOC, S_RESIZE, S_SPLIT, S_FINALIZE, S_RESET, S_DROP, S_CHECK, S_VIEW, S_UNVIEW, S_SHARE, S_SWAPSH, NK };
const char *const names[] = {"make a block", "alloc",        "resize",        "grow step by step", "finalize", "reset", "drop the block",
                             "check",        "view storage", "drop a view", "copy a shared owner", "exchange shared owners"};
const char *const tnames[NT] = {"int8", "int16", "int32", "int64", "float64", "(int8, int32)", "fixed_bytes[3]", "string", "(string, int16)"};

struct Range {
  char *p;
  size_t n;      // elements
  std::string m; // pod: the bytes; objects: one text of each element, separated by '\1'
};
struct Slot {
  nd::memory_block b;
  bool live = false, done = false;
  int kind = 0, t = 0;
  std::vector<Range> r;
};
struct View {
  nd::array a;
  bool live = false, obj = false;
  int t = 0;
  size_t n = 0;
  std::string m;
};
ndt::type *g_t[NT];
size_t g_size[NT], g_align[NT];

struct Blocks : Scenario {
  int nf = 1;
  Slot slots[rt::MAXF][NS];
  View views[rt::MAXF][NS];
  External ext[NSH];
  nd::memory_block shared[NSH];
  nd::memory_block mine[rt::MAXF][NSH];
  int mine_of[rt::MAXF][NSH];

  void generate(Rng &r, Plan &p) override {
    p.nf = r.pickl({1, 1, 1, 2, 3});
    p.params[0] = r.below(30000);
    int n = r.pickl({10, 16, 24, 36});
    for (int f = 1; f <= p.nf; f++)
      for (int i = 0; i < NS - 1; i++)
        p.add(f, S_MAKE, i, r.below(3), r.below(NT), r.pickl({0, 1, 3, 8, 64, 200, 2048}));
    for (int i = 0; i < n; i++) {
      int f = 1 + r.below(p.nf);
      int k = r.pickl({S_MAKE, S_ALLOC, S_ALLOC, S_ALLOC, S_ALLOC, S_RESIZE, S_RESIZE, S_RESIZE, S_SPLIT, S_FINALIZE, S_RESET, S_DROP, S_CHECK, S_VIEW,
                       S_VIEW, S_UNVIEW, S_SHARE, S_SWAPSH});
      int cnt = r.pickl({0, 1, 1, 2, 3, 5, 8, 13, 20, 40, 100, 300});
      if (k == S_MAKE)
        p.add(f, k, r.below(NS), r.below(3), r.below(NT), r.pickl({0, 1, 3, 8, 64, 200, 2048}));
      else
        p.add(f, k, r.below(NS), cnt, r.below(NS), r.below(1000), r.below(NSH));
    }
    for (int f = 1; f <= p.nf; f++)
      for (int i = 0; i < NS; i++)
        p.add(f, S_CHECK, i);
  }
  void begin(const Plan &p) override {
    nf = p.nf;
    if (!g_t[0]) {
      Mode q(M_QUIET);
      for (int i = 0; i < NT; i++) {
        g_t[i] = new ndt::type(std::string(tnames[i]));
        g_size[i] = g_t[i]->get_default_data_size(), g_align[i] = g_t[i]->get_data_alignment();
      }
    }
    for (auto &x : slots)
      for (Slot &s : x)
        s.live = false, s.r.clear();
    for (auto &x : views)
      for (View &v : x)
        v.live = false;
    for (int i = 0; i < NSH; i++) {
      ext[i].mem = nullptr, ext[i].size = 0, ext[i].freed = 0;
      Mode q(M_QUIET);
      ext[i].size = 16;
      ext[i].mem = (char *)malloc(16);
      memset(ext[i].mem, 0x40 + i, 16);
      shared[i] = nd::make_memory_block<nd::external_memory_block>((void *)&ext[i], &External::release);
      for (int f = 1; f <= nf; f++)
        mine[f][i] = shared[i], mine_of[f][i] = i;
      shared[i] = nd::memory_block();
    }
  }
  static bool objt(int t) { return t >= 7; }
  // content of one element of an object block
  static void put_text(char *at, int t, const std::string &s, int x) {
    ((dynd::string *)at)->assign(s.data(), s.size());
    if (t == 8)
      *(int16_t *)(at + sizeof(dynd::string)) = (int16_t)x;
  }
  static std::string get_text(const char *at, int t) {
    const dynd::string *s = (const dynd::string *)at;
    size_t n = s->size();
    const char *b = s->begin();
    std::string o;
    if (n > 4000 || (n && !rt::addr_ok(b, n)))
      rt::violation("wrong-value", "an element of an object block has a text of %zu bytes at %p", n, (const void *)b);
    uint32_t m = rt::set_mode(M_HOST);
    o.resize(n);
    rt::set_mode(m);
    for (size_t i = 0; i < n; i++)
      o[i] = b[i];
    if (t == 8) {
      int16_t v = *(const int16_t *)(at + sizeof(dynd::string));
      m = rt::set_mode(M_HOST);
      o += "/" + std::to_string(v);
      rt::set_mode(m);
    }
    return o;
  }
  static std::string read_n(const char *p, size_t n, int t, bool obj) {
    size_t sz = g_size[t];
    if (n && !rt::addr_ok(p, n * sz))
      rt::violation("wrong-value", "storage handed out is not valid for %zu elements of %s", n, tnames[t]);
    std::string o;
    if (obj) {
      for (size_t i = 0; i < n; i++) {
        Mode q(M_PEEK);
        std::string e = get_text(p + i * sz, t);
        rt::set_mode(M_HOST);
        o += e + '\1';
        rt::set_mode(M_PEEK);
        uint32_t m = rt::set_mode(M_HOST);
        { std::string().swap(e); }
        rt::set_mode(m);
      }
    } else {
      o.resize(n * sz);
      Mode q(M_PEEK);
      for (size_t i = 0; i < n * sz; i++)
        o[i] = p[i];
    }
    return o;
  }
  void check_slot(Slot &s, const char *what) {
    for (size_t i = 0; i < s.r.size(); i++) {
      std::string got = read_n(s.r[i].p, s.r[i].n, s.t, s.kind == OBJ);
      if (got != s.r[i].m)
        rt::violation("wrong-value", "%s: range %zu (%zu elements of %s) of a block of kind %d changed", what, i, s.r[i].n, tnames[s.t], s.kind);
    }
  }
  // a fresh range: aligned, apart from the others, zero if the block says so; filled by the user
  void fresh(Slot &s, Range &g, size_t from, int seed) {
    size_t sz = g_size[s.t];
    if (g.n && ((uintptr_t)g.p & (g_align[s.t] - 1)))
      rt::violation("bad-storage", "alloc gave storage for %s at %p, which is not aligned to %zu", tnames[s.t], (void *)g.p, g_align[s.t]);
    if (g.n && !rt::addr_ok(g.p, g.n * sz))
      rt::violation("bad-storage", "alloc gave storage for %zu elements of %s that is not allocated", g.n, tnames[s.t]);
    for (const Range &o : s.r)
      if (&o != &g && g.n && o.n && g.p < o.p + o.n * sz && o.p < g.p + g.n * sz)
        rt::violation("bad-storage", "alloc gave storage that overlaps storage handed out before");
    if (s.kind != POD && g.n > from) {
      Mode q(M_PEEK);
      for (size_t i = from * sz; i < g.n * sz; i++)
        if (g.p[i])
          rt::violation("bad-storage", "storage of a zero-initialising block of %s is not zero at byte %zu", tnames[s.t], i);
    }
    Rng r(seed);
    if (s.kind == OBJ) {
      for (size_t i = from; i < g.n; i++) {
        std::string x;
        int n = r.pickl({0, 1, 5, 15, 16, 40});
        for (int k = 0; k < n; k++)
          x += (char)('a' + r.below(26));
        int v = r.below(100);
        if (r.chance(1, 5) && s.t == 7)
          x.clear(); // left as it is
        else {
          Mode q(M_QUIET);
          put_text(g.p + i * sz, s.t, x, v);
        }
        g.m += x + (s.t == 8 ? "/" + std::to_string(v) : "") + '\1';
      }
    } else {
      size_t old = g.m.size();
      for (size_t i = from * sz; i < g.n * sz; i++)
        g.m += (char)r.below(256);
      Mode q(M_PEEK);
      for (size_t i = old; i < g.n * sz; i++)
        g.p[i] = g.m[i];
    }
  }
  void shrink(Slot &s, Range &g, size_t n) {
    if (s.kind == OBJ) {
      size_t at = 0;
      for (size_t i = 0; i < n; i++)
        at = g.m.find('\1', at) + 1;
      g.m.resize(at);
    } else
      g.m.resize(n * g_size[s.t]);
    g.n = n;
  }
  void release(Slot &s) {
    {
      Mode q(M_SIM);
      s.b = nd::memory_block();
    }
    s.live = false, s.r.clear();
  }
  void exec(const Op &op, int) override {
    int f = rt::cur_fiber();
    Slot &s = slots[f][op.a[0] % NS];
    switch (op.kind) {
    case S_MAKE: {
      if (s.live)
        release(s);
      int kind = op.a[1], t = op.a[2];
      if (kind == OBJ && !objt(t)) {
        must_fail("an object block of a type without destructor", [&] { nd::make_memory_block<nd::objectarray_memory_block>(*g_t[t], (intptr_t)g_size[t], (intptr_t)8); });
        PROBE("object block of plain type refused");
      }
      if (kind == OBJ)
        t = 7 + t % 2;
      else
        t %= 7;
      intptr_t cap = op.a[3];
      must_do("make_memory_block", [&] {
        nd::memory_block b = kind == POD    ? (cap == 2048 ? nd::make_memory_block<nd::pod_memory_block>(*g_t[t])
                                               : cap % 2   ? nd::make_memory_block<nd::pod_memory_block>(g_size[t], (intptr_t)g_align[t], cap)
                                                           : nd::make_memory_block<nd::pod_memory_block>(*g_t[t], cap))
                             : kind == ZERO ? (cap == 2048 ? nd::make_memory_block<nd::zeroinit_memory_block>(*g_t[t]) : nd::make_memory_block<nd::zeroinit_memory_block>(*g_t[t], cap))
                                            : nd::make_memory_block<nd::objectarray_memory_block>(*g_t[t], (intptr_t)g_size[t], cap % 65);
        s.b = std::move(b);
      });
      s.live = true, s.done = false, s.kind = kind, s.t = t;
      break;
    }
    case S_ALLOC: {
      if (!s.live || s.done)
        break;
      size_t n = op.a[1];
      Range g = {nullptr, n, ""};
      must_do("alloc", [&] { g.p = s.b->alloc(n); }, [&] { check_slot(s, "after alloc failed"); });
      fresh(s, g, 0, op.a[3] + 1);
      s.r.push_back(g);
      if (n * g_size[s.t] > 2048)
        PROBE("alloc larger than a chunk");
      break;
    }
    case S_RESIZE: {
      if (!s.live || s.done || s.r.empty())
        break;
      size_t n = op.a[1];
      Range &g = s.r.back();
      char *np = nullptr;
      bool failed = false;
      must_do("resize", [&] { np = s.b->resize(g.p, n); },
              [&] {
                failed = true;
                check_slot(s, "after resize failed");
              });
      if (failed)
        PROBE("resize retried after memory ran out");
      if (np != g.p)
        PROBE("resize moved the storage");
      g.p = np;
      size_t from = std::min(n, g.n);
      shrink(s, g, from);
      g.n = n;
      if (n) { // what is kept is there before the new part is written
        Range k = {np, from, g.m};
        if (read_n(np, from, s.t, s.kind == OBJ) != k.m)
          rt::violation("wrong-value", "resizing to %zu elements of %s lost content", n, tnames[s.t]);
      }
      fresh(s, g, from, op.a[3] + 7);
      break;
    }
    case S_SPLIT: { // how variable-sized output is made: guess, grow, trim
      if (!s.live || s.done)
        break;
      Range g = {nullptr, 0, ""};
      size_t guess = 1 + op.a[3] % 4, total = op.a[1] % 60;
      must_do("alloc", [&] { g.p = s.b->alloc(guess); }, [&] { check_slot(s, "after alloc failed"); });
      s.r.push_back(g);
      Range &h = s.r.back();
      size_t cap = guess;
      for (size_t i = 0; i < total; i++) {
        if (i == cap) {
          char *np = nullptr;
          must_do("resize", [&] { np = s.b->resize(h.p, cap * 2); }, [&] { check_slot(s, "after resize failed"); });
          h.p = np, cap *= 2;
        }
        h.n = i + 1;
        fresh(s, h, i, op.a[3] + (int)i);
      }
      char *np = nullptr;
      must_do("resize to the final size", [&] { np = s.b->resize(h.p, total); }, [&] { check_slot(s, "after resize failed"); });
      h.p = np;
      PROBE("storage grown step by step");
      break;
    }
    case S_FINALIZE:
      if (!s.live || s.done)
        break;
      must_do("finalize", [&] { s.b->finalize(); });
      s.done = true;
      break;
    case S_RESET: {
      if (!s.live || s.done)
        break;
      for (View &v : views[f]) // views of the storage end with it
        if (v.live && v.obj == (s.kind == OBJ) && in(s, v))
          unview(v);
      must_do("reset", [&] { s.b->reset(); });
      s.r.clear();
      PROBE("block reset and reused");
      break;
    }
    case S_DROP:
      if (s.live)
        release(s);
      break;
    case S_VIEW: {
      View &v = views[f][op.a[2] % NS];
      if (!s.live || s.r.empty())
        break;
      if (v.live)
        unview(v);
      Range &g = s.r[op.a[3] % s.r.size()];
      if (s.r.size() && &g == &s.r.back() && !s.done)
        break; // may still move
      must_do("a view of the storage", [&] {
        nd::array a = nd::make_array(ndt::make_fixed_dim(g.n, *g_t[s.t]), g.p, s.b, nd::readwrite_access_flags);
        a.get_type()->arrmeta_default_construct(a->metadata(), false);
        v.a = std::move(a);
      });
      v.live = true, v.obj = s.kind == OBJ, v.t = s.t, v.n = g.n, v.m = g.m;
      PROBE("storage kept by a view");
      break;
    }
    case S_UNVIEW: {
      View &v = views[f][op.a[2] % NS];
      if (v.live)
        unview(v);
      break;
    }
    case S_SHARE: {
      int i = op.a[4] % NSH, j = op.a[0] % NSH;
      {
        Mode q(M_SIM);
        mine[f][i] = mine[f][j];
      }
      mine_of[f][i] = mine_of[f][j];
      check_ext(f, i);
      break;
    }
    case S_SWAPSH: {
      int i = op.a[4] % NSH;
      {
        Mode q(M_SIM);
        nd::memory_block t = std::move(mine[f][i]);
        mine[f][i] = nd::memory_block(t);
      }
      check_ext(f, i);
      break;
    }
    default:
      if (s.live)
        check_slot(s, "check");
      for (View &v : views[f])
        if (v.live)
          check_view(v);
    }
  }
  static bool in(Slot &s, View &v) {
    for (Range &g : s.r)
      if (v.a.cdata() == g.p)
        return true;
    return false;
  }
  void check_ext(int f, int i) {
    int k = mine_of[f][i];
    if (ext[k].freed)
      rt::violation("early-release", "an external object is freed while a reference to it exists");
    Mode q(M_PEEK);
    for (int b = 0; b < 16; b++)
      if (ext[k].mem[b] != 0x40 + k)
        rt::violation("wrong-value", "an external object changed");
  }
  void check_view(View &v) {
    if (read_n(v.a.cdata(), v.n, v.t, v.obj) != v.m)
      rt::violation("wrong-value", "storage seen through a view (%zu elements of %s) changed", v.n, tnames[v.t]);
  }
  void unview(View &v) {
    check_view(v);
    drop(v.a);
    v.live = false;
  }
  void end() override {
    for (int f = 1; f <= nf; f++) {
      for (Slot &s : slots[f])
        if (s.live) {
          check_slot(s, "at the end");
          release(s);
        }
      for (View &v : views[f])
        if (v.live)
          unview(v);
      for (int i = 0; i < NSH; i++) {
        check_ext(f, i);
        Mode q(M_SIM);
        mine[f][i] = nd::memory_block();
      }
    }
    for (External &e : ext)
      if (e.freed != 1)
        rt::violation("leak", "an external object was freed %d times", e.freed);
  }
  std::string show(const Plan &, const Op &op) override {
    if (op.kind == S_MAKE)
      return fmt("slot %d: make a %s block, type %d, capacity %d", op.a[0], op.a[1] == 0 ? "pod" : op.a[1] == 1 ? "zero-initialising" : "object", op.a[2], op.a[3]);
    return fmt("%s slot %d count %d view %d", names[op.kind], op.a[0] % NS, op.a[1], op.a[2] % NS);
  }
  const char *opname(const Op &op) override { return names[op.kind]; }
};
Tuning tun() {
  Tuning t;
  return t;
}
Register reg("C17", "blocks", []() -> Scenario * { return new Blocks; }, tun(), 2);
} // namespace
