// C17, file mappings: a mapped range of a (simulated) file is exactly the bytes Python's slice of the file would be, stays
// readable through views while referenced, and no descriptor or mapping is left behind whatever system call fails.
// Also shortvector and multi_shortvector, the small vectors of dimensions, against std::vector.
#include "dynd_sim.h"
#include <cerrno>
#include <fcntl.h>
#include <sys/mman.h>
#include <dynd/memblock/memmap_memory_block.hpp>
#include <dynd/shortvector.hpp>
#include <dynd/types/bytes_type.hpp>
using namespace dynd_sim;

namespace {
enum { NFILES = 6, NS = 4 };
std::string slice(const std::string &s, intptr_t b, intptr_t e) {
  intptr_t n = s.size();
  if (b < 0)
    b = std::max<intptr_t>(0, b + n);
  if (e < 0)
    e = std::max<intptr_t>(0, e + n);
  b = std::min(b, n), e = std::min(e, n);
  return b < e ? s.substr(b, e - b) : std::string();
}

struct Disk : rt::System {
  std::string file[NFILES];
  struct Fd {
    int file = -1;
  } fds[64];
  long pg = 64;
  int opened = 0;
  int open(const char *path, int flags) override {
    if ((flags & O_ACCMODE) != O_RDONLY)
      rt::violation("bad-syscall", "the file is opened for writing");
    int k = -1;
    for (int i = 0; i < NFILES; i++)
      if (fmt("/data/file%d", i) == path)
        k = i;
    if (k < 0)
      return -ENOENT;
    for (int i = 3; i < 64; i++)
      if (fds[i].file < 0) {
        fds[i].file = k, opened++;
        return i;
      }
    return -EMFILE;
  }
  bool ok(int fd) { return fd >= 0 && fd < 64 && fds[fd].file >= 0; }
  int64_t size(int fd) override { return ok(fd) ? (int64_t)file[fds[fd].file].size() : -EBADF; }
  int close(int fd) override {
    if (!ok(fd))
      rt::violation("bad-syscall", "close of a descriptor (%d) that is not open", fd);
    fds[fd].file = -1, opened--;
    return 0;
  }
  int map(size_t len, int prot, int flags, int fd, int64_t off) override {
    if (!ok(fd))
      return -EBADF;
    if (len == 0 || off < 0 || off % pg)
      return -EINVAL;
    if (prot != PROT_READ || (flags & (MAP_FIXED | MAP_ANONYMOUS)))
      return -EACCES;
    return 0;
  }
  void fill(char *to, size_t len, int fd, int64_t off) override {
    const std::string &f = file[fds[fd].file];
    for (size_t i = 0; i < len; i++)
      to[i] = off + i < f.size() ? f[off + i] : 0;
  }
  long page() override { return pg; }
};

struct Map {
  nd::memory_block b;
  nd::array view;
  char *p = nullptr;
  bool live = false, viewed = false;
  std::string m;
};

struct Files : Scenario {
  enum { S_MAP, S_MISSING, S_COPY, S_VIEW, S_DROP, S_READ, NK };
  int nf = 1;
  Disk disk;
  Map maps[rt::MAXF][NS], shared[2];
  void generate(Rng &r, Plan &p) override {
    p.nf = r.pickl({1, 1, 2, 3});
    p.params[0] = r.below(30000);
    int n = r.pickl({8, 14, 24});
    for (int i = 0; i < n; i++) {
      int f = 1 + r.below(p.nf), k = r.pickl({S_MAP, S_MAP, S_MAP, S_MAP, S_MISSING, S_COPY, S_VIEW, S_VIEW, S_DROP, S_READ});
      int b = r.chance(1, 3) ? 0 : r.chance(1, 2) ? r.range(-300, 300) : r.pickl({-64, -1, 1, 63, 64, 65, 128, 192, 256, 1000, -1000});
      int e = r.chance(1, 3) ? 9999 : r.chance(1, 2) ? r.range(-300, 300) : r.pickl({-64, -1, 1, 63, 64, 65, 128, 192, 256, 1000, -1000, 0});
      p.add(f, k, r.below(NS), r.below(NFILES), b, e, r.below(NS + 2));
    }
    for (int f = 1; f <= p.nf; f++)
      for (int i = 0; i < NS; i++)
        p.add(f, S_READ, i);
  }
  void begin(const Plan &p) override {
    nf = p.nf;
    rt::system_hook = &disk;
    for (auto &x : disk.fds)
      x.file = -1;
    disk.opened = 0;
    Rng r(p.params[0]);
    disk.pg = r.chance(1, 3) ? 16 : 64;
    for (auto &s : disk.file) {
      s.clear();
      int n = r.chance(1, 3) ? r.pickl({0, 1, 63, 64, 65, 128, 192, 256}) : r.below(300);
      for (int i = 0; i < n; i++)
        s += (char)r.below(256);
    }
    for (auto &x : maps)
      for (Map &m : x)
        m.live = m.viewed = false;
    for (int i = 0; i < 2; i++) {
      Map &m = shared[i];
      m.viewed = false, m.live = true;
      m.m = disk.file[i];
      std::string path = fmt("/data/file%d", i);
      Mode q(M_QUIET);
      intptr_t n = 0;
      if (m.m.empty())
        m.live = false;
      else
        m.b = nd::make_memory_block<nd::memmap_memory_block>(path, 0, &m.p, &n);
    }
  }
  void check(Map &m, const char *what) {
    std::string got;
    got.resize(m.m.size());
    if (m.m.size() && !rt::addr_ok(m.p, m.m.size()))
      rt::violation("wrong-value", "%s: the mapped range of %zu bytes is not mapped", what, m.m.size());
    {
      Mode q(M_PEEK);
      for (size_t i = 0; i < m.m.size(); i++)
        got[i] = m.p[i];
    }
    if (got != m.m)
      rt::violation("wrong-value", "%s: the mapped bytes are not those of the file", what);
    if (m.viewed && m.view.cdata() != m.p)
      rt::violation("wrong-value", "%s: the view moved", what);
  }
  void drop(Map &m) {
    if (!m.live)
      return;
    check(m, "before the mapping goes");
    {
      Mode q(M_SIM);
      m.b = nd::memory_block();
    }
    if (m.viewed) {
      check(m, "through the view");
      drop_array(m.view);
    }
    m.live = m.viewed = false;
  }
  static void drop_array(nd::array &a) {
    Mode q(M_SIM);
    a = nd::array();
  }
  void exec(const Op &op, int) override {
    int f = rt::cur_fiber();
    Map &m = maps[f][op.a[0] % NS];
    switch (op.kind) {
    case S_MAP: {
      drop(m);
      int k = op.a[1];
      intptr_t b = op.a[2], e = op.a[3] == 9999 ? std::numeric_limits<intptr_t>::max() : op.a[3], n = -1;
      m.m = slice(disk.file[k], b, e);
      int before = disk.opened;
      std::string path = fmt("/data/file%d", k);
      char *p = nullptr;
      bool alone = nf == 1, failed = false;
      must_do("mapping a file",
              [&] {
                nd::memory_block x = op.a[2] == 0 && op.a[3] == 9999 ? nd::make_memory_block<nd::memmap_memory_block>(path, 1u, &p, &n)
                                                                     : nd::make_memory_block<nd::memmap_memory_block>(path, 1u, &p, &n, b, e);
                m.b = std::move(x);
              },
              [&] {
                failed = true;
                if (alone && disk.opened != before)
                  rt::violation("leak", "a failed mapping left a descriptor open");
              });
      if (failed)
        PROBE("mapping retried after a failure");
      if (n != (intptr_t)m.m.size())
        rt::violation("wrong-value", "mapping [%ld:%ld] of a file of %zu bytes has %ld bytes instead of %zu", (long)b, (long)e, disk.file[k].size(),
                      (long)n, m.m.size());
      m.p = p, m.live = true;
      check(m, "a new mapping");
      if (m.m.empty())
        PROBE("empty range mapped");
      else if (slice(disk.file[k], 0, b).size() % disk.pg)
        PROBE("mapping that starts inside a page");
      break;
    }
    case S_MISSING: {
      char *p = nullptr;
      intptr_t n = 0;
      std::string path = fmt("/data/none%d", op.a[1]);
      int before = disk.opened;
      must_fail("mapping a file that does not exist", [&] { nd::make_memory_block<nd::memmap_memory_block>(path, 1u, &p, &n); });
      if (nf == 1 && disk.opened != before)
        rt::violation("leak", "a failed mapping left a descriptor open");
      break;
    }
    case S_COPY: {
      Map &src = op.a[4] < NS ? maps[f][op.a[4]] : shared[op.a[4] - NS];
      if (&src == &m || !src.live || !src.b)
        break;
      drop(m);
      {
        Mode q(M_SIM);
        m.b = src.b;
      }
      m.p = src.p, m.m = src.m, m.live = true;
      check(m, "a shared mapping");
      break;
    }
    case S_VIEW: {
      if (!m.live || !m.b)
        break;
      if (m.viewed) { // the view is all that is left
        Mode q(M_SIM);
        m.b = nd::memory_block();
        PROBE("mapping kept by a view");
        break;
      }
      must_do("a view of the mapping", [&] {
        nd::array a = nd::make_array(ndt::make_fixed_dim(m.m.size(), ndt::make_type<int8_t>()), m.p, m.b, nd::read_access_flag | nd::immutable_access_flag);
        a.get_type()->arrmeta_default_construct(a->metadata(), false);
        m.view = std::move(a);
      });
      m.viewed = true;
      break;
    }
    case S_DROP:
      drop(m);
      break;
    default:
      if (m.live)
        check(m, "read");
    }
  }
  void end() override {
    for (int f = 1; f <= nf; f++)
      for (Map &m : maps[f])
        drop(m);
    for (Map &m : shared)
      drop(m);
    if (disk.opened)
      rt::violation("leak", "%d file descriptors are left open", disk.opened);
    rt::system_hook = nullptr;
  }
  std::string show(const Plan &, const Op &op) override {
    static const char *const n[] = {"map", "map a missing file", "share", "view", "drop", "read"};
    return fmt("%s slot %d file %d [%d:%d] from %d", n[op.kind], op.a[0] % NS, op.a[1], op.a[2], op.a[3], op.a[4]);
  }
  const char *opname(const Op &op) override {
    static const char *const n[] = {"map a file", "map a missing file", "share a mapping", "view a mapping", "drop a mapping", "read a mapping"};
    return n[op.kind];
  }
};

// ---- small vectors ----------------------------------------------------------------------------------------------
struct Vectors : Scenario {
  enum { S_NEW, S_NEWDATA, S_COPY, S_MOVE, S_ASSIGN, S_INIT, S_INITDATA, S_SWAP, S_WRITE, S_MULTI, NK };
  typedef shortvector<intptr_t, 3> SV;
  typedef multi_shortvector<intptr_t, 3> MV;
  struct V {
    SV *v = nullptr;
    std::vector<intptr_t> m;
  };
  V vec[rt::MAXF][NS];
  MV *multi[rt::MAXF];
  int nf = 1;
  void generate(Rng &r, Plan &p) override {
    p.nf = r.pickl({1, 1, 2});
    int n = r.pickl({10, 20, 40});
    for (int i = 0; i < n; i++)
      p.add(1 + r.below(p.nf), r.below(NK), r.below(NS), r.below(NS), r.pickl({0, 1, 2, 3, 3, 4, 4, 5, 8, 20}), r.below(10000));
  }
  void begin(const Plan &p) override {
    nf = p.nf;
    for (int f = 1; f <= nf; f++) {
      for (V &v : vec[f]) {
        v.m.clear();
        Mode q(M_QUIET);
        v.v = new SV;
      }
      Mode q(M_QUIET);
      multi[f] = new MV;
    }
  }
  void check(V &v, const char *what) {
    std::vector<intptr_t> got(v.m.size());
    {
      Mode q(M_PEEK);
      const SV &c = *v.v;
      for (size_t i = 0; i < v.m.size(); i++)
        got[i] = i % 2 ? c[i] : c.get()[i];
    }
    if (got != v.m)
      rt::violation("wrong-value", "%s: a vector of %zu dimensions has other values", what, v.m.size());
  }
  static void renew(SV *&at, SV *p) {
    Mode q(M_SIM);
    delete at;
    at = p;
  }
  void write(V &v, size_t n, int seed, size_t keep = 0) {
    Rng r(seed);
    v.m.resize(n);
    for (size_t i = keep; i < n; i++)
      v.m[i] = (intptr_t)r.next();
    Mode q(M_PEEK);
    for (size_t i = keep; i < n; i++)
      (*v.v)[i] = v.m[i];
  }
  void exec(const Op &op, int) override {
    int f = rt::cur_fiber();
    V &v = vec[f][op.a[0]], &w = vec[f][op.a[1]];
    size_t n = op.a[2];
    std::vector<intptr_t> data(n + 1);
    Rng r(op.a[3]);
    for (auto &x : data)
      x = (intptr_t)r.next();
    switch (op.kind) {
    case S_NEW: {
      SV *p = nullptr;
      must_do("construct", [&] { p = new SV(n); }, [&] { check(v, "unrelated"); });
      renew(v.v, p);
      write(v, n, op.a[3]);
      break;
    }
    case S_NEWDATA: {
      SV *p = nullptr;
      must_do("construct with data", [&] { p = new SV(n, data.data()); });
      renew(v.v, p);
      v.m.assign(data.begin(), data.begin() + n);
      break;
    }
    case S_COPY: {
      SV *p = nullptr;
      n = w.m.size();
      must_do("copy", [&] { p = new SV(n, *w.v); }, [&] { check(w, "after copying failed"); });
      std::vector<intptr_t> m = w.m;
      renew(v.v, p);
      v.m = m;
      break;
    }
    case S_MOVE: {
      if (&v == &w)
        break;
      SV *p = nullptr;
      must_do("move", [&] { p = new SV(std::move(*w.v)); });
      renew(v.v, p);
      v.m.swap(w.m);
      w.m.clear();
      break;
    }
    case S_ASSIGN: {
      must_do("assign by moving", [&] { *v.v = std::move(*w.v); });
      if (&v != &w) {
        v.m = w.m;
        w.m.clear();
      }
      PROBE("vector assigned by moving");
      break;
    }
    case S_INIT:
      must_do("init", [&] { v.v->init(n); });
      write(v, n, op.a[3]);
      break;
    case S_INITDATA:
      must_do("init with data", [&] { v.v->init(n, data.data()); });
      v.m.assign(data.begin(), data.begin() + n);
      break;
    case S_SWAP:
      must_do("swap", [&] { v.v->swap(*w.v); });
      if (&v != &w)
        v.m.swap(w.m);
      break;
    case S_WRITE:
      write(v, v.m.size(), op.a[3]);
      break;
    case S_MULTI: {
      MV *p = multi[f];
      must_do("init of several vectors", [&] { p->init((int)n); });
      Mode q(M_PEEK);
      for (int i = 0; i < 3; i++)
        for (int k = 0; k < (int)n; k++)
          p->get(i, k) = i * 1000 + k + op.a[3];
      for (int i = 0; i < 3; i++)
        for (int k = 0; k < (int)n; k++)
          if (p->get(i)[k] != i * 1000 + k + op.a[3] || p->get_all()[i][k] != p->get(i, k))
            rt::violation("wrong-value", "vector %d of several lost element %d", i, k);
      break;
    }
    }
    check(v, names(op));
    check(w, names(op));
  }
  static const char *names(const Op &op) {
    static const char *const n[] = {"construct", "construct with data", "copy", "move", "assign by moving", "init", "init with data", "swap", "write", "several vectors"};
    return n[op.kind];
  }
  void end() override {
    for (int f = 1; f <= nf; f++) {
      for (V &v : vec[f]) {
        check(v, "at the end");
        renew(v.v, nullptr);
      }
      Mode q(M_SIM);
      delete multi[f];
    }
  }
  std::string show(const Plan &, const Op &op) override { return fmt("%s vector %d, %d; size %d", names(op), op.a[0], op.a[1], op.a[2]); }
  const char *opname(const Op &op) override { return names(op); }
};
Tuning tun() {
  Tuning t;
  t.syscall = true;
  return t;
}
Register reg("C17", "files", []() -> Scenario * { return new Files; }, tun(), 2);
Register reg2("C17", "vectors", []() -> Scenario * { return new Vectors; }, Tuning(), 1);
} // namespace
