// The engine: plans, passes, fault placement, parallel search, confirmation, minimisation, replay.
#include "sim.h"
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

using namespace rt;
namespace sim {

std::string fmt(const char *f, ...) {
  char b[4000];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
std::string demangle(const char *n) {
  int st = 0;
  char *d = abi::__cxa_demangle(n, nullptr, nullptr, &st);
  std::string s = st == 0 && d ? d : n;
  free(d);
  return s;
}
static bool g_verbose;
bool verbose() { return g_verbose; }

struct Variant {
  const char *id, *name;
  Factory make;
  Tuning t;
  int weight;
};
// Zero-initialised storage: a Register may run before the dynamic initialisation of this file
alignas(Variant) static char g_variant_storage[64 * sizeof(Variant)];
static Variant *const g_variants = reinterpret_cast<Variant *>(g_variant_storage);
static int g_nvariants;
Register::Register(const char *id, const char *variant, Factory f, Tuning t, int weight) {
  new (reinterpret_cast<Variant *>(g_variant_storage) + g_nvariants++) Variant{id, variant, f, t, weight};
}

struct Pass {
  int mode = SM_SEQ, order = 0;
  uint64_t seed = 1, quantum = 100, depth = 2, total = 1000, prob = 100;
  int fill_new = 0xcd, fill_free = 0xdd, moves = 1, pad = 0;
  uint64_t entropy = 1;
  std::vector<Fault> faults;
  std::vector<Switch> sw;
};
struct Case {
  std::string prop, variant;
  Plan plan;
  std::vector<Pass> passes; // the first nseq... are preparation, the last one is the failing one
};

static std::string pass_text(const Pass &p) {
  std::string s = fmt("pass %d %d %llu %llu %llu %llu %llu %d %d %d %d %llu\n", p.mode, p.order, (unsigned long long)p.seed,
                      (unsigned long long)p.quantum, (unsigned long long)p.depth, (unsigned long long)p.total,
                      (unsigned long long)p.prob, p.fill_new, p.fill_free, p.moves, p.pad, (unsigned long long)p.entropy);
  for (const Fault &f : p.faults)
    s += fmt("fault %s fiber %d op %d nth %u\n", fault_names[f.kind], f.fiber, f.op, f.nth);
  for (const Switch &w : p.sw)
    if (w.step == ~0ull)
      s += fmt("switch %d %d end\n", w.from, w.to);
    else
      s += fmt("switch %d %d %llu\n", w.from, w.to, (unsigned long long)w.step);
  return s;
}
static std::string case_text(const Case &c) {
  std::string s = "property " + c.prop + "\nvariant " + c.variant + "\n";
  s += fmt("seed %llu\nfibers %d\nparams", (unsigned long long)c.plan.seed, c.plan.nf);
  for (int v : c.plan.params)
    s += fmt(" %d", v);
  s += "\n";
  for (size_t i = 0; i < c.plan.ops.size(); i++) {
    const Op &o = c.plan.ops[i];
    if (o.kind == OP_NONE)
      continue;
    s += fmt("op %zu fiber %d kind %d args %d %d %d %d %d %d\n", i, o.fiber, o.kind, o.a[0], o.a[1], o.a[2], o.a[3], o.a[4],
             o.a[5]);
  }
  for (const Pass &p : c.passes)
    s += pass_text(p);
  return s;
}
static bool parse_passes(const char *text, std::vector<Pass> &out) {
  const char *p = text;
  while (*p) {
    const char *e = strchr(p, '\n');
    std::string line(p, e ? (size_t)(e - p) : strlen(p));
    p = e ? e + 1 : p + strlen(p);
    unsigned long long a, b, c, d, f, en;
    int m, o, x1, x2, x3, x4, fi, op, to;
    unsigned nth;
    char k[64];
    if (sscanf(line.c_str(), "pass %d %d %llu %llu %llu %llu %llu %d %d %d %d %llu", &m, &o, &a, &b, &c, &d, &f, &x1, &x2, &x3,
               &x4, &en) == 12) {
      Pass q;
      q.mode = m, q.order = o, q.seed = a, q.quantum = b, q.depth = c, q.total = d, q.prob = f;
      q.fill_new = x1, q.fill_free = x2, q.moves = x3, q.pad = x4, q.entropy = en;
      out.push_back(q);
    } else if (sscanf(line.c_str(), "fault %63s fiber %d op %d nth %u", k, &fi, &op, &nth) == 4) {
      for (int i = 0; i < FK_NKINDS; i++)
        if (!strcmp(k, fault_names[i]))
          out.back().faults.push_back(Fault{(uint8_t)i, (uint8_t)fi, (uint16_t)op, nth});
    } else if (sscanf(line.c_str(), "switch %d %d %63s", &fi, &to, k) == 3) {
      out.back().sw.push_back(Switch{(uint8_t)fi, (uint8_t)to, !strcmp(k, "end") ? ~0ull : strtoull(k, nullptr, 10)});
    }
  }
  return true;
}
static bool parse_case(const char *text, Case &c) {
  const char *p = text;
  while (*p) {
    const char *e = strchr(p, '\n');
    std::string line(p, e ? (size_t)(e - p) : strlen(p));
    p = e ? e + 1 : p + strlen(p);
    char k[128];
    unsigned long long u;
    if (sscanf(line.c_str(), "property %127s", k) == 1)
      c.prop = k;
    else if (sscanf(line.c_str(), "variant %127s", k) == 1)
      c.variant = k;
    else if (sscanf(line.c_str(), "seed %llu", &u) == 1)
      c.plan.seed = u;
    else if (sscanf(line.c_str(), "fibers %d", &c.plan.nf) == 1)
      ;
    else if (sscanf(line.c_str(), "params %d %d %d %d %d %d %d %d", &c.plan.params[0], &c.plan.params[1], &c.plan.params[2],
                    &c.plan.params[3], &c.plan.params[4], &c.plan.params[5], &c.plan.params[6], &c.plan.params[7]) == 8)
      ;
    else {
      unsigned i;
      int fi, ki, a[6];
      if (sscanf(line.c_str(), "op %u fiber %d kind %d args %d %d %d %d %d %d", &i, &fi, &ki, &a[0], &a[1], &a[2], &a[3], &a[4],
                 &a[5]) == 9) {
        while (c.plan.ops.size() < i)
          c.plan.add(1, OP_NONE);
        c.plan.add(fi, ki, a[0], a[1], a[2], a[3], a[4], a[5]);
      }
    }
  }
  parse_passes(text, c.passes);
  return !c.passes.empty();
}

// ---- shared memory between a worker and its child -------------------------------------------------
struct ProbeC {
  const char *name;
  uint64_t n;
};
struct Shared {
  // result of the child
  int done;     // 1: finished cleanly
  int violated; // 1: violation recorded
  char cls[64];
  char sig[600];
  char msg[6000];
  char stack[6000];
  uint64_t vhash, vsteps;
  char passes[1 << 18]; // text of the passes run so far
  Switch rec[1 << 15];
  size_t nrec;
  uint64_t plan_hash;
  // statistics, accumulated
  uint64_t runs, plans, steps, switches, allocs, frees, atomics, ops, ops_failed, preempt_in_op;
  uint64_t fired[FK_NKINDS];
  uint64_t by_mode[8];
  uint64_t leaks_rechecked;
  ProbeC probes[128];
  uint64_t hashes[512];
  int nhashes;
};
static Shared *g_sh;

void probe(const char *name) {
  for (ProbeC &p : g_sh->probes) {
    if (p.name == name) {
      p.n++;
      return;
    }
    if (!p.name) {
      p.name = name;
      p.n = 1;
      return;
    }
  }
}

static Scenario *g_sc;
static Case *g_case;
static std::vector<OpStats> g_opstats;

static std::string strip_templates(const char *s) {
  std::string r;
  int d = 0;
  for (; *s; s++) {
    if (!strncmp(s, "operator", 8) ) {
      // keep operator names literally
      r += d ? "" : "operator";
      s += 8;
      while (*s && *s != '(') {
        if (!d)
          r += *s;
        s++;
      }
      if (!*s)
        break;
    }
    if (*s == '<')
      d++;
    else if (*s == '>')
      d -= d > 0;
    else if (*s == '(' && d == 0)
      break;
    else if (!d)
      r += *s;
  }
  // drop a leading return type
  size_t sp = r.rfind(' ');
  if (sp != std::string::npos && r.find("operator") == std::string::npos)
    r = r.substr(sp + 1);
  return r;
}

static void sink(const char *cls, const char *msg, const uintptr_t *pcs, int n) {
  // runs in the child, in HOST mode; the process ends here
  if (!g_sh)
    _exit(2);
  Shared &s = *g_sh;
  snprintf(s.cls, sizeof s.cls, "%s", cls);
  int op = cur_op();
  std::string opn = "-";
  if (g_case && g_sc && op >= 0 && op < (int)g_case->plan.ops.size())
    opn = g_sc->opname(g_case->plan.ops[op]);
  snprintf(s.msg, sizeof s.msg, "%s [operation %d: %s]", msg, op,
           op >= 0 && g_case && op < (int)g_case->plan.ops.size() ? g_sc->show(g_case->plan, g_case->plan.ops[op]).c_str() : "-");
  std::string st, top;
  char b[2000];
  for (int i = 0; i < n; i++) {
    symbol_of(pcs[i] - 1, b, sizeof b);
    std::string f = strip_templates(b);
    if (f.find("dynd") != std::string::npos && top.empty() && f.find("dynd_sim") == std::string::npos)
      top = f;
    b[220] = 0;
    st += fmt("  %s\n", b);
  }
  if (!strcmp(cls, "HARNESS"))
    top = "";
  snprintf(s.stack, sizeof s.stack, "%s", st.c_str());
  snprintf(s.sig, sizeof s.sig, "%s|%s|%s", cls, opn.c_str(), top.c_str());
  size_t k;
  const Switch *r = recorded_switches(&k);
  s.nrec = std::min(k, sizeof s.rec / sizeof s.rec[0]);
  memcpy(s.rec, r, s.nrec * sizeof(Switch));
  s.violated = 1;
  RunStats rs = run_end();
  s.vhash = rs.event_hash;
  s.vsteps = rs.steps;
  __asm__ volatile("" ::: "memory");
  _exit(0);
}

// ---- one pass --------------------------------------------------------------------------------------
static bool g_collect;
static void fiber_main(int fiber, void *) {
  const Plan &p = g_case->plan;
  for (size_t i = 0; i < p.ops.size(); i++) {
    const Op &o = p.ops[i];
    if (o.fiber != fiber || o.kind == OP_NONE)
      continue;
    op_boundary();
    op_begin((int)i);
    if (g_verbose)
      fprintf(stderr, "[%d] op %zu %s\n", fiber, i, g_sc->show(p, o).c_str());
    g_sc->exec(o, (int)i);
    OpStats st = op_end();
    g_sh->ops++;
    if (st.fired_mask & ~(1u << FK_STALL))
      g_sh->ops_failed++;
    if (g_collect)
      g_opstats[i] = st;
  }
}
static RunStats run_pass(Case &c, const Pass &ps, const Tuning &t) {
  RunConfig rc;
  memset(&rc, 0, sizeof rc);
  rc.sched.mode = ps.mode;
  rc.sched.order = ps.order;
  rc.sched.seed = ps.seed;
  rc.sched.quantum = ps.quantum;
  rc.sched.pct_depth = ps.depth;
  rc.sched.pct_total = ps.total;
  rc.sched.atomic_prob = ps.prob;
  rc.sched.explicit_list = ps.sw.data();
  rc.sched.explicit_n = ps.sw.size();
  rc.heap.fill_new = ps.fill_new;
  rc.heap.fill_free = ps.fill_free;
  rc.heap.realloc_moves = ps.moves;
  rc.heap.pad = ps.pad;
  rc.faults = ps.faults.data();
  rc.nfaults = ps.faults.size();
  rc.max_steps = t.max_steps;
  rc.entropy_seed = ps.entropy;
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = 60;
  setitimer(ITIMER_PROF, &it, nullptr);
  run_begin(rc);
  if (g_verbose)
    fprintf(stderr, "--- pass\n%s", pass_text(ps).c_str());
  g_sc->begin(c.plan);
  run_fibers(c.plan.nf, fiber_main, nullptr);
  g_sc->end();
  RunStats st = run_end();
  Shared &s = *g_sh;
  s.runs++;
  s.steps += st.steps;
  s.switches += st.switches;
  s.allocs += st.allocs;
  s.frees += st.frees;
  s.atomics += st.atomics;
  s.preempt_in_op += st.preempt_in_op;
  s.by_mode[ps.mode]++;
  for (int i = 0; i < FK_NKINDS; i++)
    s.fired[i] += st.fired[i];
  return st;
}
static void leak_check(Case &c, const Pass &ps, const Tuning &t, RunStats st) {
  if (!st.live_blocks)
    return;
  // Blocks outlived the run.  Lazily created library state does that once; a leak does it every time.
  for (int rep = 0; rep < 2; rep++) {
    adopt_live();
    g_sh->leaks_rechecked++;
    if (rep == 1)
      g_trace_alloc = true;
    st = run_pass(c, ps, t);
    g_trace_alloc = false;
    if (!st.live_blocks)
      return;
  }
  static char buf[4000];
  uintptr_t pcs[12];
  int n = describe_live(buf, sizeof buf, pcs, 12);
  std::string m = fmt("%llu blocks (%llu bytes) are never released: ", (unsigned long long)st.live_blocks,
                      (unsigned long long)st.live_bytes) + buf;
  sink("leak", m.c_str(), pcs, n);
}

static void append_pass(const Pass &p) {
  std::string t = pass_text(p);
  size_t n = strlen(g_sh->passes);
  if (n + t.size() + 1 < sizeof g_sh->passes)
    memcpy(g_sh->passes + n, t.c_str(), t.size() + 1);
}
static void note_hash(uint64_t h) {
  if (g_sh->nhashes < 512)
    g_sh->hashes[g_sh->nhashes++] = h;
  g_sh->plan_hash = g_sh->plan_hash * 1099511628211ull ^ h;
}
static uint64_t plan_digest(const Plan &p) {
  uint64_t h = 1469598103934665603ull;
  for (const Op &o : p.ops) {
    const unsigned char *b = (const unsigned char *)&o;
    for (size_t i = 0; i < sizeof o; i++)
      h = (h ^ b[i]) * 1099511628211ull;
  }
  for (int v : p.params)
    h = (h ^ (uint64_t)v) * 1099511628211ull;
  return h;
}

static const int fills[] = {0xcd, 0x00, 0xff, 0x01, 0x7f, 0xa5};
static void random_heap(Rng &r, Pass &p) {
  p.fill_new = r.pick(fills);
  p.fill_free = r.pick(fills);
  p.moves = r.chance(3, 4);
  p.pad = r.chance(1, 4) ? r.below(4) : 0;
  p.entropy = r.next();
}
static void random_sched(Rng &r, Pass &p, int nf, uint64_t total_steps, uint64_t pass1_ops) {
  p.seed = r.next();
  p.total = std::max<uint64_t>(total_steps, 50);
  if (nf < 2) {
    p.mode = SM_SEQ;
    return;
  }
  switch (r.below(10)) {
  case 0:
    p.mode = SM_OPS;
    break;
  case 1:
  case 2:
    p.mode = SM_ATOMIC;
    p.prob = r.pickl({20, 100, 300, 700});
    break;
  case 3:
  case 4:
  case 5:
    p.mode = SM_PCT;
    p.depth = 1 + r.below(4);
    break;
  case 6:
    p.mode = SM_RANDOM;
    p.quantum = 1 + r.below(6);
    break;
  default:
    p.mode = SM_RANDOM;
    p.quantum = r.pickl({20, 60, 200, 800});
    break;
  }
}
static void place_faults(Rng &r, Pass &p, const Plan &pl, const std::vector<OpStats> &st, const Tuning &t) {
  // swarm: a random subset of the enabled kinds, at a random density
  int kinds[FK_NKINDS], nk = 0;
  if (t.alloc)
    kinds[nk++] = FK_ALLOC, kinds[nk++] = FK_ALLOC_STICKY;
  if (t.callback)
    kinds[nk++] = FK_CALLBACK;
  if (t.stream)
    kinds[nk++] = FK_STREAM;
  if (t.entropy)
    kinds[nk++] = FK_ENTROPY;
  if (t.syscall)
    kinds[nk++] = FK_SYSCALL;
  if (t.text)
    kinds[nk++] = FK_CUT, kinds[nk++] = FK_FLIP;
  if (t.stall && pl.nf > 1)
    kinds[nk++] = FK_STALL;
  if (!nk)
    return;
  bool on[FK_NKINDS] = {};
  for (int i = 0; i < nk; i++)
    on[kinds[i]] = r.chance(1, 2);
  on[kinds[r.below(nk)]] = true;
  int den = r.pickl({1, 1, 2, 4});
  for (size_t i = 0; i < pl.ops.size(); i++) {
    const Op &o = pl.ops[i];
    if (o.kind == OP_NONE || !r.chance(1, den))
      continue;
    int c[FK_NKINDS], n = 0;
    for (int k = 0; k < FK_NKINDS; k++)
      if (on[k])
        c[n++] = k;
    int k = c[r.below(n)];
    uint64_t lim = 0;
    switch (k) {
    case FK_ALLOC:
    case FK_ALLOC_STICKY:
      lim = st[i].allocs;
      break;
    case FK_CALLBACK:
      lim = st[i].callbacks;
      break;
    case FK_STREAM:
      lim = st[i].stream_bytes;
      break;
    case FK_ENTROPY:
      lim = 1;
      break;
    case FK_SYSCALL:
      lim = st[i].syscalls;
      break;
    case FK_STALL:
      lim = st[i].steps;
      break;
    case FK_CUT:
    case FK_FLIP:
      lim = 1 << 20;
      break;
    }
    if (!lim)
      continue;
    uint32_t nth = 1 + (uint32_t)(r.next() % lim);
    if ((k == FK_ALLOC || k == FK_ALLOC_STICKY) && r.chance(1, 3))
      nth = 1 + (uint32_t)(r.next() % std::min<uint64_t>(lim, 8)); // bias to the early ones
    p.faults.push_back(Fault{(uint8_t)k, o.fiber, (uint16_t)i, nth});
  }
}

// the body of the child that explores one plan
static void explore_plan(Case &c, const Tuning &t) {
  g_case = &c;
  Rng r(c.plan.seed ^ 0x5eed5eed5eedull);
  uint64_t pd = plan_digest(c.plan);
  g_opstats.assign(c.plan.ops.size(), OpStats());
  uint64_t total = 3000;
  if (!t.fresh) {
    Pass p0;
    append_pass(p0);
    g_collect = true;
    RunStats st = run_pass(c, p0, t);
    g_collect = false;
    note_hash(st.event_hash ^ pd);
    leak_check(c, p0, t, st);
    total = st.steps;
  } else {
    for (OpStats &o : g_opstats)
      o.allocs = 60, o.steps = 2000;
  }
  int n = t.fresh ? 1 : t.passes;
  for (int i = 0; i < n; i++) {
    Pass p;
    random_heap(r, p);
    random_sched(r, p, c.plan.nf, total, c.plan.ops.size());
    p.order = r.below(2);
    // about a third of the concurrent runs are free of faults, so that no relaxation hides an ordinary bug
    if (c.plan.nf < 2 ? !(i == 0 && r.chance(1, 2)) : r.chance(2, 3))
      place_faults(r, p, c.plan, g_opstats, t);
    append_pass(p);
    RunStats st = run_pass(c, p, t);
    note_hash(st.event_hash ^ pd);
    leak_check(c, p, t, st);
  }
}
static void replay_case(Case &c, const Tuning &t) {
  g_case = &c;
  g_opstats.assign(c.plan.ops.size(), OpStats());
  for (Pass &p : c.passes) {
    RunStats st = run_pass(c, p, t);
    note_hash(st.event_hash);
    leak_check(c, p, t, st);
  }
}

// ---- children --------------------------------------------------------------------------------------
static Shared *new_shared() {
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    _exit(2);
  }
  return (Shared *)p;
}
static void clear_result(Shared &s) {
  s.done = s.violated = 0;
  s.cls[0] = s.sig[0] = s.msg[0] = s.stack[0] = s.passes[0] = 0;
  s.vhash = s.vsteps = s.nrec = 0;
  s.plan_hash = 7;
  s.nhashes = 0;
}
// runs fn in a child; returns false if the child died without a result
template <class F> static bool in_child(F fn) {
  for (int attempt = 0; attempt < 3; attempt++) {
    clear_result(*g_sh);
    pid_t pid = fork();
    if (pid < 0) {
      usleep(100000);
      continue;
    }
    if (pid == 0) {
      alarm(400);
      fn();
      g_sh->done = 1;
      _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0)
      ;
    if (g_sh->done || g_sh->violated)
      return true;
    // the child vanished (memory pressure?): try again
  }
  return false;
}

static Variant *find_variant(const std::string &id, const std::string &name) {
  for (int i = 0; i < g_nvariants; i++)
    if (id == g_variants[i].id && name == g_variants[i].name)
      return &g_variants[i];
  return nullptr;
}
static uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a * 0x9e3779b97f4a7c15ull + b);
  r.next();
  return r.next();
}
static Case make_case(const std::string &prop, uint64_t seed, uint64_t index) {
  std::vector<int> vs;
  for (int i = 0; i < g_nvariants; i++)
    if (prop == g_variants[i].id)
      for (int k = 0; k < g_variants[i].weight; k++)
        vs.push_back(i);
  Variant &v = g_variants[vs[index % vs.size()]];
  Case c;
  c.prop = prop;
  c.variant = v.name;
  uint64_t h = 0;
  for (char ch : prop)
    h = h * 131 + ch;
  c.plan.seed = mix(seed * 1000003 + index, h);
  Rng r(c.plan.seed);
  Scenario *s = v.make();
  s->generate(r, c.plan);
  delete s;
  return c;
}

static bool run_case_child(Case &c, bool explore) {
  Variant *v = find_variant(c.prop, c.variant);
  return in_child([&] {
    g_sc = v->make();
    if (explore)
      explore_plan(c, v->t);
    else
      replay_case(c, v->t);
  });
}

struct Found {
  uint64_t index;
  std::string cls, sig, msg, stack;
  uint64_t vhash, vsteps;
  Case c; // with passes
};
// runs a case with explicit passes; true if it violates with the same class and operation
static bool reproduces(Case &c, const std::string &sig, std::vector<Switch> *rec = nullptr, uint64_t *hash = nullptr) {
  if (!run_case_child(c, false))
    return false;
  if (!g_sh->violated || sig != g_sh->sig)
    return false;
  if (rec)
    rec->assign(g_sh->rec, g_sh->rec + g_sh->nrec);
  if (hash)
    *hash = g_sh->vhash;
  return true;
}

static double wall() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

static void minimise(Case &c, const std::string &sig, double budget) {
  double end = wall() + budget;
  auto left = [&] { return wall() < end; };
  Variant *v = find_variant(c.prop, c.variant);
  // 1. the passes before the failing one
  if (c.passes.size() > 1) {
    Case t = c;
    t.passes.erase(t.passes.begin(), t.passes.end() - 1);
    if (reproduces(t, sig))
      c = t;
    else if (c.passes.size() > 2) {
      t = c;
      t.passes.erase(t.passes.begin() + 1, t.passes.end() - 1);
      if (reproduces(t, sig))
        c = t;
    }
  }
  // 2. operations, in shrinking chunks; with concurrent plans a few other schedules are tried as well
  auto try_case = [&](Case &t) {
    if (reproduces(t, sig))
      return true;
    if (t.plan.nf > 1 && t.passes.back().mode != SM_EXPLICIT)
      for (int k = 0; k < 6 && left(); k++) {
        t.passes.back().seed = mix(t.passes.back().seed, k + 1);
        if (reproduces(t, sig))
          return true;
      }
    return false;
  };
  for (size_t chunk = std::max<size_t>(c.plan.ops.size() / 2, 1); chunk >= 1 && left(); chunk /= 2) {
    for (size_t i = 0; i < c.plan.ops.size() && left(); i += chunk) {
      Case t = c;
      bool any = false;
      for (size_t k = i; k < i + chunk && k < t.plan.ops.size(); k++)
        if (t.plan.ops[k].kind != OP_NONE) {
          t.plan.ops[k].kind = OP_NONE;
          any = true;
          for (Pass &p : t.passes)
            p.faults.erase(std::remove_if(p.faults.begin(), p.faults.end(), [&](const Fault &f) { return f.op == k; }),
                           p.faults.end());
        }
      if (any && try_case(t))
        c = t;
    }
    if (chunk == 1)
      break;
  }
  // 3. faults
  for (size_t pi = 0; pi < c.passes.size(); pi++)
    for (size_t i = 0; i < c.passes[pi].faults.size() && left();) {
      Case t = c;
      t.passes[pi].faults.erase(t.passes[pi].faults.begin() + i);
      if (try_case(t))
        c = t;
      else
        i++;
    }
  // 4. arguments
  for (size_t i = 0; i < c.plan.ops.size() && left(); i++)
    if (c.plan.ops[i].kind != OP_NONE)
      for (int k = 0; k < 6 && left(); k++)
        if (c.plan.ops[i].a[k]) {
          Case t = c;
          t.plan.ops[i].a[k] = 0;
          if (try_case(t))
            c = t;
        }
  // 5. the schedule, made explicit
  if (c.plan.nf > 1 && left()) {
    std::vector<Switch> rec;
    Case t = c;
    if (reproduces(t, sig, &rec)) {
      t.passes.back().mode = SM_EXPLICIT;
      t.passes.back().sw = rec;
      if (rec.size() < 4000 && reproduces(t, sig)) {
        c = t;
        for (size_t chunk = std::max<size_t>(rec.size() / 2, 1); chunk >= 1 && left(); chunk /= 2) {
          for (size_t i = 0; i < c.passes.back().sw.size() && left();) {
            t = c;
            std::vector<Switch> &w = t.passes.back().sw;
            w.erase(w.begin() + i, w.begin() + std::min(i + chunk, w.size()));
            if (reproduces(t, sig))
              c = t;
            else
              i += chunk;
          }
          if (chunk == 1)
            break;
        }
      }
    }
  }
  (void)v;
}

// ---- the search --------------------------------------------------------------------------------------
struct WorkerOut {
  Shared sh; // accumulated statistics live in here
  int found;
  uint64_t found_index;
  int error;
  char error_text[2000];
  uint64_t plans;
  uint64_t det_checked;
  uint64_t known_hits[64];
  size_t nh;
  double busy;
};
static std::vector<std::string> g_known;
static int known_index(const char *sig) {
  for (size_t i = 0; i < g_known.size(); i++)
    if (g_known[i] == sig)
      return (int)i;
  return -1;
}

static std::string json_escape(const std::string &s) {
  std::string r;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\')
      r += '\\', r += ch;
    else if (ch == '\n')
      r += "\\n";
    else if (ch < 32 || ch > 126)
      r += fmt("\\u%04x", ch);
    else
      r += ch;
  }
  return r;
}

static int cmd_run(int argc, char **argv) {
  std::string prop, out = "/dev/stdout", replay = "/tmp/replay.txt";
  uint64_t seed = 1, plans = 1000, first = 0;
  double seconds = 60;
  int workers = 8;
  for (int i = 2; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--prop")
      prop = v;
    else if (k == "--seed")
      seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--plans")
      plans = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--first")
      first = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--seconds")
      seconds = atof(v.c_str());
    else if (k == "--workers")
      workers = atoi(v.c_str());
    else if (k == "--out")
      out = v;
    else if (k == "--replay")
      replay = v;
    else if (k == "--known")
      g_known.push_back(v);
  }
  bool any = false;
  for (int i = 0; i < g_nvariants; i++)
    any |= prop == g_variants[i].id;
  if (!any) {
    fprintf(stderr, "no scenario for %s\n", prop.c_str());
    return 2;
  }
  double t0 = wall();
  printf("VERIF_SEED=%llu property=%s plans<=%llu seconds<=%.0f workers=%d\n", (unsigned long long)seed, prop.c_str(),
         (unsigned long long)plans, seconds, workers);
  fflush(stdout);
  WorkerOut *wo = (WorkerOut *)mmap(nullptr, sizeof(WorkerOut) * workers, PROT_READ | PROT_WRITE,
                                    MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  const size_t HMAX = 1 << 21;
  uint64_t *hs = (uint64_t *)mmap(nullptr, sizeof(uint64_t) * HMAX * workers, PROT_READ | PROT_WRITE,
                                  MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  volatile uint64_t *minv = (volatile uint64_t *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  *minv = ~0ull;
  std::vector<pid_t> pids;
  for (int w = 0; w < workers; w++) {
    pid_t pid = fork();
    if (pid == 0) {
      WorkerOut &o = wo[w];
      g_sh = &o.sh;
      for (uint64_t i = first + w; i < first + plans; i += workers) {
        if (wall() - t0 > seconds || i > *minv)
          break;
        Case c = make_case(prop, seed, i);
        bool twice = (i / workers) % 16 == 0;
        uint64_t h1 = 0;
        for (int rep = 0; rep < (twice ? 2 : 1); rep++) {
          if (!run_case_child(c, true)) {
            o.error = 1;
            snprintf(o.error_text, sizeof o.error_text, "plan %llu: the child process died without a result",
                     (unsigned long long)i);
            break;
          }
          if (g_sh->violated)
            break;
          if (rep == 0)
            h1 = g_sh->plan_hash;
          else {
            o.det_checked++;
            if (h1 != g_sh->plan_hash) {
              o.error = 1;
              snprintf(o.error_text, sizeof o.error_text, "plan %llu is not deterministic", (unsigned long long)i);
            }
          }
        }
        if (o.error)
          break;
        o.plans++;
        for (int k = 0; k < g_sh->nhashes && o.nh < HMAX; k++)
          hs[HMAX * w + o.nh++] = g_sh->hashes[k];
        if (g_sh->violated) {
          if (!strcmp(g_sh->cls, "HARNESS")) {
            o.error = 1;
            snprintf(o.error_text, sizeof o.error_text, "plan %llu: %s\n%s", (unsigned long long)i, g_sh->msg, g_sh->stack);
            break;
          }
          int k = known_index(g_sh->sig);
          if (k >= 0) {
            o.known_hits[k]++;
            continue;
          }
          o.found = 1;
          o.found_index = i;
          uint64_t m;
          while (i < (m = *minv) && !__sync_bool_compare_and_swap((uint64_t *)minv, m, i))
            ;
          break;
        }
      }
      o.busy = wall() - t0;
      _exit(0);
    }
    pids.push_back(pid);
  }
  for (pid_t p : pids) {
    int st;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) {
      fprintf(stderr, "a worker died\n");
      return 2;
    }
  }
  double search = wall() - t0;
  Shared tot;
  memset(&tot, 0, sizeof tot);
  uint64_t nplans = 0, det = 0, best = ~0ull, known_total[64] = {0};
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> probes;
  int err = 0;
  std::set<uint64_t> candidates;
  for (int w = 0; w < workers; w++) {
    WorkerOut &o = wo[w];
    nplans += o.plans;
    det += o.det_checked;
    tot.runs += o.sh.runs;
    tot.steps += o.sh.steps;
    tot.switches += o.sh.switches;
    tot.allocs += o.sh.allocs;
    tot.frees += o.sh.frees;
    tot.atomics += o.sh.atomics;
    tot.ops += o.sh.ops;
    tot.ops_failed += o.sh.ops_failed;
    tot.preempt_in_op += o.sh.preempt_in_op;
    tot.leaks_rechecked += o.sh.leaks_rechecked;
    for (int i = 0; i < FK_NKINDS; i++)
      tot.fired[i] += o.sh.fired[i];
    for (int i = 0; i < 8; i++)
      tot.by_mode[i] += o.sh.by_mode[i];
    for (ProbeC &p : o.sh.probes)
      if (p.name)
        probes[p.name] += p.n;
    for (size_t i = 0; i < o.nh; i++)
      distinct.insert(hs[HMAX * w + i]);
    for (int i = 0; i < 64; i++)
      known_total[i] += o.known_hits[i];
    if (o.error) {
      fprintf(stderr, "error: %s\n", o.error_text);
      err = 1;
    }
    if (o.found)
      candidates.insert(o.found_index);
  }
  int rc = 0;
  std::string vtext;
  for (uint64_t cand : candidates) {
    if (rc)
      break;
    best = cand;
    // confirm, minimise, write the replay file
    g_sh = new_shared();
    Case c = make_case(prop, seed, best);
    std::string sig, cls, msg, stack;
    uint64_t h[2] = {0, 0};
    bool bad = false;
    for (int k = 0; k < 2; k++) {
      if (!run_case_child(c, true) || !g_sh->violated) {
        fprintf(stderr, "error: the violation of plan %llu did not reproduce\n", (unsigned long long)best);
        bad = true;
        break;
      }
      h[k] = g_sh->vhash;
      sig = g_sh->sig;
    }
    if (!bad && h[0] != h[1]) {
      fprintf(stderr, "error: the violation of plan %llu is not deterministic\n", (unsigned long long)best);
      bad = true;
    }
    if (bad) {
      err = 1;
      continue;
    }
    c.passes.clear();
    parse_passes(g_sh->passes, c.passes);
    size_t ops0 = c.plan.ops.size(), f0 = c.passes.back().faults.size();
    cls = g_sh->cls;
    printf("plan %llu (%s): %s\n", (unsigned long long)best, c.variant.c_str(), g_sh->msg);
    fflush(stdout);
    if (!reproduces(c, sig)) {
      fprintf(stderr, "error: the recorded passes of plan %llu do not reproduce (%s; wanted %s)\n", (unsigned long long)best,
              g_sh->sig, sig.c_str());
      err = 1;
      continue;
    }
    minimise(c, sig, getenv("SIM_MIN_SECONDS") ? atof(getenv("SIM_MIN_SECONDS")) : 25);
    uint64_t h1 = 0, h2 = 1;
    if (!reproduces(c, sig, nullptr, &h1) || !reproduces(c, sig, nullptr, &h2) || h1 != h2) {
      fprintf(stderr, "error: the minimised case does not reproduce\n");
      err = 1;
      continue;
    }
    size_t nops = 0;
    for (Op &o : c.plan.ops)
      nops += o.kind != OP_NONE;
    Scenario *s = find_variant(c.prop, c.variant)->make();
    std::string t = case_text(c);
    t += "# minimised from " + fmt("%zu operations and %zu faults to %zu operations and %zu faults, %zu scheduler switches\n",
                                    ops0, f0, nops, c.passes.back().faults.size(), c.passes.back().sw.size());
    for (size_t i = 0; i < c.plan.ops.size(); i++)
      if (c.plan.ops[i].kind != OP_NONE)
        t += fmt("# op %zu, thread %d: %s\n", i, c.plan.ops[i].fiber, s->show(c.plan, c.plan.ops[i]).c_str());
    t += "expect " + sig + "\n" + fmt("hash %016llx\n", (unsigned long long)h1);
    std::string m = g_sh->msg;
    for (size_t i = 0; i < m.size(); i++)
      if (m[i] == '\n')
        m.insert(i + 1, "# "), i += 2;
    t += "# " + m + "\n# stack:\n";
    std::string st = g_sh->stack, l;
    for (char ch : st) {
      l += ch;
      if (ch == '\n')
        t += "#" + l, l.clear();
    }
    FILE *f = fopen(replay.c_str(), "w");
    if (!f) {
      perror(replay.c_str());
      return 2;
    }
    fwrite(t.data(), 1, t.size(), f);
    fclose(f);
    fputs(t.c_str(), stdout);
    vtext = sig;
    rc = 1;
  }
  FILE *f = fopen(out.c_str(), "w");
  if (!f)
    return 2;
  fprintf(f, "{\"plans\": %llu, \"runs\": %llu, \"distinct\": %zu, \"steps\": %llu, \"switches\": %llu, \"preemptions_inside_operations\": %llu, "
             "\"operations\": %llu, \"operations_with_fired_fault\": %llu, \"allocations\": %llu, \"atomics\": %llu, "
             "\"determinism_rechecks\": %llu, \"leak_rechecks\": %llu, \"search_seconds\": %.3f, \"first_plan\": %llu, \"workers\": %d,\n",
          (unsigned long long)nplans, (unsigned long long)tot.runs, distinct.size(), (unsigned long long)tot.steps,
          (unsigned long long)tot.switches, (unsigned long long)tot.preempt_in_op, (unsigned long long)tot.ops,
          (unsigned long long)tot.ops_failed, (unsigned long long)tot.allocs, (unsigned long long)tot.atomics,
          (unsigned long long)det, (unsigned long long)tot.leaks_rechecked, search, (unsigned long long)first, workers);
  fprintf(f, " \"faults\": {");
  bool fst = true;
  for (int i = 0; i < FK_NKINDS; i++)
    fprintf(f, "%s\"%s\": %llu", fst ? "" : ", ", fault_names[i], (unsigned long long)tot.fired[i]), fst = false;
  static const char *const mn[] = {"sequential", "random_quantum", "pct", "atomics_only", "operation_boundary", "explicit"};
  fprintf(f, "},\n \"runs_by_scheduler\": {");
  for (int i = 0; i < 6; i++)
    fprintf(f, "%s\"%s\": %llu", i ? ", " : "", mn[i], (unsigned long long)tot.by_mode[i]);
  fprintf(f, "},\n \"probes\": {");
  fst = true;
  for (auto &kv : probes)
    fprintf(f, "%s\"%s\": %llu", fst ? "" : ", ", json_escape(kv.first).c_str(), (unsigned long long)kv.second), fst = false;
  fprintf(f, "},\n \"known\": [");
  for (size_t i = 0; i < g_known.size(); i++)
    fprintf(f, "%s%llu", i ? ", " : "", (unsigned long long)known_total[i]);
  fprintf(f, "],\n \"samples\": [");
  for (int k = 0; k < 2; k++) {
    Case c = make_case(prop, seed, first + k);
    Scenario *s = find_variant(c.prop, c.variant)->make();
    std::string t = c.variant + fmt(" seed=%llu threads=%d:", (unsigned long long)c.plan.seed, c.plan.nf);
    for (size_t i = 0; i < c.plan.ops.size() && i < 12; i++)
      t += fmt(" [T%d] ", c.plan.ops[i].fiber) + s->show(c.plan, c.plan.ops[i]) + ";";
    fprintf(f, "%s\"%s\"", k ? ", " : "", json_escape(t).c_str());
  }
  fprintf(f, "],\n \"violation\": \"%s\"}\n", json_escape(vtext).c_str());
  fclose(f);
  if (err && rc == 0)
    return 2;
  return rc;
}

static int cmd_replay(const char *file, bool trace) {
  FILE *f = fopen(file, "r");
  if (!f) {
    perror(file);
    return 2;
  }
  std::string t;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0)
    t.append(b, n);
  fclose(f);
  Case c;
  if (!parse_case(t.c_str(), c) || !find_variant(c.prop, c.variant)) {
    fprintf(stderr, "cannot read the replay file\n");
    return 2;
  }
  std::string expect, hash;
  size_t p = t.find("\nexpect ");
  if (p != std::string::npos)
    expect = t.substr(p + 8, t.find('\n', p + 8) - p - 8);
  p = t.find("\nhash ");
  if (p != std::string::npos)
    hash = t.substr(p + 6, 16);
  g_sh = new_shared();
  g_trace_alloc = trace;
  g_verbose = trace;
  if (!run_case_child(c, false)) {
    fprintf(stderr, "no result\n");
    return 2;
  }
  if (!g_sh->violated) {
    printf("replay: no violation\n");
    return 0;
  }
  std::string h = fmt("%016llx", (unsigned long long)g_sh->vhash);
  printf("replay: %s\n%s\n%shash %s\n", g_sh->sig, g_sh->msg, g_sh->stack, h.c_str());
  if (!expect.empty() && (expect != g_sh->sig || h != hash)) {
    printf("replay: differs from the recorded violation (%s %s)\n", expect.c_str(), hash.c_str());
    return 3;
  }
  printf("replay: reproduced exactly\n");
  return 1;
}
static int cmd_one(const char *prop, uint64_t seed, uint64_t index, bool trace) {
  g_sh = new_shared();
  Case c = make_case(prop, seed, index);
  g_trace_alloc = trace;
  g_verbose = trace;
  if (!run_case_child(c, true)) {
    fprintf(stderr, "no result\n");
    return 2;
  }
  if (g_sh->violated) {
    printf("%s\n%s\n%s%s", g_sh->sig, g_sh->msg, g_sh->stack, g_sh->passes);
    return 1;
  }
  printf("ok: %llu runs %llu steps hash %016llx\n", (unsigned long long)g_sh->runs, (unsigned long long)g_sh->steps,
         (unsigned long long)g_sh->plan_hash);
  return 0;
}
} // namespace sim

int main(int argc, char **argv) {
  rt::set_mode(rt::M_HOST);
  rt::g_sink = sim::sink;
  rt::init();
  std::string cmd = argc > 1 ? argv[1] : "";
  fflush(stdout);
  int rc = 2;
  if (cmd == "run")
    rc = sim::cmd_run(argc, argv);
  else if (cmd == "replay" && argc > 2)
    rc = sim::cmd_replay(argv[2], argc > 3);
  else if (cmd == "one" && argc > 4)
    rc = sim::cmd_one(argv[2], strtoull(argv[3], nullptr, 10), strtoull(argv[4], nullptr, 10), argc > 5);
  else
    fprintf(stderr, "usage: simdynd run|replay|one ...\n");
  fflush(stdout);
  fflush(stderr);
  _exit(rc);
}
