// The simulation runtime.  Compiled WITHOUT instrumentation, linked after all instrumented objects.
#include "rt.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <elf.h>
#include <exception>
#include <fcntl.h>
#include <mutex>
#include <new>
#include <pthread.h>
#include <random>
#include <signal.h>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <unwind.h>

extern "C" {
void *__real_malloc(size_t);
void __real_free(void *);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
int __real_posix_memalign(void **, size_t, size_t);
void *__real_aligned_alloc(size_t, size_t);
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
size_t __real_strlen(const char *);
int __real_open(const char *, int, ...);
int __real_fstat(int, struct stat *);
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
int __real_close(int);
long __real_sysconf(int);
int __real___cxa_thread_atexit(void (*)(void *), void *, void *);
extern char __libc_single_threaded;
extern char __data_start, _end;
extern const char __ehdr_start;
}

// Linked right after the instrumented objects: everything in the TLS segment before these two belongs to
// the code under test and is swapped at every fiber switch.
__thread int rt_tdata_marker __attribute__((tls_model("local-exec"))) = 1;
__thread int rt_tbss_marker __attribute__((tls_model("local-exec")));

namespace rt {

const char *const fault_names[FK_NKINDS] = {"alloc_fail",    "alloc_exhausted", "callback_throw",
                                            "stream_fail",   "entropy_fail",    "thread_stall",
                                            "input_truncated", "input_corrupted", "heap_exhausted",
                                            "syscall_fail"};
violation_sink g_sink = nullptr;
bool g_trace_alloc = false;
uint64_t (*entropy_hook)() = nullptr;
System *system_hook = nullptr;

// ---- layout --------------------------------------------------------------------------------
static const uintptr_t HEAP = 0x10000000000ull;
static const size_t HEAP_SIZE = 256u << 20;
static const uintptr_t SHADOW = 0x11000000000ull; // one byte per 8
static const uintptr_t CELLS = 0x12000000000ull;  // one 64-byte cell per 8 bytes
static const uintptr_t GCELLS = 0x13000000000ull; // the same for .data/.bss
static const uintptr_t STACKS = 0x14000000000ull;
static const size_t STACK_SIZE = 4u << 20;
static const uintptr_t BLOCKS = 0x15000000000ull;
static const size_t MAX_BLOCKS = 1u << 20;
static const size_t MAX_RUN_HEAP = 192u << 20;

enum : uint8_t { SH_NONE = 0, SH_OK = 8, SH_FREED = 0xfd, SH_RED = 0xfa }; // 1..8: that many bytes addressable

struct Cell {
  uint32_t c[4][4]; // [fiber-1][kind]: clk << 8 | byte mask;  kinds: read, write, atomic read, atomic write
};
enum { K_R = 0, K_W = 1, K_AR = 2, K_AW = 3 };

enum : uint8_t { KIND_MALLOC = 1, KIND_NEW, KIND_NEWA, KIND_MMAP };
struct Block {
  uintptr_t addr;
  size_t size;
  uint32_t trace_alloc, trace_free; // index into trace table, or 0
  int16_t op, free_op;
  uint8_t live, kind, fiber, free_fiber;
  uint32_t pad;
};
struct Hdr {
  uint64_t magic;
  uint64_t idx;
};
static const uint64_t HMAGIC = 0xb10cb10c5afe5afeull;

// ---- state (all constant-initialised: used before any constructor runs) ---------------------
enum : uint8_t { ST_NONE = 0, ST_READY, ST_BLOCKED, ST_DONE };
struct Dtor {
  void (*fn)(void *);
  void *obj;
};
struct Fiber {
  void *sp;
  uint32_t mode;
  uint8_t state, id;
  uint64_t steps;       // tracked accesses
  uint64_t next_switch; // preempt when steps reaches this
  uint64_t stall_at, stall_until;
  uint64_t prio;
  const void *wait;
  uint32_t vc[MAXF], acq[MAXF], rel[MAXF]; // vector clock, pending acquires, last release fence
  bool has_rel, has_acq;
  // current operation
  int op;
  uint64_t op_steps0, op_allocs, op_callbacks, op_fired, op_stream, op_sys;
  bool op_faults;
  const Fault *op_alloc, *op_cb, *op_entropy, *op_syscall;
  bool sticky;
  // livelock avoidance
  uintptr_t spin_addr;
  uint32_t spin_n;
  // thread-local state
  void *eh[2];
  void *once_callable;
  void *once_call;
  Dtor dtors[64];
  int ndtors;
  size_t exp_i; // explicit schedule position
  char *tls;
  uint32_t opclk[512][2]; // (clk, op) pairs
  int nopclk;
};
static Fiber g_fibers[MAXF];
static Fiber *g_cur = &g_fibers[0];
static bool g_mapped, g_inited, g_par, g_in_run, g_dead;
static int g_nf;
static uintptr_t g_bump, g_run_base;
static size_t g_nblocks, g_run_block0, g_live_blocks, g_live_bytes;
static uint64_t g_steps, g_max_steps, g_switches, g_allocs, g_frees, g_atomics, g_preempt_in_op;
static uint64_t g_fired[FK_NKINDS];
static uint64_t g_event_hash, g_sched_hash;
static uint64_t g_rng;
static RunConfig g_cfg;
static fiber_fn g_fn;
static void *g_arg;
static uintptr_t g_dlo, g_dhi; // tracked static storage
static uint64_t *g_changes;    // PCT change points
static size_t g_nchanges, g_next_change;
static uint64_t g_low_prio;
static Switch *g_rec;
static size_t g_nrec, g_caprec;
static Cell **g_touched;
static size_t g_ntouched, g_captouched;
static char *g_tls_start;
static size_t g_tls_n1, g_tls_off2, g_tls_n2, g_tls_total;
static const char *g_tls_init;
static size_t g_tls_filesz;
static uint64_t g_entropy;
// owner: -1 free, >=0 exclusive owner
struct MState {
  const void *a;
  int owner, depth, readers;
};
static MState g_mut[256];
static int g_nmut;

struct Trace {
  uintptr_t pc[12];
  int n;
};
static Trace *g_traces;
static size_t g_ntraces;
static const size_t MAX_TRACES = 1 << 16;

static inline Block *blocks() { return (Block *)BLOCKS; }
static inline uint64_t mixh(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}
static inline uint64_t rnd() {
  uint64_t z = (g_rng += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

static void map_fixed(uintptr_t a, size_t n) {
  void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE,
                 -1, 0);
  if (p != (void *)a) {
    const char m[] = "simdynd: cannot map the simulated memory\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(2);
  }
  madvise(p, n, MADV_NOHUGEPAGE);
}
static void ensure_mapped() {
  if (g_mapped)
    return;
  g_mapped = true;
  map_fixed(HEAP, HEAP_SIZE);
  map_fixed(SHADOW, HEAP_SIZE / 8);
  map_fixed(CELLS, HEAP_SIZE * 8);
  map_fixed(BLOCKS, MAX_BLOCKS * sizeof(Block));
  g_bump = HEAP + 4096;
  g_nblocks = 1;
}

// ---- call stacks and symbols ----------------------------------------------------------------
struct BtState {
  uintptr_t *pc;
  int n, max, skip;
};
static _Unwind_Reason_Code bt_cb(_Unwind_Context *c, void *p) {
  BtState *s = (BtState *)p;
  uintptr_t pc = _Unwind_GetIP(c);
  if (!pc)
    return _URC_END_OF_STACK;
  if (s->skip > 0) {
    s->skip--;
    return _URC_NO_REASON;
  }
  if (s->n >= s->max)
    return _URC_END_OF_STACK;
  s->pc[s->n++] = pc;
  return _URC_NO_REASON;
}
namespace {
struct HostScope { // the unwinder may allocate
  uint32_t m;
  HostScope() : m(g_cur->mode) { g_cur->mode = 0; }
  ~HostScope() { g_cur->mode = m; }
};
}
static int backtrace_here(uintptr_t *pc, int max, int skip) {
  BtState s = {pc, 0, max, skip};
  _Unwind_Backtrace(bt_cb, &s);
  return s.n;
}
struct Sym {
  uintptr_t a;
  uint32_t name;
  uint32_t size;
};
static Sym *g_syms;
static size_t g_nsyms;
static const char *g_strtab;
static void load_syms() {
  if (g_syms)
    return;
  int fd = open("/proc/self/exe", O_RDONLY);
  if (fd < 0)
    return;
  struct stat st;
  fstat(fd, &st);
  char *m = (char *)mmap(nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
  close(fd);
  if (m == MAP_FAILED)
    return;
  Elf64_Ehdr *eh = (Elf64_Ehdr *)m;
  Elf64_Shdr *sh = (Elf64_Shdr *)(m + eh->e_shoff);
  for (int i = 0; i < eh->e_shnum; i++)
    if (sh[i].sh_type == SHT_SYMTAB) {
      Elf64_Sym *sy = (Elf64_Sym *)(m + sh[i].sh_offset);
      size_t n = sh[i].sh_size / sizeof(Elf64_Sym);
      g_strtab = m + sh[sh[i].sh_link].sh_offset;
      g_syms = (Sym *)__real_malloc(n * sizeof(Sym) + 1);
      for (size_t k = 0; k < n; k++) {
        int t = ELF64_ST_TYPE(sy[k].st_info);
        if ((t == STT_FUNC || t == STT_OBJECT) && sy[k].st_value) {
          g_syms[g_nsyms].a = sy[k].st_value;
          g_syms[g_nsyms].size = (uint32_t)sy[k].st_size;
          g_syms[g_nsyms++].name = sy[k].st_name;
        }
      }
      std::sort(g_syms, g_syms + g_nsyms, [](const Sym &x, const Sym &y) { return x.a < y.a; });
    }
}
const char *symbol_of(uintptr_t pc, char *buf, size_t n) {
  uint32_t old = set_mode(M_HOST);
  load_syms();
  snprintf(buf, n, "?");
  size_t lo = 0, hi = g_nsyms;
  while (lo < hi) {
    size_t mid = (lo + hi) / 2;
    if (g_syms[mid].a <= pc)
      lo = mid + 1;
    else
      hi = mid;
  }
  if (lo > 0 && pc < g_syms[lo - 1].a + std::max<uint32_t>(g_syms[lo - 1].size, 1)) {
    const char *s = g_strtab + g_syms[lo - 1].name;
    int st = 0;
    char *d = abi::__cxa_demangle(s, nullptr, nullptr, &st);
    snprintf(buf, n, "%s", (st == 0 && d) ? d : s);
    __real_free(d);
  }
  set_mode(old);
  return buf;
}

// ---- violations -------------------------------------------------------------------------------
[[noreturn]] static void report(const char *cls, const char *msg, const uintptr_t *pcs, int n) {
  g_dead = true;
  g_cur->mode = M_HOST;
  if (g_sink)
    g_sink(cls, msg, pcs, n);
  fprintf(stderr, "violation outside a run: %s: %s\n", cls, msg);
  char b[600];
  for (int i = 0; i < n; i++)
    fprintf(stderr, "  at %s\n", symbol_of(pcs[i], b, sizeof b));
  _exit(2);
}
[[noreturn]] void violation(const char *cls, const char *fmt, ...) {
  g_cur->mode = M_HOST;
  char msg[3000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(msg, sizeof msg, fmt, ap);
  va_end(ap);
  uintptr_t pcs[40];
  int n = backtrace_here(pcs, 40, 1);
  report(cls, msg, pcs, n);
}
[[noreturn]] void harness_error(const char *fmt, ...) {
  g_cur->mode = M_HOST;
  char msg[3000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(msg, sizeof msg, fmt, ap);
  va_end(ap);
  uintptr_t pcs[40];
  int n = backtrace_here(pcs, 40, 1);
  report("HARNESS", msg, pcs, n);
}
static void on_signal(int sig, siginfo_t *si, void *) {
  if (g_dead)
    _exit(3);
  uint32_t was = g_cur->mode;
  g_cur->mode = M_HOST;
  sigset_t s;
  sigemptyset(&s);
  sigprocmask(SIG_SETMASK, &s, nullptr);
  uintptr_t pcs[40];
  int n = backtrace_here(pcs, 40, 2);
  char msg[300];
  uintptr_t a = (uintptr_t)si->si_addr;
  const char *what = sig == SIGSEGV ? "segmentation fault" : sig == SIGABRT ? "abort" : sig == SIGFPE ? "arithmetic trap"
                     : sig == SIGBUS ? "bus error" : sig == SIGILL ? "illegal instruction" : "time limit";
  if (sig == SIGSEGV && a >= STACKS && a < STACKS + STACK_SIZE * (MAXF + 1))
    what = "stack overflow";
  char where[64] = "";
  if (sig == SIGSEGV)
    snprintf(where, sizeof where, " at address %s", a < 65536 ? "near NULL" : "wild");
  snprintf(msg, sizeof msg, "%s%s (fiber %d, op %d, mode %u)", what, where, g_cur->id, g_cur->op, was);
  report(sig == SIGPROF || sig == SIGALRM ? "no-progress" : "crash", msg, pcs, n);
}
static void on_terminate() {
  g_cur->mode = M_HOST;
  const char *t = "none";
  if (std::type_info *ti = abi::__cxa_current_exception_type())
    t = ti->name();
  violation("crash", "std::terminate with exception type %s (fiber %d, op %d)", t, g_cur->id, g_cur->op);
}

// ---- fibers: context switch -------------------------------------------------------------------
extern "C" void rt_swap(void **save_sp, void *load_sp);
extern "C" void rt_entry();
asm(R"(
.text
.globl rt_swap
.type rt_swap,@function
rt_swap:
.cfi_startproc
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.cfi_endproc
.size rt_swap,.-rt_swap
.globl rt_entry
.type rt_entry,@function
rt_entry:
.cfi_startproc
.cfi_undefined rip
  xorl %ebp, %ebp
  call rt_main
  ud2
.cfi_endproc
.size rt_entry,.-rt_entry
)");

struct EhGlobals {
  void *caught;
  unsigned int uncaught;
};
static void switch_context(Fiber *to) {
  Fiber *from = g_cur;
  if (to == from)
    return;
  EhGlobals *eg = (EhGlobals *)abi::__cxa_get_globals();
  from->eh[0] = eg->caught;
  from->eh[1] = (void *)(uintptr_t)eg->uncaught;
  eg->caught = to->eh[0];
  eg->uncaught = (unsigned)(uintptr_t)to->eh[1];
  from->once_callable = std::__once_callable;
  from->once_call = (void *)std::__once_call;
  std::__once_callable = to->once_callable;
  std::__once_call = (void (*)())to->once_call;
  if (g_tls_total) {
    __real_memcpy(from->tls, g_tls_start, g_tls_n1);
    __real_memcpy(from->tls + g_tls_n1, g_tls_start + g_tls_off2, g_tls_n2);
    __real_memcpy(g_tls_start, to->tls, g_tls_n1);
    __real_memcpy(g_tls_start + g_tls_off2, to->tls + g_tls_n1, g_tls_n2);
  }
  g_cur = to;
  rt_swap(&from->sp, to->sp);
}

// ---- scheduling ---------------------------------------------------------------------------------
static void recompute_next(Fiber *f);

static void record_switch(int from, int to, uint64_t step) {
  if (g_nrec == g_caprec) {
    g_caprec = g_caprec ? g_caprec * 2 : 1024;
    g_rec = (Switch *)__real_realloc(g_rec, g_caprec * sizeof(Switch));
  }
  g_rec[g_nrec++] = Switch{(uint8_t)from, (uint8_t)to, step};
  g_sched_hash = mixh(g_sched_hash, ((uint64_t)from << 56) ^ ((uint64_t)to << 48) ^ step);
  g_event_hash = mixh(g_event_hash, g_sched_hash);
  g_switches++;
}
static bool runnable(Fiber *f) { return f->state == ST_READY && (f->stall_until == 0 || f->stall_until <= g_steps); }
// choose who runs when the current fiber cannot (or must not) go on; -1 = nobody
static Fiber *pick_other(bool allow_self, uint64_t at = ~0ull) {
  Fiber *c[MAXF];
  int n = 0;
  for (int i = 1; i <= g_nf; i++)
    if (runnable(&g_fibers[i]) && (allow_self || &g_fibers[i] != g_cur))
      c[n++] = &g_fibers[i];
  if (!n) {
    // only stalled threads are left: time passes
    Fiber *best = nullptr;
    for (int i = 1; i <= g_nf; i++) {
      Fiber *f = &g_fibers[i];
      if (f->state == ST_READY && (allow_self || f != g_cur) && (!best || f->stall_until < best->stall_until))
        best = f;
    }
    if (best)
      best->stall_until = 0;
    return best;
  }
  switch (g_cfg.sched.mode) {
  case SM_PCT: {
    Fiber *b = c[0];
    for (int i = 1; i < n; i++)
      if (c[i]->prio > b->prio)
        b = c[i];
    return b;
  }
  case SM_SEQ:
    return (g_cfg.sched.order & 1) ? c[n - 1] : c[0];
  case SM_EXPLICIT: {
    // follow the recorded choice if it is there
    Fiber *f = g_cur;
    if (f->id) {
      for (size_t i = f->exp_i; i < g_cfg.sched.explicit_n; i++) {
        const Switch &s = g_cfg.sched.explicit_list[i];
        if (s.from != f->id || s.step < at)
          continue;
        if (s.step > at)
          break;
        f->exp_i = i + 1;
        for (int k = 0; k < n; k++)
          if (c[k]->id == s.to)
            return c[k];
        break;
      }
    } else {
      for (size_t k = 0; k < g_cfg.sched.explicit_n; k++)
        if (g_cfg.sched.explicit_list[k].from == 0)
          for (int i = 0; i < n; i++)
            if (c[i]->id == g_cfg.sched.explicit_list[k].to)
              return c[i];
    }
    return c[0];
  }
  default:
    return c[rnd() % n];
  }
}
static void go(Fiber *to, uint64_t step) {
  if (to == g_cur)
    return;
  record_switch(g_cur->id, to->id, step);
  g_cur->spin_n = 0;
  recompute_next(to);
  switch_context(to);
}
static uint64_t geometric(uint64_t mean) {
  if (mean <= 1)
    return 1;
  // cheap: uniform over [1, 2*mean)
  return 1 + rnd() % (2 * mean - 1);
}
static void recompute_next(Fiber *f) {
  uint64_t n = ~0ull;
  switch (g_cfg.sched.mode) {
  case SM_RANDOM:
    n = f->steps + geometric(g_cfg.sched.quantum);
    break;
  case SM_PCT:
    if (g_next_change < g_nchanges) {
      uint64_t g = g_changes[g_next_change];
      n = f->steps + (g > g_steps ? g - g_steps : 1);
    }
    break;
  case SM_EXPLICIT: {
    size_t i = f->exp_i;
    while (i < g_cfg.sched.explicit_n) {
      const Switch &s = g_cfg.sched.explicit_list[i];
      if (s.from == f->id) {
        if (s.step == ~0ull)
          break;
        if (s.step > f->steps) {
          n = s.step;
          break;
        }
        // already past: due at once
        n = f->steps + 1;
        break;
      }
      i++;
    }
    f->exp_i = i;
    break;
  }
  default:
    break;
  }
  if (f->stall_at > f->steps && f->stall_at < n)
    n = f->stall_at;
  f->next_switch = n;
}
// fairness: the current fiber spins.  The caller performs one step() right after this.
static void forced_switch() {
  Fiber *f = g_cur;
  if (g_cfg.sched.mode == SM_EXPLICIT && f->next_switch == f->steps + 1)
    return; // the recorded schedule does it
  if (g_cfg.sched.mode == SM_PCT)
    f->prio = --g_low_prio;
  Fiber *to = pick_other(false, f->steps + 1);
  if (to)
    go(to, f->steps + 1);
}
static __attribute__((noinline)) void preempt() {
  Fiber *f = g_cur;
  if (f->stall_at && f->steps >= f->stall_at && f->stall_until == 0 && f->op_faults) {
    f->stall_at = 0;
    f->stall_until = g_steps + 1000000;
    f->op_fired |= 1u << FK_STALL;
    g_fired[FK_STALL]++;
    Fiber *to = pick_other(false, f->steps);
    if (to) {
      g_preempt_in_op++;
      go(to, f->steps);
      return;
    }
    f->stall_until = 0;
    recompute_next(f);
    return;
  }
  Fiber *to = nullptr;
  switch (g_cfg.sched.mode) {
  case SM_RANDOM:
    to = pick_other(false);
    break;
  case SM_PCT:
    if (g_next_change < g_nchanges && g_steps >= g_changes[g_next_change]) {
      g_next_change++;
      f->prio = --g_low_prio;
      to = pick_other(true);
    }
    break;
  case SM_EXPLICIT:
    if (f->exp_i < g_cfg.sched.explicit_n) {
      const Switch &s = g_cfg.sched.explicit_list[f->exp_i];
      if (s.from == f->id && s.step != ~0ull && s.step <= f->steps) {
        f->exp_i++;
        Fiber *t = &g_fibers[s.to];
        if (s.to >= 1 && s.to <= g_nf && t->state == ST_READY && t != f) {
          t->stall_until = 0;
          to = t;
        }
      }
    }
    break;
  default:
    break;
  }
  if (to && to != f) {
    g_preempt_in_op++;
    go(to, f->steps);
  } else
    recompute_next(f);
}
void op_boundary() {
  if (!g_par)
    return;
  Fiber *f = g_cur;
  g_steps++;
  f->steps++;
  uint64_t n = f->steps;
  switch (g_cfg.sched.mode) {
  case SM_OPS:
  case SM_ATOMIC:
  case SM_RANDOM: {
    if (g_cfg.sched.mode == SM_RANDOM && rnd() % 3)
      return;
    Fiber *to = pick_other(true);
    if (to && to != f)
      go(to, n);
    break;
  }
  default:
    if (f->steps >= f->next_switch)
      preempt();
  }
}

static void step_limit() {
  g_cur->mode = M_HOST;
  violation("no-progress", "the run exceeded its limit of %llu steps (fiber %d, op %d)", (unsigned long long)g_max_steps,
            g_cur->id, g_cur->op);
}
static inline void step(Fiber *f) {
  if (__builtin_expect(++g_steps > g_max_steps, 0))
    step_limit();
  ++f->steps;
  if (__builtin_expect(f->steps >= f->next_switch, 0))
    if (g_par && (f->mode & M_PREEMPT))
      preempt();
}

// block the current fiber until wake(addr)
static void block_on(const void *addr) {
  Fiber *f = g_cur;
  f->state = ST_BLOCKED;
  f->wait = addr;
  Fiber *to = g_par ? pick_other(false) : nullptr;
  if (!to)
    violation("deadlock", "fiber %d (op %d) waits and no other thread can run", f->id, f->op);
  go(to, ~0ull);
}
static void wake(const void *addr) {
  for (int i = 1; i <= g_nf; i++)
    if (g_fibers[i].state == ST_BLOCKED && g_fibers[i].wait == addr) {
      g_fibers[i].state = ST_READY;
      g_fibers[i].wait = nullptr;
    }
}

extern "C" void rt_main() {
  Fiber *f = g_cur;
  g_fn(f->id, g_arg);
  // thread exit: thread_local destructors
  uint32_t old = set_mode(M_SIM & ~M_FAULT);
  while (f->ndtors > 0) {
    Dtor d = f->dtors[--f->ndtors];
    d.fn(d.obj);
  }
  set_mode(old);
  f->state = ST_DONE;
  f->mode = M_HOST;
  Fiber *to = pick_other(false);
  if (!to) {
    for (int i = 1; i <= g_nf; i++)
      if (g_fibers[i].state == ST_BLOCKED)
        violation("deadlock", "thread %d waits for ever", i);
    record_switch(f->id, 0, ~0ull);
    switch_context(&g_fibers[0]);
  }
  go(to, ~0ull);
  __builtin_trap();
}

static void vc_join(uint32_t *a, const uint32_t *b) {
  for (int i = 0; i < MAXF; i++)
    if (b[i] > a[i])
      a[i] = b[i];
}
static inline void tick(Fiber *f) {
  if (++f->vc[f->id] >= (1u << 24) - 2)
    harness_error("logical clock overflow");
}

// ---- sync objects -----------------------------------------------------------------------------
struct SyncObj {
  uintptr_t addr;
  uint32_t vc[MAXF];
  int owner; // mutexes
  int count;
};
static SyncObj *g_sync;
static const size_t NSYNC = 1 << 18;
static uint32_t g_syncgen[NSYNC];
static uint32_t g_gen = 1;
static size_t g_nsync;
static SyncObj *sync_of(uintptr_t a) {
  if (!g_sync)
    g_sync = (SyncObj *)__real_calloc(NSYNC, sizeof(SyncObj));
  size_t h = (a * 0x9e3779b97f4a7c15ull) >> 44;
  for (;;) {
    h &= NSYNC - 1;
    if (g_syncgen[h] != g_gen) {
      g_syncgen[h] = g_gen;
      if (++g_nsync > NSYNC * 3 / 4)
        harness_error("too many synchronisation objects");
      SyncObj *s = &g_sync[h];
      s->addr = a;
      __real_memset(s->vc, 0, sizeof s->vc);
      s->owner = -1;
      s->count = 0;
      return s;
    }
    if (g_sync[h].addr == a)
      return &g_sync[h];
    h++;
  }
}
static void sync_acquire(const void *a) {
  if (g_par)
    vc_join(g_cur->vc, sync_of((uintptr_t)a)->vc);
}
static void sync_release(const void *a) {
  if (g_par) {
    vc_join(sync_of((uintptr_t)a)->vc, g_cur->vc);
    tick(g_cur);
  }
}

// ---- access checks --------------------------------------------------------------------------------
static int op_at(int fid, uint32_t clk) {
  Fiber *f = &g_fibers[fid];
  int op = -1;
  for (int i = 0; i < f->nopclk; i++)
    if (f->opclk[i][0] <= clk)
      op = (int)f->opclk[i][1];
  return op;
}
static Block *find_block(uintptr_t a) {
  // binary search over the bump-ordered table
  size_t lo = 1, hi = g_nblocks;
  while (lo < hi) {
    size_t mid = (lo + hi) / 2;
    if (blocks()[mid].addr <= a + 32)
      lo = mid + 1;
    else
      hi = mid;
  }
  return lo > 1 ? &blocks()[lo - 1] : nullptr;
}
static void trace_text(char *buf, size_t n, uint32_t t) {
  if (!t)
    return;
  size_t k = strlen(buf);
  char s[400];
  for (int i = 0; i < g_traces[t].n && k + 8 < n; i++) {
    symbol_of(g_traces[t].pc[i] - 1, s, sizeof s);
    s[160] = 0;
    k += snprintf(buf + k, n - k, "\n      %s", s);
    if (k >= n)
      k = n - 1;
  }
}
static void describe_addr(uintptr_t a, char *buf, size_t n) {
  if (a - HEAP < HEAP_SIZE) {
    Block *b = find_block(a);
    if (!b) {
      snprintf(buf, n, "outside every block");
      return;
    }
    snprintf(buf, n, "%ld bytes from the start of a %zu-byte block allocated by fiber %d op %d%s", (long)(a - b->addr),
             b->size, b->fiber, b->op, b->live ? "" : " and released");
    if (!b->live) {
      size_t k = strlen(buf);
      snprintf(buf + k, n - k, " by fiber %d op %d", b->free_fiber, b->free_op);
    }
    if (g_trace_alloc) {
      size_t k = strlen(buf);
      snprintf(buf + k, n - k, "\n    allocated at");
      trace_text(buf, n, b->trace_alloc);
      if (!b->live) {
        k = strlen(buf);
        snprintf(buf + k, n - k, "\n    released at");
        trace_text(buf, n, b->trace_free);
      }
    }
  } else {
    char s[400];
    snprintf(buf, n, "static object %s", symbol_of(a, s, sizeof s));
  }
}
static __attribute__((noinline, noreturn)) void bad_access(uintptr_t a, size_t n, bool w, uint8_t sh) {
  g_cur->mode = M_HOST;
  char d[2500];
  describe_addr(a, d, sizeof d);
  const char *cls = sh == SH_FREED ? "use-after-free" : "out-of-bounds";
  violation(cls, "%s of %zu bytes by fiber %d op %d: %s", w ? "write" : "read", n, g_cur->id, g_cur->op, d);
}
static inline void shadow_check(uintptr_t a, size_t n, bool w) {
  uintptr_t s = SHADOW + ((a - HEAP) >> 3);
  uintptr_t e = a + n;
  // leading partial granule
  for (;;) {
    uint8_t sh = *(uint8_t *)s;
    size_t off = a & 7;
    size_t take = std::min<size_t>(8 - off, e - a);
    if (__builtin_expect(sh != SH_OK, 0))
      if (sh > 8 || off + take > sh)
        bad_access(a, n, w, sh);
    a += take;
    if (a >= e)
      return;
    s++;
  }
}
static __attribute__((noinline, noreturn)) void report_race(uintptr_t a, size_t n, int kind, int other, int okind,
                                                            uint32_t oclk) {
  g_cur->mode = M_HOST;
  char d[2500];
  describe_addr(a, d, sizeof d);
  static const char *const kn[4] = {"read", "write", "atomic read", "atomic write"};
  violation("data-race", "%s of %zu bytes by fiber %d op %d is not ordered after the %s by fiber %d op %d: %s", kn[kind], n,
            g_cur->id, g_cur->op, kn[okind], other, op_at(other, oclk), d);
}
static inline Cell *cell_of(uintptr_t a) {
  if (a - HEAP < HEAP_SIZE)
    return (Cell *)(CELLS + ((a - HEAP) >> 3) * sizeof(Cell));
  return (Cell *)(GCELLS + ((a - (g_dlo & ~7ull)) >> 3) * sizeof(Cell));
}
static const uint8_t conflict[4] = {
    (1 << K_W) | (1 << K_AW),                              // plain read
    (1 << K_R) | (1 << K_W) | (1 << K_AR) | (1 << K_AW),   // plain write
    (1 << K_W),                                            // atomic read
    (1 << K_R) | (1 << K_W)};                              // atomic write
static inline void race_granule(uintptr_t a, uint32_t mask, int kind, size_t n) {
  Fiber *f = g_cur;
  Cell *c = cell_of(a);
  int me = f->id - 1;
  uint8_t cf = conflict[kind];
  uint32_t any = 0;
  for (int i = 0; i < g_nf; i++) {
    uint32_t *k = c->c[i];
    any |= k[0] | k[1] | k[2] | k[3];
    if (i == me)
      continue;
    uint32_t seen = f->vc[i + 1];
    for (int j = 0; j < 4; j++)
      if ((cf >> j) & 1)
        if ((k[j] & mask) && (k[j] >> 8) > seen)
          report_race(a, n, kind, i + 1, j, k[j] >> 8);
  }
  if (!any) {
    if (g_ntouched == g_captouched) {
      g_captouched = g_captouched ? g_captouched * 2 : 65536;
      g_touched = (Cell **)__real_realloc(g_touched, g_captouched * sizeof(Cell *));
    }
    g_touched[g_ntouched++] = c;
  }
  uint32_t &e = c->c[me][kind];
  uint32_t clk = f->vc[f->id];
  if ((e >> 8) == clk)
    e |= mask;
  else
    e = clk << 8 | mask;
}
static void race_range(uintptr_t a, size_t n, int kind) {
  uintptr_t e = a + n;
  size_t total = n;
  while (a < e) {
    size_t off = a & 7, take = std::min<size_t>(8 - off, e - a);
    race_granule(a, ((1u << take) - 1) << off, kind, total);
    a += take;
  }
}
static inline bool tracked_global(uintptr_t a) { return a - g_dlo < g_dhi - g_dlo; }

static inline void access(uintptr_t a, size_t n, bool w) {
  Fiber *f = g_cur;
  if (!(f->mode & M_TRACK))
    return;
  if (a - HEAP < HEAP_SIZE) {
    step(f);
    if (!(f->mode & M_TRACK))
      return;
    shadow_check(a, n, w);
    if (g_par)
      race_range(a, n, w ? K_W : K_R);
  } else if (g_par && tracked_global(a)) {
    step(f);
    race_range(a, n, w ? K_W : K_R);
  }
}

bool in_sim_heap(const void *p) { return (uintptr_t)p - HEAP < HEAP_SIZE; }
bool addr_ok(const void *p, size_t n) {
  uintptr_t a = (uintptr_t)p;
  if (a - HEAP >= HEAP_SIZE)
    return true;
  for (size_t i = 0; i < n; i++) {
    uint8_t sh = *(uint8_t *)(SHADOW + ((a + i - HEAP) >> 3));
    if (sh > 8 || ((a + i) & 7) + 1 > sh)
      return false;
  }
  return true;
}

// ---- heap -----------------------------------------------------------------------------------------
static uint32_t take_trace(int skip) {
  HostScope hs;
  if (!g_traces)
    g_traces = (Trace *)__real_calloc(MAX_TRACES, sizeof(Trace));
  if (g_ntraces + 1 >= MAX_TRACES)
    return 0;
  Trace &t = g_traces[++g_ntraces];
  t.n = backtrace_here(t.pc, 12, skip);
  return (uint32_t)g_ntraces;
}
static const Fault *find_fault(int fiber, int op, uint8_t kind) {
  for (size_t i = 0; i < g_cfg.nfaults; i++)
    if (g_cfg.faults[i].fiber == fiber && g_cfg.faults[i].op == op && g_cfg.faults[i].kind == kind)
      return &g_cfg.faults[i];
  return nullptr;
}
static bool alloc_should_fail() {
  Fiber *f = g_cur;
  if (!(f->mode & M_FAULT) || f->op < 0)
    return false;
  f->op_allocs++;
  if (!f->op_faults)
    return false;
  if (f->sticky) {
    g_fired[FK_ALLOC_STICKY]++;
    return true;
  }
  const Fault *x = f->op_alloc;
  if (x && x->nth == f->op_allocs) {
    f->op_fired |= 1u << x->kind;
    g_fired[x->kind]++;
    g_event_hash = mixh(g_event_hash, 0xfa11 + f->op_allocs);
    if (x->kind == FK_ALLOC_STICKY)
      f->sticky = true;
    return true;
  }
  return false;
}
// Static initialisation (before any run) reuses memory; runs never do.
static uint32_t g_init_free[4096];
static void *init_reuse(size_t n, uint8_t kind) {
  size_t c = (n + 15) / 16;
  if (g_in_run || c >= 4096 || !g_init_free[c])
    return nullptr;
  uint32_t i = g_init_free[c];
  Block &b = blocks()[i];
  g_init_free[c] = b.pad;
  b.size = n;
  b.live = 1;
  b.kind = kind;
  uint8_t *sh = (uint8_t *)(SHADOW + ((b.addr - HEAP) >> 3));
  __real_memset(sh, SH_RED, c * 2);
  __real_memset(sh, SH_OK, n >> 3);
  if (n & 7)
    sh[n >> 3] = n & 7;
  __real_memset((void *)b.addr, 0xcd, n);
  return (void *)b.addr;
}
static void *sim_alloc_raw(size_t n, size_t align, uint8_t kind) {
  ensure_mapped();
  if (align < 16)
    align = 16;
  if (!g_in_run && align == 16)
    if (void *p = init_reuse(n, kind))
      return p;
  if (n > (64u << 20) || g_bump + n + align + 128 > HEAP + HEAP_SIZE || (g_in_run && g_bump + n - g_run_base > MAX_RUN_HEAP) ||
      g_nblocks + 1 >= MAX_BLOCKS) {
    g_cur->op_fired |= 1u << FK_NATURAL;
    g_fired[FK_NATURAL]++;
    return nullptr;
  }
  uintptr_t a = (g_bump + 32 + align - 1) & ~(uintptr_t)(align - 1);
  // [a-32, a) header/redzone; then data; then at least 16 bytes redzone
  uintptr_t end = (a + n + 7) & ~7ull;
  uintptr_t next = ((end + 16 + 15) & ~15ull) + (g_in_run ? g_cfg.heap.pad * 16u : 0);
  uint8_t *sh = (uint8_t *)(SHADOW + ((a - HEAP) >> 3));
  __real_memset((void *)(SHADOW + ((g_bump - HEAP) >> 3)), SH_RED, (next - g_bump) >> 3);
  size_t full = n >> 3;
  __real_memset(sh, SH_OK, full);
  if (n & 7)
    sh[full] = n & 7;
  Hdr *h = (Hdr *)(a - 16);
  h->magic = HMAGIC;
  h->idx = g_nblocks;
  Block &b = blocks()[g_nblocks++];
  b.addr = a;
  b.size = n;
  b.live = 1;
  b.kind = kind;
  b.fiber = g_cur->id;
  b.op = (int16_t)g_cur->op;
  b.trace_alloc = g_trace_alloc && g_in_run ? take_trace(3) : 0;
  b.trace_free = 0;
  __real_memset((void *)a, g_in_run ? g_cfg.heap.fill_new : 0xcd, n);
  g_bump = next;
  g_allocs++;
  g_live_blocks++;
  g_live_bytes += n;
  g_event_hash = mixh(g_event_hash, n * 8 + kind);
  return (void *)a;
}
static void *sim_alloc(size_t n, size_t align, uint8_t kind) {
  if (alloc_should_fail())
    return nullptr;
  return sim_alloc_raw(n, align, kind);
}
static Block *block_for_free(void *p, uint8_t kind) {
  uintptr_t a = (uintptr_t)p;
  Hdr *h = (Hdr *)(a - 16);
  Block *b = nullptr;
  if ((a & 15) == 0 && h->magic == HMAGIC && h->idx < g_nblocks && blocks()[h->idx].addr == a)
    b = &blocks()[h->idx];
  else {
    // header damaged or interior pointer: look it up
    Block *x = find_block(a);
    if (x && x->addr == a)
      b = x;
  }
  char d[2500];
  if (!b) {
    describe_addr(a, d, sizeof d);
    violation("bad-free", "fiber %d op %d releases a pointer that is not the start of a block: %s", g_cur->id, g_cur->op, d);
  }
  if (!b->live) {
    describe_addr(a, d, sizeof d);
    violation("double-free", "fiber %d op %d releases a block twice: %s", g_cur->id, g_cur->op, d);
  }
  if (b->kind != kind) {
    static const char *const kn[] = {"?", "malloc/free", "new/delete", "new[]/delete[]", "mmap/munmap"};
    describe_addr(a, d, sizeof d);
    violation("alloc-mismatch", "fiber %d op %d releases with %s a block obtained with %s: %s", g_cur->id, g_cur->op, kn[kind],
              kn[b->kind], d);
  }
  return b;
}
static void sim_free(void *p, uint8_t kind) {
  uint32_t m = g_cur->mode;
  if (g_par && (m & M_PREEMPT))
    step(g_cur);
  Block *b = block_for_free(p, kind);
  if (g_par && (m & M_TRACK))
    race_range(b->addr, std::min<size_t>(b->size, 1 << 16), K_W);
  b->live = 0;
  b->free_fiber = g_cur->id;
  b->free_op = (int16_t)g_cur->op;
  if (g_trace_alloc && g_in_run)
    b->trace_free = take_trace(3);
  __real_memset((void *)(SHADOW + ((b->addr - HEAP) >> 3)), SH_FREED, (b->size + 7) >> 3);
  __real_memset((void *)b->addr, g_in_run ? g_cfg.heap.fill_free : 0xdd, b->size);
  if (!g_in_run && (b->size + 15) / 16 < 4096 && g_run_base == 0) {
    size_t c = (b->size + 15) / 16;
    b->pad = g_init_free[c];
    g_init_free[c] = (uint32_t)(b - blocks());
  }
  g_frees++;
  g_live_blocks--;
  g_live_bytes -= b->size;
  g_event_hash = mixh(g_event_hash, b->size * 8 + 5);
}
static void sim_unmap(void *p, size_t n) {
  Block *b = block_for_free(p, KIND_MMAP);
  if (b->size != n)
    violation("bad-free", "fiber %d op %d unmaps %zu bytes of a mapping of %zu bytes", g_cur->id, g_cur->op, n, (size_t)b->size);
  sim_free(p, KIND_MMAP);
}
static inline bool sim_mode() { return (g_cur->mode & M_ALLOC) != 0; }
static inline bool is_sim(void *p) { return (uintptr_t)p - HEAP < HEAP_SIZE; }

static void *sim_realloc(void *p, size_t n) {
  if (!p)
    return sim_alloc(n, 16, KIND_MALLOC);
  Block *b = block_for_free(p, KIND_MALLOC);
  if (alloc_should_fail())
    return nullptr;
  if (n <= b->size && !g_cfg.heap.realloc_moves && g_in_run && n > 0) {
    // shrink in place
    if (g_par && (g_cur->mode & M_TRACK))
      race_range(b->addr + n, b->size - n, K_W);
    uint8_t *sh = (uint8_t *)(SHADOW + ((b->addr - HEAP) >> 3));
    __real_memset(sh, SH_RED, (b->size + 7) >> 3);
    __real_memset(sh, SH_OK, n >> 3);
    if (n & 7)
      sh[n >> 3] = n & 7;
    g_live_bytes -= b->size - n;
    b->size = n;
    return p;
  }
  void *q = sim_alloc_raw(n, 16, KIND_MALLOC);
  if (!q)
    return nullptr;
  if (g_par && (g_cur->mode & M_TRACK))
    race_range(b->addr, std::min(b->size, n), K_R);
  __real_memcpy(q, p, std::min(b->size, n));
  sim_free(p, KIND_MALLOC);
  return q;
}

// ---- operations -------------------------------------------------------------------------------------
uint32_t get_mode() { return g_cur->mode; }
uint32_t set_mode(uint32_t m) {
  uint32_t o = g_cur->mode;
  g_cur->mode = m;
  return o;
}
void op_begin(int op) {
  Fiber *f = g_cur;
  f->op = op;
  f->op_steps0 = f->steps;
  f->op_allocs = f->op_callbacks = f->op_fired = f->op_stream = f->op_sys = 0;
  f->op_faults = true;
  f->sticky = false;
  f->op_alloc = find_fault(f->id, op, FK_ALLOC);
  if (!f->op_alloc)
    f->op_alloc = find_fault(f->id, op, FK_ALLOC_STICKY);
  f->op_cb = find_fault(f->id, op, FK_CALLBACK);
  f->op_entropy = find_fault(f->id, op, FK_ENTROPY);
  f->op_syscall = find_fault(f->id, op, FK_SYSCALL);
  const Fault *st = find_fault(f->id, op, FK_STALL);
  f->stall_at = st ? f->steps + st->nth : 0;
  if (f->id && f->nopclk < 512) {
    f->opclk[f->nopclk][0] = f->vc[f->id];
    f->opclk[f->nopclk++][1] = op;
  }
  g_event_hash = mixh(g_event_hash, ((uint64_t)op << 8) + f->id);
  if (g_par)
    recompute_next(f);
}
OpStats op_peek() {
  Fiber *f = g_cur;
  return OpStats{f->op_allocs, f->op_callbacks, f->steps - f->op_steps0, f->op_fired, f->op_stream, f->op_sys};
}
OpStats op_end() {
  Fiber *f = g_cur;
  OpStats s = op_peek();
  g_event_hash = mixh(g_event_hash, f->op_fired + 77);
  f->op = -1;
  f->sticky = false;
  f->op_alloc = f->op_cb = f->op_entropy = f->op_syscall = nullptr;
  f->stall_at = 0;
  return s;
}
uint64_t op_fired_mask() { return g_cur->op_fired; }
uint32_t op_fault_arg(FaultKind k) {
  if (!g_cur->op_faults)
    return 0;
  const Fault *x = find_fault(g_cur->id, g_cur->op, k);
  return x ? x->nth : 0;
}
void op_note_fired(FaultKind k) {
  g_cur->op_fired |= 1u << k;
  g_fired[k]++;
}
void op_faults_off() {
  g_cur->op_faults = false;
  g_cur->sticky = false;
}
bool callback_point() {
  Fiber *f = g_cur;
  f->op_callbacks++;
  if (!f->op_faults || !f->op_cb)
    return false;
  if (f->op_cb->nth == f->op_callbacks) {
    f->op_fired |= 1u << FK_CALLBACK;
    g_fired[FK_CALLBACK]++;
    g_event_hash = mixh(g_event_hash, 0xcb + f->op_callbacks);
    return true;
  }
  return false;
}
void stream_bytes(uint64_t n) { g_cur->op_stream += n; }
int cur_fiber() { return g_cur->id; }
int cur_op() { return g_cur->op; }
uint64_t now() { return g_steps; }
void log_event(uint64_t v) { g_event_hash = mixh(g_event_hash, v); }
const Switch *recorded_switches(size_t *n) {
  *n = g_nrec;
  return g_rec;
}

// ---- run control ------------------------------------------------------------------------------------
static void tls_layout() {
  const Elf64_Ehdr *eh = (const Elf64_Ehdr *)&__ehdr_start;
  const Elf64_Phdr *ph = (const Elf64_Phdr *)((const char *)eh + eh->e_phoff);
  for (int i = 0; i < eh->e_phnum; i++)
    if (ph[i].p_type == PT_TLS) {
      char *tp = (char *)__builtin_thread_pointer();
      size_t al = ph[i].p_align ? ph[i].p_align : 1;
      g_tls_start = tp - ((ph[i].p_memsz + al - 1) & ~(al - 1));
      g_tls_init = (const char *)ph[i].p_vaddr;
      g_tls_filesz = ph[i].p_filesz;
      g_tls_n1 = (size_t)((char *)&rt_tdata_marker - g_tls_start);
      g_tls_off2 = g_tls_filesz;
      char *bs = g_tls_start + g_tls_filesz;
      g_tls_n2 = (char *)&rt_tbss_marker > bs ? (size_t)((char *)&rt_tbss_marker - bs) : 0;
      if (g_tls_n1 > g_tls_filesz || g_tls_n2 > 65536) {
        fprintf(stderr, "unexpected TLS layout\n");
        _exit(2);
      }
      g_tls_total = g_tls_n1 + g_tls_n2;
    }
}
void init() {
  ensure_mapped();
  __libc_single_threaded = 0;
  map_fixed(STACKS, STACK_SIZE * (MAXF + 1));
  for (int i = 0; i <= MAXF; i++)
    mprotect((void *)(STACKS + STACK_SIZE * i), 65536, PROT_NONE);
  g_dlo = (uintptr_t)&__data_start & ~7ull;
  g_dhi = (uintptr_t)&_end;
  map_fixed(GCELLS, ((g_dhi - g_dlo) / 8 + 2) * sizeof(Cell));
  tls_layout();
  for (int i = 0; i < MAXF; i++) {
    g_fibers[i].id = i;
    g_fibers[i].op = -1;
    g_fibers[i].next_switch = ~0ull;
    g_fibers[i].tls = (char *)__real_calloc(1, g_tls_total + 16);
  }
  g_max_steps = ~0ull;
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_size = 1 << 18;
  ss.ss_sp = __real_malloc(ss.ss_size);
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF, SIGALRM})
    sigaction(s, &sa, nullptr);
  std::set_terminate(on_terminate);
  g_inited = true;
  // the unwinder builds its tables at the first throw
  try {
    throw 1;
  } catch (int) {
  }
}
void adopt_live() {
  g_run_base = g_bump;
  g_run_block0 = g_nblocks;
}
void run_begin(const RunConfig &c) {
  g_cfg = c;
  if (!g_run_base)
    adopt_live();
  // drop what the previous run used
  if (g_bump > g_run_base) {
    __real_memset((void *)(SHADOW + ((g_run_base - HEAP) >> 3)), 0, ((g_bump - g_run_base) >> 3) + 8);
    g_bump = g_run_base;
  }
  g_nblocks = g_run_block0;
  g_ntraces = 0;
  for (size_t i = 0; i < g_ntouched; i++)
    *g_touched[i] = Cell();
  g_ntouched = 0;
  g_gen++;
  g_nmut = 0;
  g_nsync = 0;
  g_steps = g_switches = g_allocs = g_frees = g_atomics = g_preempt_in_op = 0;
  memset(g_fired, 0, sizeof g_fired);
  g_event_hash = g_sched_hash = 1469598103934665603ull;
  g_nrec = 0;
  g_rng = c.sched.seed;
  g_entropy = c.entropy_seed;
  g_max_steps = c.max_steps ? c.max_steps : ~0ull;
  g_live_blocks = g_live_bytes = 0;
  g_nf = 0;
  g_in_run = true;
  for (int i = 0; i < MAXF; i++) {
    Fiber &f = g_fibers[i];
    f.steps = 0;
    f.op = -1;
    f.stall_at = f.stall_until = 0;
    f.next_switch = ~0ull;
    f.op_fired = 0;
    f.op_allocs = f.op_callbacks = 0;
    f.sticky = false;
    f.op_faults = true;
    f.op_alloc = f.op_cb = f.op_entropy = f.op_syscall = nullptr;
    memset(f.vc, 0, sizeof f.vc);
    memset(f.acq, 0, sizeof f.acq);
    memset(f.rel, 0, sizeof f.rel);
    f.has_rel = f.has_acq = false;
    f.nopclk = 0;
    f.exp_i = 0;
    f.vc[i] = 1;
  }
}
void run_fibers(int n, fiber_fn fn, void *arg) {
  g_nf = n;
  g_fn = fn;
  g_arg = arg;
  uint32_t base[MAXF];
  memcpy(base, g_fibers[0].vc, sizeof base);
  for (int i = 1; i <= n; i++) {
    Fiber &f = g_fibers[i];
    f.state = ST_READY;
    f.mode = M_HOST;
    f.wait = nullptr;
    f.op = -1;
    f.eh[0] = f.eh[1] = nullptr;
    f.once_callable = f.once_call = nullptr;
    f.ndtors = 0;
    f.spin_n = 0;
    memset(f.vc, 0, sizeof f.vc);
    f.vc[i] = 1;
    __real_memcpy(f.tls, g_tls_init, g_tls_n1);
    __real_memset(f.tls + g_tls_n1, 0, g_tls_n2);
    uintptr_t top = STACKS + STACK_SIZE * (i + 1) - 64;
    void **sp = (void **)top;
    *--sp = nullptr;
    *--sp = nullptr;           // alignment / fake return address
    *--sp = (void *)rt_entry;  // rt_swap returns here
    for (int k = 0; k < 6; k++)
      *--sp = nullptr;
    f.sp = sp;
  }
  g_next_change = g_nchanges = 0;
  g_low_prio = 1u << 20;
  if (g_cfg.sched.mode == SM_PCT) {
    int perm[MAXF];
    for (int i = 1; i <= n; i++)
      perm[i] = i;
    for (int i = n; i > 1; i--)
      std::swap(perm[i], perm[1 + rnd() % i]);
    for (int i = 1; i <= n; i++)
      g_fibers[perm[i]].prio = (1u << 21) + i;
    size_t d = g_cfg.sched.pct_depth;
    g_changes = (uint64_t *)__real_realloc(g_changes, (d + 1) * sizeof(uint64_t));
    uint64_t tot = std::max<uint64_t>(g_cfg.sched.pct_total, 2);
    for (size_t i = 0; i < d; i++)
      g_changes[i] = g_steps + 1 + rnd() % tot;
    std::sort(g_changes, g_changes + d);
    g_nchanges = d;
  }
  g_par = true;
  uint32_t old = set_mode(M_HOST);
  Fiber *to = pick_other(false);
  go(to, ~0ull);
  g_par = false;
  set_mode(old);
}
RunStats run_end() {
  RunStats s;
  memset(&s, 0, sizeof s);
  s.steps = g_steps;
  s.switches = g_switches;
  s.allocs = g_allocs;
  s.frees = g_frees;
  s.atomics = g_atomics;
  memcpy(s.fired, g_fired, sizeof s.fired);
  s.event_hash = mixh(g_event_hash, g_steps);
  s.sched_hash = g_sched_hash;
  s.preempt_in_op = g_preempt_in_op;
  for (size_t i = g_run_block0; i < g_nblocks; i++)
    if (blocks()[i].live) {
      s.live_blocks++;
      s.live_bytes += blocks()[i].size;
    }
  g_in_run = false;
  return s;
}
int describe_live(char *buf, size_t n, uintptr_t *pcs, int maxpcs) {
  buf[0] = 0;
  int shown = 0, np = 0;
  for (size_t i = g_run_block0; i < g_nblocks; i++)
    if (blocks()[i].live) {
      Block &b = blocks()[i];
      size_t k = strlen(buf);
      if (shown < 6) {
        snprintf(buf + k, n - k, "%s%zu bytes allocated by fiber %d op %d", shown ? "; " : "", b.size, b.fiber, b.op);
        if (b.trace_alloc && shown < 3)
          trace_text(buf, n, b.trace_alloc);
      }
      if (!shown && b.trace_alloc)
        for (; np < maxpcs && np < g_traces[b.trace_alloc].n; np++)
          pcs[np] = g_traces[b.trace_alloc].pc[np];
      shown++;
    }
  return np;
}

void lock(SimLock &l) {
  Fiber *f = g_cur;
  while (g_par && l.owner != -1 && l.owner != f->id)
    block_on(&l);
  l.owner = f->id;
  vc_join(f->vc, l.vc);
}
void unlock(SimLock &l) {
  Fiber *f = g_cur;
  l.owner = -1;
  vc_join(l.vc, f->vc);
  if (g_par) {
    tick(f);
    wake(&l);
  }
}

// ---- atomics ----------------------------------------------------------------------------------------
static inline void atomic_pre(uintptr_t a, size_t n, int kind) {
  Fiber *f = g_cur;
  if (!(f->mode & M_TRACK))
    return;
  bool heap = a - HEAP < HEAP_SIZE;
  if (!heap && !(g_par && tracked_global(a)))
    return;
  g_atomics++;
  if (g_par) {
    if (f->spin_addr == a) {
      if (++f->spin_n > 200 && (f->mode & M_PREEMPT)) {
        f->spin_n = 0;
        forced_switch();
      }
    } else {
      f->spin_addr = a;
      f->spin_n = 0;
    }
    if (g_cfg.sched.mode == SM_ATOMIC && (f->mode & M_PREEMPT) && rnd() % 1000 < g_cfg.sched.atomic_prob) {
      Fiber *to = pick_other(false);
      if (to) {
        g_preempt_in_op++;
        go(to, f->steps + 1);
      }
    }
  }
  step(f);
  if (heap)
    shadow_check(a, n, kind == K_AW);
  if (g_par)
    race_range(a, n, kind);
}
static inline void atomic_sync(uintptr_t a, bool read, bool write, int mo) {
  Fiber *f = g_cur;
  if (!g_par || !(f->mode & M_TRACK))
    return;
  if (a - HEAP >= HEAP_SIZE && !tracked_global(a))
    return;
  SyncObj *s = sync_of(a);
  bool acq = mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
  bool rel = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
  if (read) {
    if (acq)
      vc_join(f->vc, s->vc);
    else {
      vc_join(f->acq, s->vc);
      f->has_acq = true;
    }
  }
  if (write) {
    if (rel) {
      if (read)
        vc_join(s->vc, f->vc);
      else
        memcpy(s->vc, f->vc, sizeof s->vc);
      tick(f);
    } else if (f->has_rel)
      vc_join(s->vc, f->rel);
  }
}
static inline void do_fence(int mo) {
  Fiber *f = g_cur;
  if (!g_par || !(f->mode & M_TRACK))
    return;
  if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME)
    if (f->has_acq)
      vc_join(f->vc, f->acq);
  if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) {
    memcpy(f->rel, f->vc, sizeof f->rel);
    f->has_rel = true;
    tick(f);
  }
}
} // namespace rt

using namespace rt;

// ---- the call-outs of -fsanitize=thread ---------------------------------------------------------------
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_read(void **p) { access((uintptr_t)p, 8, false); }
void __tsan_vptr_update(void **p, void *v) {
  if (*p == v)
    return;
  access((uintptr_t)p, 8, true);
}
#define RW(n)                                                                                                          \
  void __tsan_read##n(void *p) { access((uintptr_t)p, n, false); }                                                     \
  void __tsan_write##n(void *p) { access((uintptr_t)p, n, true); }                                                     \
  void __tsan_unaligned_read##n(void *p) { access((uintptr_t)p, n, false); }                                           \
  void __tsan_unaligned_write##n(void *p) { access((uintptr_t)p, n, true); }                                           \
  void __tsan_volatile_read##n(void *p) { access((uintptr_t)p, n, false); }                                            \
  void __tsan_volatile_write##n(void *p) { access((uintptr_t)p, n, true); }                                            \
  void __tsan_unaligned_volatile_read##n(void *p) { access((uintptr_t)p, n, false); }                                  \
  void __tsan_unaligned_volatile_write##n(void *p) { access((uintptr_t)p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) {
  if (n)
    access((uintptr_t)p, n, false);
}
void __tsan_write_range(void *p, size_t n) {
  if (n)
    access((uintptr_t)p, n, true);
}

#define ATOMIC(bits, T)                                                                                                \
  T __tsan_atomic##bits##_load(const volatile T *a, int mo) {                                                          \
    atomic_pre((uintptr_t)a, sizeof(T), K_AR);                                                                         \
    T v = *a;                                                                                                          \
    atomic_sync((uintptr_t)a, true, false, mo);                                                                        \
    return v;                                                                                                          \
  }                                                                                                                    \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) {                                                       \
    atomic_pre((uintptr_t)a, sizeof(T), K_AW);                                                                         \
    *a = v;                                                                                                            \
    atomic_sync((uintptr_t)a, false, true, mo);                                                                        \
  }                                                                                                                    \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) {                                                       \
    atomic_pre((uintptr_t)a, sizeof(T), K_AW);                                                                         \
    T o = *a;                                                                                                          \
    *a = v;                                                                                                            \
    atomic_sync((uintptr_t)a, true, true, mo);                                                                         \
    return o;                                                                                                          \
  }                                                                                                                    \
  ATOMIC_RMW(bits, T, add, o + v)                                                                                      \
  ATOMIC_RMW(bits, T, sub, o - v)                                                                                      \
  ATOMIC_RMW(bits, T, and, o & v)                                                                                      \
  ATOMIC_RMW(bits, T, or, o | v)                                                                                       \
  ATOMIC_RMW(bits, T, xor, o ^ v)                                                                                      \
  ATOMIC_RMW(bits, T, nand, ~(o & v))                                                                                  \
  ATOMIC_CAS(bits, T, strong)                                                                                          \
  ATOMIC_CAS(bits, T, weak)                                                                                            \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) {                             \
    atomic_pre((uintptr_t)a, sizeof(T), K_AW);                                                                         \
    T o = *a;                                                                                                          \
    if (o == c) {                                                                                                      \
      *a = v;                                                                                                          \
      atomic_sync((uintptr_t)a, true, true, mo);                                                                       \
    } else                                                                                                             \
      atomic_sync((uintptr_t)a, true, false, fmo);                                                                     \
    return o;                                                                                                          \
  }
#define ATOMIC_RMW(bits, T, name, expr)                                                                                \
  T __tsan_atomic##bits##_fetch_##name(volatile T *a, T v, int mo) {                                                   \
    atomic_pre((uintptr_t)a, sizeof(T), K_AW);                                                                         \
    T o = *a;                                                                                                          \
    *a = (T)(expr);                                                                                                    \
    atomic_sync((uintptr_t)a, true, true, mo);                                                                         \
    return o;                                                                                                          \
  }
#define ATOMIC_CAS(bits, T, kind)                                                                                      \
  int __tsan_atomic##bits##_compare_exchange_##kind(volatile T *a, T *c, T v, int mo, int fmo) {                       \
    atomic_pre((uintptr_t)a, sizeof(T), K_AW);                                                                         \
    T o = *a;                                                                                                          \
    if (o == *c) {                                                                                                     \
      *a = v;                                                                                                          \
      atomic_sync((uintptr_t)a, true, true, mo);                                                                       \
      return 1;                                                                                                        \
    }                                                                                                                  \
    *c = o;                                                                                                            \
    atomic_sync((uintptr_t)a, true, false, fmo);                                                                       \
    return 0;                                                                                                          \
  }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) { do_fence(mo); }
void __tsan_atomic_signal_fence(int) {}

// ---- allocation ---------------------------------------------------------------------------------------
void *__wrap_malloc(size_t n) { return sim_mode() ? sim_alloc(n, 16, KIND_MALLOC) : __real_malloc(n); }
void __wrap_free(void *p) {
  if (!p)
    return;
  if (is_sim(p))
    sim_free(p, KIND_MALLOC);
  else
    __real_free(p);
}
void *__wrap_calloc(size_t a, size_t b) {
  if (!sim_mode())
    return __real_calloc(a, b);
  size_t n;
  if (__builtin_mul_overflow(a, b, &n))
    return nullptr;
  void *p = sim_alloc(n, 16, KIND_MALLOC);
  if (p)
    __real_memset(p, 0, n);
  return p;
}
void *__wrap_realloc(void *p, size_t n) {
  if (p && !is_sim(p))
    return __real_realloc(p, n);
  if (!p && !sim_mode())
    return __real_realloc(p, n);
  return sim_realloc(p, n);
}
int __wrap_posix_memalign(void **out, size_t al, size_t n) {
  if (!sim_mode())
    return __real_posix_memalign(out, al, n);
  void *p = sim_alloc(n, al, KIND_MALLOC);
  if (!p)
    return ENOMEM;
  *out = p;
  return 0;
}
void *__wrap_aligned_alloc(size_t al, size_t n) {
  return sim_mode() ? sim_alloc(n, al, KIND_MALLOC) : __real_aligned_alloc(al, n);
}
void *__wrap_memalign(size_t al, size_t n) {
  return sim_mode() ? sim_alloc(n, al, KIND_MALLOC) : __real_aligned_alloc(al, n);
}
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  if (n && (g_cur->mode & M_TRACK)) {
    access((uintptr_t)s, n, false);
    access((uintptr_t)d, n, true);
  }
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
  if (n && (g_cur->mode & M_TRACK)) {
    access((uintptr_t)s, n, false);
    access((uintptr_t)d, n, true);
  }
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
  if (n && (g_cur->mode & M_TRACK))
    access((uintptr_t)d, n, true);
  return __real_memset(d, c, n);
}
int __wrap_memcmp(const void *a, const void *b, size_t n) {
  if (n && (g_cur->mode & M_TRACK)) {
    access((uintptr_t)a, n, false);
    access((uintptr_t)b, n, false);
  }
  return __real_memcmp(a, b, n);
}
void *__wrap_memchr(const void *s, int c, size_t n) {
  // reads one byte after the other up to the match
  const unsigned char *p = (const unsigned char *)s, *e = p;
  size_t k = 0;
  while (k < n && e[k] != (unsigned char)c && (!(g_cur->mode & M_TRACK) || k % 16 != 15 || (access((uintptr_t)p, k + 1, false), true)))
    k++;
  if (n && (g_cur->mode & M_TRACK))
    access((uintptr_t)p, k < n ? k + 1 : n, false);
  return k < n ? (void *)(p + k) : nullptr;
}
size_t __wrap_strlen(const char *s) {
  size_t n = __real_strlen(s);
  if (g_cur->mode & M_TRACK)
    access((uintptr_t)s, n + 1, false);
  return n;
}

// ---- one-time initialisation ---------------------------------------------------------------------------
int __wrap___cxa_guard_acquire(uint64_t *g) {
  volatile unsigned char *b = (volatile unsigned char *)g;
  Fiber *f = g_cur;
  if ((f->mode & M_TRACK) && g_par)
    step(f);
  while (!b[0] && b[1]) {
    if (!g_par || b[2] == f->id + 1)
      violation("recursive-init", "an initialiser of a static local re-enters itself (fiber %d op %d)", f->id, f->op);
    block_on(g);
  }
  if (b[0]) {
    sync_acquire(g);
    return 0;
  }
  b[1] = 1;
  b[2] = f->id + 1;
  sync_acquire(g);
  return 1;
}
void __wrap___cxa_guard_release(uint64_t *g) {
  volatile unsigned char *b = (volatile unsigned char *)g;
  sync_release(g);
  b[1] = b[2] = 0;
  b[0] = 1;
  wake(g);
}
void __wrap___cxa_guard_abort(uint64_t *g) {
  volatile unsigned char *b = (volatile unsigned char *)g;
  sync_release(g);
  b[1] = b[2] = 0;
  wake(g);
}
int __wrap___cxa_thread_atexit(void (*fn)(void *), void *obj, void *dso) {
  Fiber *f = g_cur;
  if (!f->id)
    return __real___cxa_thread_atexit(fn, obj, dso);
  if (f->ndtors >= 64)
    harness_error("too many thread_local destructors");
  f->dtors[f->ndtors++] = Dtor{fn, obj};
  return 0;
}
int __wrap_pthread_once(pthread_once_t *o, void (*fn)(void)) {
  SyncObj *s = g_par ? sync_of((uintptr_t)o) : nullptr;
  Fiber *f = g_cur;
  if ((f->mode & M_TRACK) && g_par)
    step(f);
  while (*o == 1) {
    if (!g_par)
      violation("deadlock", "recursive call_once");
    block_on(o);
  }
  if (*o == 2) {
    sync_acquire(o);
    return 0;
  }
  (void)s;
  *o = 1;
  try {
    fn();
  } catch (...) {
    sync_release(o);
    *o = 0;
    wake(o);
    throw;
  }
  sync_release(o);
  *o = 2;
  wake(o);
  return 0;
}

// ---- mutexes (std::mutex, std::recursive_mutex, std::shared_mutex, pthread) ------------------------------
// owner: -1 free, >=0 exclusive owner; count: recursion depth, or number of readers as a negative number
static MState *mstate(const void *a) {
  for (int i = 0; i < g_nmut; i++)
    if (g_mut[i].a == a)
      return &g_mut[i];
  int k = g_nmut < 256 ? g_nmut++ : 0;
  // reuse an idle slot when the table is full
  if (g_nmut == 256)
    for (int i = 0; i < 256; i++)
      if (g_mut[i].owner == -1 && !g_mut[i].readers)
        k = i;
  g_mut[k] = MState{a, -1, 0, 0};
  return &g_mut[k];
}
static int m_lock(const void *m, bool recursive, bool shared, bool try_only) {
  Fiber *f = g_cur;
  if ((f->mode & M_TRACK) && g_par)
    step(f);
  for (;;) {
    MState *s = mstate(m);
    if (s->owner == f->id && !shared && recursive) {
      s->depth++;
      return 0;
    }
    bool free_ = shared ? s->owner == -1 : (s->owner == -1 && s->readers == 0);
    if (free_) {
      if (shared)
        s->readers++;
      else {
        s->owner = f->id;
        s->depth = 1;
      }
      sync_acquire(m);
      return 0;
    }
    if (try_only)
      return EBUSY;
    if (!g_par || s->owner == f->id)
      violation("deadlock", "fiber %d op %d locks a mutex it already holds", f->id, f->op);
    block_on(m);
  }
}
static int m_unlock(const void *m) {
  MState *s = mstate(m);
  if (s->owner >= 0) {
    if (--s->depth > 0)
      return 0;
    s->owner = -1;
  } else if (s->readers > 0)
    s->readers--;
  sync_release(m);
  wake(m);
  return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  return m_lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP, false, false);
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
  return m_lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP, false, true);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { return m_unlock(m); }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) { return m_lock(m, false, true, false); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { return m_lock(m, false, false, false); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { return m_lock(m, false, true, true); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *m) { return m_lock(m, false, false, true); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) { return m_unlock(m); }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  m_unlock(m);
  block_on(c);
  return __wrap_pthread_mutex_lock(m);
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) {
  wake(c);
  return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) {
  wake(c);
  return 0;
}
int __wrap_sched_yield() {
  if (g_par && (g_cur->mode & M_PREEMPT)) {
    forced_switch();
    step(g_cur);
  }
  return 0;
}
int __wrap_nanosleep(const struct timespec *, struct timespec *) { return __wrap_sched_yield(); }
int __wrap_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) {
  __wrap_sched_yield();
  return 0;
}
int __wrap_usleep(unsigned) { return __wrap_sched_yield(); }
// the only clock instrumented code can see is simulated
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t c, struct timespec *t) {
  if (!(g_cur->mode & M_TRACK))
    return __real_clock_gettime(c, t);
  t->tv_sec = 1500000000 + (time_t)(g_steps / 1000000);
  t->tv_nsec = (long)(g_steps % 1000000) * 1000;
  return 0;
}
time_t __real_time(time_t *);
time_t __wrap_time(time_t *t) {
  if (!(g_cur->mode & M_TRACK))
    return __real_time(t);
  time_t v = 1500000000 + (time_t)(g_steps / 1000000);
  if (t)
    *t = v;
  return v;
}
void __wrap___assert_fail(const char *e, const char *file, unsigned line, const char *fn) {
  const char *b = strrchr(file, '/');
  violation("crash", "assertion failed: %s (%s:%u %s)", e, b ? b + 1 : file, line, fn);
}

// ---- entropy --------------------------------------------------------------------------------------------
static void entropy_point() {
  Fiber *f = g_cur;
  if (f->op_entropy && f->op_faults) {
    f->op_fired |= 1u << FK_ENTROPY;
    g_fired[FK_ENTROPY]++;
    f->op_entropy = nullptr;
    throw std::runtime_error("simulated: the entropy source is not available");
  }
}
void __wrap__ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void *, const void *) {
  entropy_point();
}
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void *) {
  entropy_point();
  if (entropy_hook)
    return (unsigned)entropy_hook();
  uint64_t z = (g_entropy += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  return (unsigned)(z ^ (z >> 31));
}
void __wrap__ZNSt13random_device7_M_finiEv(void *) {}

// ---- files ------------------------------------------------------------------------------------------------
static bool sys_mode() { return sim_mode() && system_hook; }
// the errno of a fault injected at this call, or 0
static int syscall_point(int e1, int e2) {
  Fiber *f = g_cur;
  step(f);
  f->op_sys++;
  if (!(f->mode & M_FAULT) || !f->op_faults || !f->op_syscall || f->op_syscall->nth != f->op_sys)
    return 0;
  f->op_fired |= 1u << FK_SYSCALL;
  g_fired[FK_SYSCALL]++;
  g_event_hash = mixh(g_event_hash, 0x5c + f->op_sys);
  return f->op & 1 ? e1 : e2;
}
struct HostMode {
  uint32_t old = set_mode(M_HOST);
  ~HostMode() { set_mode(old); }
};
int __wrap_open(const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  if (!sys_mode())
    return __real_open(path, flags, mode);
  int e = syscall_point(EMFILE, EACCES), r = -1;
  if (!e) {
    HostMode h;
    r = system_hook->open(path, flags);
    if (r < 0)
      e = -r;
  }
  if (e)
    return errno = e, -1;
  return r;
}
int __wrap_fstat(int fd, struct stat *st) {
  if (!sys_mode())
    return __real_fstat(fd, st);
  int e = syscall_point(EIO, EOVERFLOW);
  access((uintptr_t)st, sizeof *st, true);
  if (!e) {
    HostMode h;
    int64_t n = system_hook->size(fd);
    memset(st, 0, sizeof *st);
    if (n < 0)
      e = (int)-n;
    else {
      st->st_size = n;
      st->st_mode = S_IFREG | 0644;
    }
  }
  if (e)
    return errno = e, -1;
  return 0;
}
void *__wrap_mmap(void *at, size_t len, int prot, int flags, int fd, off_t off) {
  if (!sys_mode())
    return __real_mmap(at, len, prot, flags, fd, off);
  int e = syscall_point(ENOMEM, EAGAIN);
  void *p = MAP_FAILED;
  if (!e) {
    HostMode h;
    e = -system_hook->map(len, prot, flags, fd, off);
  }
  if (!e) {
    bool keep = g_cur->op_faults;
    g_cur->op_faults = false; // the kernel's memory is not the program's
    p = sim_alloc(len, system_hook->page(), KIND_MMAP);
    g_cur->op_faults = keep;
    if (!p)
      e = ENOMEM, p = MAP_FAILED;
    else {
      HostMode h;
      system_hook->fill((char *)p, len, fd, off);
    }
  }
  if (e)
    return errno = e, MAP_FAILED;
  return p;
}
int __wrap_munmap(void *p, size_t len) {
  if (!sys_mode())
    return __real_munmap(p, len);
  step(g_cur);
  sim_unmap(p, len);
  return 0;
}
int __wrap_close(int fd) {
  if (!sys_mode())
    return __real_close(fd);
  step(g_cur);
  int r;
  {
    HostMode h;
    r = system_hook->close(fd);
  }
  if (r < 0)
    return errno = -r, -1;
  return 0;
}
long __wrap_sysconf(int name) {
  if (!sys_mode() || name != _SC_PAGESIZE)
    return __real_sysconf(name);
  return system_hook->page();
}
} // extern "C"

// ---- operator new / delete --------------------------------------------------------------------------------
static void *op_new(size_t n, size_t al, uint8_t kind) {
  void *p = sim_mode() ? sim_alloc(n, al, kind) : (al > 16 ? __real_aligned_alloc(al, (n + al - 1) / al * al) : __real_malloc(n ? n : 1));
  return p;
}
static void *op_new_throw(size_t n, size_t al, uint8_t kind) {
  void *p = op_new(n, al, kind);
  if (!p)
    throw std::bad_alloc();
  return p;
}
static void op_del(void *p, uint8_t kind) {
  if (!p)
    return;
  if (is_sim(p))
    sim_free(p, kind);
  else
    __real_free(p);
}
void *operator new(size_t n) { return op_new_throw(n, 16, KIND_NEW); }
void *operator new[](size_t n) { return op_new_throw(n, 16, KIND_NEWA); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return op_new(n, 16, KIND_NEW); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return op_new(n, 16, KIND_NEWA); }
void *operator new(size_t n, std::align_val_t a) { return op_new_throw(n, (size_t)a, KIND_NEW); }
void *operator new[](size_t n, std::align_val_t a) { return op_new_throw(n, (size_t)a, KIND_NEWA); }
void *operator new(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return op_new(n, (size_t)a, KIND_NEW); }
void *operator new[](size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return op_new(n, (size_t)a, KIND_NEWA); }
void operator delete(void *p) noexcept { op_del(p, KIND_NEW); }
void operator delete[](void *p) noexcept { op_del(p, KIND_NEWA); }
void operator delete(void *p, size_t) noexcept { op_del(p, KIND_NEW); }
void operator delete[](void *p, size_t) noexcept { op_del(p, KIND_NEWA); }
void operator delete(void *p, const std::nothrow_t &) noexcept { op_del(p, KIND_NEW); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { op_del(p, KIND_NEWA); }
void operator delete(void *p, std::align_val_t) noexcept { op_del(p, KIND_NEW); }
void operator delete[](void *p, std::align_val_t) noexcept { op_del(p, KIND_NEWA); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { op_del(p, KIND_NEW); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { op_del(p, KIND_NEWA); }

// Everything allocated by static initialisers is library state: put it in the simulated heap.
namespace {
struct StaticInitMode {
  StaticInitMode() { rt::set_mode(rt::M_ALLOC); }
};
} // namespace
__attribute__((constructor(101))) static void rt_static_init(int, char **argv, char **) {
  // the same addresses in every process
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    int old = personality(0xffffffff);
    if (old != -1 && !(old & ADDR_NO_RANDOMIZE) && personality(old | ADDR_NO_RANDOMIZE) != -1)
      execv("/proc/self/exe", argv);
  }
  rt::set_mode(rt::M_ALLOC);
}
