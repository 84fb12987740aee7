// Deterministic simulation runtime: public interface used by the engine and by the scenarios.
//
// The library and the scenarios are compiled with -fsanitize=thread, but linked against THIS runtime
// instead of libtsan.  The runtime owns every thread switch (fibers on one OS thread), every
// allocation, every atomic and plain memory access of instrumented code, one-time-initialisation
// guards, mutexes, thread-local variables and the entropy source.  Nothing in it reads a clock.
#pragma once
#include <cstddef>
#include <cstdint>

namespace rt {

enum { MAXF = 5 }; // fiber 0 is the driver ("main"), 1..4 are client threads

// ---- modes (per fiber) -------------------------------------------------------------------
enum : uint32_t {
  M_ALLOC = 1,   // allocations come from the simulated heap
  M_TRACK = 2,   // memory accesses are checked (heap state + happens-before)
  M_PREEMPT = 4, // the scheduler may switch away at any access
  M_FAULT = 8,   // injected faults may fire
  M_SIM = 15,
  M_PEEK = M_TRACK,
  M_QUIET = M_ALLOC | M_TRACK, // real work, no faults, no preemption
  M_HOST = 0
};
uint32_t get_mode();
uint32_t set_mode(uint32_t m); // returns the old one

struct Mode {
  uint32_t old;
  explicit Mode(uint32_t m) : old(set_mode(m)) {}
  ~Mode() { set_mode(old); }
  Mode(const Mode &) = delete;
};

// ---- violations --------------------------------------------------------------------------
// Records the violation and ends the simulated process at once.
[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// sink(class, message, call stack) must not return
typedef void (*violation_sink)(const char *cls, const char *msg, const uintptr_t *pcs, int npcs);
extern violation_sink g_sink;

// ---- faults ------------------------------------------------------------------------------
enum FaultKind : uint8_t {
  FK_ALLOC = 0,    // the nth allocation of the operation fails
  FK_ALLOC_STICKY, // that one and every later one of the operation fail (memory exhausted)
  FK_CALLBACK,     // the nth user callback of the operation throws
  FK_STREAM,       // the output stream of the operation fails after n bytes
  FK_ENTROPY,      // the entropy source fails
  FK_STALL,        // the thread is descheduled for a long time in the middle of the operation
  FK_CUT,          // the input text is truncated at a byte
  FK_FLIP,         // a byte of the input text is corrupted
  FK_NATURAL,      // the simulated heap itself was exhausted by an absurd request
  FK_SYSCALL,      // the nth system call of the operation that can fail (open, fstat, mmap) fails
  FK_NKINDS
};
extern const char *const fault_names[FK_NKINDS];

struct Fault {
  uint8_t kind, fiber;
  uint16_t op; // index of the operation in the plan
  uint32_t nth; // 1-based
};

// Called by the engine around each operation of a fiber.
void op_begin(int op_index);
struct OpStats {
  uint64_t allocs, callbacks, steps, fired_mask, stream_bytes, syscalls;
};
OpStats op_end();
OpStats op_peek();
uint64_t op_fired_mask(); // bit per FaultKind that fired in the current operation
uint32_t op_fault_arg(FaultKind k); // the current op's fault of this kind (nth), or 0; marks nothing as fired
void op_note_fired(FaultKind k);
void op_faults_off(); // the rest of this operation runs without faults ("after faults stop")
// a harness-provided user callback must call this first; true => the callback must throw
bool callback_point();
void stream_bytes(uint64_t n); // a harness stream received n bytes (fault placement)

// ---- scheduler ---------------------------------------------------------------------------
struct Switch {
  uint8_t from, to;
  uint64_t step; // step count of `from` at which it is preempted; ~0 = when it ends or blocks
};
enum SchedMode : uint8_t { SM_SEQ = 0, SM_RANDOM, SM_PCT, SM_ATOMIC, SM_OPS, SM_EXPLICIT };
struct SchedConfig {
  uint8_t mode;
  uint8_t order;        // SM_SEQ: bits select the order in which fibers run to completion
  uint64_t seed;
  uint32_t quantum;     // mean run length in steps for SM_RANDOM
  uint32_t pct_depth;   // change points for SM_PCT
  uint64_t pct_total;   // expected steps
  uint32_t atomic_prob; // per 1000 for SM_ATOMIC
  const Switch *explicit_list;
  size_t explicit_n;
};
struct HeapConfig {
  uint8_t fill_new, fill_free; // content of fresh and of released memory
  uint8_t realloc_moves;       // 1: realloc always moves
  uint8_t pad;                 // extra spacing between blocks (multiples of 16)
};
struct RunConfig {
  SchedConfig sched;
  HeapConfig heap;
  const Fault *faults;
  size_t nfaults;
  uint64_t max_steps;
  uint64_t entropy_seed;
};

void init(); // once, at the start of main
void run_begin(const RunConfig &);
typedef void (*fiber_fn)(int fiber, void *arg);
void run_fibers(int n, fiber_fn fn, void *arg); // fibers 1..n; returns when all ended
void op_boundary();                             // a scheduling point between operations
struct RunStats {
  uint64_t steps, switches, allocs, frees, atomics, fired[FK_NKINDS], event_hash, sched_hash, live_blocks, live_bytes,
      preempt_in_op;
};
RunStats run_end(); // live blocks = allocated during this run and never released
const Switch *recorded_switches(size_t *n);
// text about the blocks that are live; pcs of the allocation of the first of them
int describe_live(char *buf, size_t n, uintptr_t *pcs, int maxpcs);
void adopt_live(); // live blocks of the finished run become persistent
void log_event(uint64_t v); // folds v into the event hash
int cur_fiber();
int cur_op();
uint64_t now();               // global event sequence number (steps)
extern bool g_trace_alloc;    // record allocation and release stacks (for reports; does not change the run)

// simulated blocking lock: establishes happens-before between users
struct SimLock {
  int owner = -1;
  uint32_t vc[MAXF] = {0};
};
void lock(SimLock &);
void unlock(SimLock &);

bool in_sim_heap(const void *);
bool addr_ok(const void *p, size_t n); // all n bytes readable in the simulated heap (or not in it at all)
extern uint64_t (*entropy_hook)();
// The simulated operating system's files; implemented by a scenario, called in HOST mode.
struct System {
  virtual ~System() {}
  virtual int open(const char *path, int flags) = 0; // a descriptor, or -errno
  virtual int64_t size(int fd) = 0;                  // or -errno
  virtual int close(int fd) = 0;                     // 0, or -errno
  // checks the arguments as the kernel does; 0, or -errno
  virtual int map(size_t len, int prot, int flags, int fd, int64_t offset) = 0;
  virtual void fill(char *to, size_t len, int fd, int64_t offset) = 0; // content of the new mapping
  virtual long page() = 0;
};
extern System *system_hook;
const char *symbol_of(uintptr_t pc, char *buf, size_t n); // function name from the ELF symbol table (demangled)
} // namespace rt
