// Deterministic simulator kernel: fibers, decisions, memory, seams.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <functional>
#include <algorithm>

namespace sim {
extern const char *const sim_variant;
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;
constexpr int MAXR = 9;      // simulated processes
constexpr int MAXF = 32;     // fibers

// ---------------------------------------------------------------- randomness
struct Rng {
  u64 s;
  explicit Rng(u64 x = 1) : s(x) {}
  u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
  u32 below(u32 n) { return n <= 1 ? 0 : (u32)((next() >> 11) % n); }
  int range(int a, int b) { return a + (int)below((u32)(b - a + 1)); }
  bool coin(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
};
u64 mix(u64 a, u64 b);

// ---------------------------------------------------------------- faults (what the environment did)
#define SIM_FAULTS(X) \
  X(sched_preempt) X(rank_stall) X(op_deferred) X(op_reordered) X(op_torn) X(op_late_capture) X(op_late_delivery) \
  X(op_lazy_until_flush) X(rmw_late_visibility) X(weak_progress_wait) X(lock_deferred) X(lock_contended) \
  X(p2p_delayed) X(p2p_rendezvous) X(anysource_choice) X(spurious_test) X(spurious_probe) X(coll_early_leave) \
  X(reduce_permuted) X(reduce_segmented) X(alloc_failed) X(alloc_reused) X(alloc_adjacent) X(far_share) X(thread_preempt) X(spurious_wake) X(signal_choice) X(thread_create_failed) X(clock_jump)
enum Fault {
#define X(n) F_##n,
  SIM_FAULTS(X)
#undef X
  F_COUNT };
extern const char *fault_name[F_COUNT];

// ---------------------------------------------------------------- per-run configuration of the environment
struct EnvCfg {
  int nranks = 2;
  int policy = 0;           // 0 uniform, 1 sticky, 2 priorities, 3 fifo
  int net_pct = 30;         // chance that a network step is taken when a fiber could run
  int net_order = 0;        // 0 random, 1 oldest first, 2 newest first
  int fifo_net = 0;         // transfers of one origin-target pair happen in issue order
  int lazy = 0;             // transfers happen only when something waits for them
  int lazy_age = 300;       // ... or after this many steps
  int eager_pct = 30;       // transfer performed entirely at issue
  int capture_pct = 30;     // source read at issue, rest later
  int tear_pct = 20;        // transfer applied in pieces
  int late_pct = 30;        // delivery of fetched data is a separate step
  int latevis_pct = 0;      // atomics: result known before the store is visible to plain reads
  int stall_pct = 0;        // per mille chance per step that a process stalls
  int rendezvous_pct = 30;
  int spurious_pct = 0;
  int reuse_pct = 30;       // freed addresses are reused at once
  int adjacent_pct = 30;    // allocations are packed without a gap
  int segment_pct = 30;
  int permute_pct = 50;
  int weak_progress = 0;    // target-side work happens only while the target is inside the library
  int preempt = 0;          // preemption at basic blocks of the library (threads)
  int thread_level = 3;     // what MPI provides
  int pt_fail = 0;          // thread creation fails
  long alloc_fail_at = -1;  // index of the allocation that fails (any process)
  int alloc_fail_n = 1;     // how many in a row
  int separate = 0;         // windows report the separate memory model
  int fill = 0;             // initial byte of fresh allocations
  int heap_fill = 0xCD;     // and of everything else
  int far = 0, far_c = 0;   // shares of global memory longer than far_c bytes are spread out: piece j of far_c bytes lies j * far MiB behind the base
  long max_steps = 60000;
};

inline bool far_on(const EnvCfg &c) { return c.far > 0 && c.far_c > 0; }
inline long far_off(const EnvCfg &c, long off) { return far_on(c) ? off / c.far_c * ((long)c.far << 20) + off % c.far_c : off; }     // where byte off of a share lies
inline long far_size(const EnvCfg &c, long n) { return n > 0 ? far_off(c, n - 1) + 1 : n; }
inline bool far_one(const EnvCfg &c, long off, long n) { return !far_on(c) || n <= 0 || off / c.far_c == (off + n - 1) / c.far_c; }   // contiguous?
inline long far_stride(const EnvCfg &c, long st) { return far_on(c) && st >= c.far_c && st % c.far_c == 0 ? st / c.far_c * ((long)c.far << 20) : st; }
// ---------------------------------------------------------------- fibers
struct Pred { bool (*fn)(void *); void *arg; };
enum FState { FS_FREE, FS_RUN, FS_BLOCK, FS_DONE };
struct Fiber {
  int id, rank, thr; void *sp; char *lo; FState st; Pred pred; u64 wake; u64 lastrun; const char *what; const char *mpi; int mpi_depth; int in_mpi_lock;
  void (*entry)(void *); void *arg; int prio; bool spin; bool joined; bool detached; long preempt_cd; void *retval; long tests;
};
struct Outcome { std::string cat; std::string msg; int rank = -1; int abort_code = 0; std::set<int> abort_covers;   // processes of the communicator given to MPI_Abort
  bool fatal() const { return !cat.empty(); } };

struct Kernel {
  EnvCfg cfg;
  Rng rng;                      // schedule randomness
  bool replay = false;
  std::vector<u32> in;          // decisions to replay
  size_t inpos = 0;
  std::vector<u32> out;         // decisions made
  u64 step = 0, clock = 0;
  Fiber fib[MAXF]; int nfib = 0;
  Fiber *cur = nullptr; int cur_rank = -1;
  u64 hash = 0;
  u64 fired[F_COUNT];
  Outcome outc;
  std::string log;
  long nalloc = 0; long nalloc_failed = 0;
  bool tracing = false; std::string trace;
  int stalled_rank = -1; u64 stall_until = 0;
  u64 switches = 0; int last_fiber = -1;
  int done_ranks = 0;
  bool in_lib = false;
  u64 nwarn = 0;
};
extern Kernel K;

u32 choose(u32 n);                                   // uniform
u32 choose_pct(int pct);                             // 1 with pct%
u32 choose_idx(u32 n, u32 want);                     // record a precomputed pick
inline void fire(Fault f) { K.fired[f]++; }
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // event log: part of the run hash

[[noreturn]] void fail(const char *cat, const char *fmt, ...) __attribute__((format(printf, 2, 3)));

int  spawn(int rank, int thr, void (*fn)(void *), void *arg);
void yield(const char *what);
void block(Pred p, const char *what);
template <class F> void wait_until(F f, const char *what) {
  Pred p{[](void *a) { return (*(F *)a)(); }, &f};
  do block(p, what); while (!f());   // another thread may have taken it in the meantime
}
void sleep_us(u64 us, const char *what);
void run_begin(const EnvCfg &c, u64 seed, const std::vector<u32> *replay);
void run_loop();                                      // until all fibers are done or an outcome is set
void run_end();

// ---------------------------------------------------------------- memory
enum Zone { Z_HEAP = 0, Z_WIN = 1, Z_PRIV = 2, NZONE = 3 };
enum Mem : u8 { M_NONE = 0, M_HEAP = 1, M_WIN = 2, M_FREED = 3, M_PRIV = 4, M_TMP = 5 };
void *mem_alloc(int rank, Zone z, size_t n, Mem kind, bool adjacent_ok);
void  mem_free(int rank, Zone z, void *p, const char *who);
bool  mem_block(int rank, Zone z, void *p, size_t *size);   // live block starting at p
const char *mem_check(int rank, const void *p, size_t n);   // nullptr if fully addressable by rank
void  mem_assert(int rank, const void *p, size_t n, const char *what);
size_t mem_live(int rank, Zone z, size_t *bytes);
u8 mem_state(const void *p);
int  addr_rank(const void *p);
int  maybe_fail_alloc();

// ---------------------------------------------------------------- network layer (mpi.cpp)
struct Act { int type; void *obj; u64 born; bool needed; bool held; };
void net_reset();
void net_collect(std::vector<Act> &v);
void net_fire(const Act &a);
std::string net_describe();
void mpi_world_begin(int nranks);
struct Leak { long comms, groups, types, ops, infos, wins, reqs, mems, msgs, posted; };
Leak mpi_leaks(int rank);
extern bool (*on_apply_hook)(int rank, void *addr, size_t n);
void sep_access(int rank, const void *p, size_t n, bool store, const char *who);   // direct access to window memory, separate memory model
extern long rma_range_hits;
struct RmaStats { u64 ops, pieces, max_pending, max_rreq; };
extern RmaStats rma_stats;
extern int rreq_limit;
int pending_ops_total();
u64 mem_hash();
extern std::map<std::string, std::string> env;
extern const char *libversion; extern int lib_kind; extern bool alloc_fatal;
[[noreturn]] void fiber_exit();
extern u8 covmap[1 << 19]; extern uintptr_t text_lo[MAXR], text_hi[MAXR];
}
