#include "sim.h"
#include <csetjmp>
#include <cstdarg>
#include <csignal>
#include <sys/mman.h>
#include <unistd.h>
#include <cerrno>
namespace sim {
Kernel K;
const char *fault_name[F_COUNT] = {
#define X(n) #n,
  SIM_FAULTS(X)
#undef X
};
u64 mix(u64 a, u64 b) { a ^= b + 0x9E3779B97F4A7C15ULL + (a << 6) + (a >> 2); a *= 0xff51afd7ed558ccdULL; a ^= a >> 33; return a; }

// ------------------------------------------------------------------ decisions
static inline u32 rec(u32 n, u32 v) { K.out.push_back(v); K.hash = mix(K.hash, v * 31 + n); return v; }
static inline bool replayed(u32 n, u32 &v) {
  if (!K.replay) return false;
  v = K.inpos < K.in.size() ? K.in[K.inpos++] % n : 0;
  return true;
}
u32 choose(u32 n) { if (n <= 1) return 0; u32 v; if (!replayed(n, v)) v = K.rng.below(n); return rec(n, v); }
u32 choose_pct(int pct) { if (pct <= 0) return 0; u32 v; if (!replayed(2, v)) v = K.rng.below(100) < (u32)pct; return rec(2, v); }
u32 choose_idx(u32 n, u32 want) { if (n <= 1) return 0; u32 v; if (!replayed(n, v)) v = want; return rec(n, v); }

void ev(const char *fmt, ...) {
  char b[400]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  u64 h = 1469598103934665603ULL; for (int i = 0; i < n; i++) h = (h ^ (u8)b[i]) * 1099511628211ULL;
  K.hash = mix(K.hash, h);
  if (K.tracing && K.trace.size() < 4000000) {
    char p[64]; snprintf(p, sizeof p, "%6llu %s%d ", (unsigned long long)K.step, K.cur ? "p" : "net", K.cur ? K.cur->rank : 0);
    K.trace += p; if (K.cur && K.cur->thr) { K.trace += "t"; K.trace += std::to_string(K.cur->thr); K.trace += " "; } K.trace.append(b, n); K.trace += '\n';
  }
}

// ------------------------------------------------------------------ fibers
static const uintptr_t STK_BASE = 0x300000000000ULL; static const size_t STK_SLOT = 0x100000, STK_SIZE = 0x40000;
static jmp_buf main_jb; static void *main_sp; static bool in_run = false; static volatile int jb_set = 0;
extern "C" void sim_switch(void **save, void *to);
asm(".text\n.globl sim_switch\nsim_switch:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rsp,(%rdi)\n mov %rsi,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");

[[noreturn]] static void fiber_main() {
  Fiber *f = K.cur;
  f->entry(f->arg);
  f->st = FS_DONE;
  sim_switch(&f->sp, main_sp);
  abort();
}
void fiber_exit() { K.cur->st = FS_DONE; sim_switch(&K.cur->sp, main_sp); abort(); }
std::map<std::string, std::string> env;
static bool stacks_mapped = false;
static void map_stacks() {
  if (stacks_mapped) return; stacks_mapped = true;
  void *p = mmap((void *)STK_BASE, STK_SLOT * MAXF, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)STK_BASE) { fprintf(stderr, "sim: cannot map stacks\n"); _exit(3); }
  for (int i = 0; i < MAXF; i++) {
    char *lo = (char *)STK_BASE + i * STK_SLOT + (STK_SLOT - STK_SIZE);
    if (mprotect(lo, STK_SIZE, PROT_READ | PROT_WRITE)) { fprintf(stderr, "sim: mprotect\n"); _exit(3); }
    memset(lo, 0xA5, STK_SIZE);
    K.fib[i].lo = lo;
  }
}
static void clean_stack(Fiber &f) {
  // refill what was used (stack grows down from lo+STK_SIZE)
  u64 *p = (u64 *)f.lo, *e = (u64 *)(f.lo + STK_SIZE);
  while (p < e && *p == 0xA5A5A5A5A5A5A5A5ULL) p += 1;
  if (p < e) memset(p, 0xA5, (char *)e - (char *)p);
}
int spawn(int rank, int thr, void (*fn)(void *), void *arg) {
  if (K.nfib >= MAXF) return -1;
  Fiber &f = K.fib[K.nfib]; char *lo = f.lo;
  memset(&f, 0, sizeof f); f.lo = lo; f.id = K.nfib++; f.rank = rank; f.thr = thr; f.st = FS_RUN; f.entry = fn; f.arg = arg; f.what = "start";
  f.prio = (int)(K.rng.next() % 1000); f.lastrun = K.step; f.preempt_cd = -1;
  u64 *top = (u64 *)(lo + STK_SIZE - 64);
  *--top = 0;                       // alignment / fake return
  *--top = (u64)&fiber_main;
  for (int i = 0; i < 6; i++) *--top = 0;
  f.sp = top;
  return f.id;
}
static void to_main() { Fiber *f = K.cur; sim_switch(&f->sp, main_sp); }
void yield(const char *what) { Fiber *f = K.cur; if (!f) return; f->what = what; f->st = FS_RUN; to_main(); }
void block(Pred p, const char *what) {
  Fiber *f = K.cur;
  if (p.fn(p.arg)) return;
  f->what = what; f->pred = p; f->wake = 0; f->st = FS_BLOCK; to_main();
}
void sleep_us(u64 us, const char *what) {
  Fiber *f = K.cur; u64 t = K.clock + us; f->what = what; f->wake = t; f->pred = Pred{nullptr, nullptr}; f->st = FS_BLOCK; to_main();
}
void fail(const char *cat, const char *fmt, ...) {
  char b[1200]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (K.outc.cat.empty()) { K.outc.cat = cat; K.outc.msg = b; K.outc.rank = K.cur ? K.cur->rank : -1; }
  if (!jb_set) { fprintf(stderr, "sim: failure outside a run: %s %s\n", cat, b); _exit(3); }
  longjmp(main_jb, 1);
}
static void on_segv(int sig, siginfo_t *si, void *) {
  if (!jb_set) { const char m[] = "sim: crash outside a run\n"; (void)!write(2, m, sizeof m - 1); _exit(3); }
  if (K.outc.cat.empty()) {
    char b[128]; u64 a = (u64)si->si_addr; const char *k = a < 65536 ? "near null" : (a >= STK_BASE && a < STK_BASE + STK_SLOT * MAXF) ? "stack overflow" : "bad address";
    snprintf(b, sizeof b, "signal %d (%s%s) in process %d", sig, sig == SIGSEGV || sig == SIGBUS ? "memory fault, " : "", sig == SIGFPE ? "arithmetic" : k, K.cur ? K.cur->rank : -1);
    K.outc.cat = "CRASH"; K.outc.msg = b; K.outc.rank = K.cur ? K.cur->rank : -1;
  }
  longjmp(main_jb, 1);
}
static void install_handlers() {
  static bool done = false; if (done) return; done = true;
  static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigemptyset(&sa.sa_mask);
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
}

// ------------------------------------------------------------------ memory arenas
static const uintptr_t ARENA = 0x200000000000ULL; static const size_t ASLOT = 0x10000000;   // per process
static const size_t ZS[NZONE] = {0x1000000, 0x400000, 0x800000}; static const size_t ZO[NZONE] = {0, 0x1000000, 0x1400000}; static const size_t ATOT = 0x1C00000;
struct Block { size_t size; bool live; };
struct ZoneSt { std::map<uintptr_t, Block> blk; size_t top = 0, hi = 0; std::multimap<size_t, uintptr_t> freelist; };
static ZoneSt zst[MAXR][NZONE]; static u8 *shadow[MAXR];
static const uintptr_t FAR = 0x400000000000ULL; static const size_t FSLOT = 0x8000000000ULL;   // shares spread over gigabytes: only the pieces are mapped
struct FarBlk { size_t size; bool live; }; static std::map<uintptr_t, FarBlk> farb[MAXR]; static uintptr_t fartop[MAXR];
static void far_pages(uintptr_t a, size_t n, bool map) {
  size_t s = (size_t)K.cfg.far << 20; for (size_t o = 0; o < n; o += s) { uintptr_t lo = (a + o) & ~4095UL, hi = (a + o + std::min(n - o, (size_t)K.cfg.far_c) + 4095) & ~4095UL;
    if (map ? mmap((void *)lo, hi - lo, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)lo : munmap((void *)lo, hi - lo) != 0) { fprintf(stderr, "sim: cannot map memory\n"); _exit(3); } }
}
static void *far_alloc(int r, size_t n) {
  for (auto &b : farb[r]) if (!b.second.live && b.second.size == n && choose_pct(K.cfg.reuse_pct)) { b.second.live = true; far_pages(b.first, n, true); fire(F_alloc_reused); return (void *)b.first; }
  uintptr_t &t = fartop[r]; if (!t) t = FAR + r * FSLOT; uintptr_t a = (t + 0x1fffff) / 0x100000 * 0x100000 + farb[r].size() * 592 % 2048; t = a + n; if (t + 0x200000 > FAR + (r + 1) * FSLOT) return nullptr;
  farb[r][a] = FarBlk{n, true}; far_pages(a, n, true); fire(F_far_share); return (void *)a;
}
static std::map<uintptr_t, FarBlk>::iterator far_find(int r, uintptr_t a) { auto it = farb[r].upper_bound(a); if (it == farb[r].begin()) return farb[r].end(); --it; return a < it->first + it->second.size ? it : farb[r].end(); }
static inline bool is_far(uintptr_t a) { return a >= FAR && a < FAR + FSLOT * MAXR; }
static void far_reset() { for (int r = 0; r < MAXR; r++) { for (auto &b : farb[r]) if (b.second.live) far_pages(b.first, b.second.size, false); farb[r].clear(); fartop[r] = 0; } }
static inline u8 *abase(int r) { return (u8 *)(ARENA + r * ASLOT); }
static void map_arenas() {
  if (shadow[0]) return;
  for (int r = 0; r < MAXR; r++) {
    void *p = mmap(abase(r), ATOT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != abase(r)) { fprintf(stderr, "sim: cannot map arena\n"); _exit(3); }
    shadow[r] = (u8 *)mmap(nullptr, ATOT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
}
static void reset_arenas() {
  for (int r = 0; r < MAXR; r++) for (int z = 0; z < NZONE; z++) {
    ZoneSt &s = zst[r][z]; if (s.hi) { memset(shadow[r] + ZO[z], 0, s.hi + 64); memset(abase(r) + ZO[z], 0, s.hi); }
    s.blk.clear(); s.freelist.clear(); s.top = s.hi = 0;
  }
}
int addr_rank(const void *p) {
  uintptr_t a = (uintptr_t)p;
  if (a >= ARENA && a < ARENA + ASLOT * MAXR) return (int)((a - ARENA) / ASLOT);
  if (is_far(a)) return (int)((a - FAR) / FSLOT);
  if (a >= STK_BASE && a < STK_BASE + STK_SLOT * MAXF) { int i = (int)((a - STK_BASE) / STK_SLOT); return i < K.nfib ? K.fib[i].rank : -1; }
  return -1;
}
u8 mem_state(const void *p) {
  uintptr_t a = (uintptr_t)p; if (is_far(a)) { int r = (int)((a - FAR) / FSLOT); auto it = far_find(r, a); return it == farb[r].end() ? M_NONE : it->second.live ? M_WIN : M_FREED; }
  if (a < ARENA || a >= ARENA + ASLOT * MAXR) return 255;
  size_t off = (a - ARENA) % ASLOT; if (off >= ATOT) return 0;
  return shadow[(a - ARENA) / ASLOT][off];
}
int maybe_fail_alloc() {
  long i = K.nalloc++;
  if (K.cfg.alloc_fail_at >= 0 && i >= K.cfg.alloc_fail_at && i < K.cfg.alloc_fail_at + K.cfg.alloc_fail_n) { fire(F_alloc_failed); K.nalloc_failed++; ev("alloc-fail %ld", i); return 1; }
  return 0;
}
void *mem_alloc(int r, Zone z, size_t n, Mem kind, bool adj) {
  if (z == Z_WIN && far_on(K.cfg) && n > 0x100000) return far_alloc(r, n);
  ZoneSt &s = zst[r][z]; size_t need = n ? n : 1; u8 *base = abase(r) + ZO[z];
  size_t al = z == Z_WIN && adj ? 8 : 16;
  if (z != Z_PRIV) {   // address reuse
    auto it = s.freelist.lower_bound(need);
    if (it != s.freelist.end() && it->first <= need + 64 && choose_pct(K.cfg.reuse_pct)) {
      uintptr_t a = it->second; s.freelist.erase(it); s.blk[a] = Block{need, true};
      memset(shadow[r] + (a - (uintptr_t)abase(r)), kind, need);
      memset((void *)a, kind == M_WIN ? K.cfg.fill : z == Z_PRIV ? 0xCD : K.cfg.heap_fill, need); fire(F_alloc_reused); return (void *)a;
    }
  }
  bool pack = adj && s.top && choose_pct(K.cfg.adjacent_pct);
  size_t off = s.top;
  if (!pack) off = (off + 48 + al - 1) / al * al; else { fire(F_alloc_adjacent); off = (off + 7) / 8 * 8; }
  if (off + need + 64 > ZS[z]) return nullptr;
  s.top = off + need; if (s.top + 64 > s.hi) s.hi = s.top + 64; if (s.hi > ZS[z]) s.hi = ZS[z];
  uintptr_t a = (uintptr_t)base + off; s.blk[a] = Block{need, true};
  memset(shadow[r] + ZO[z] + off, kind, need);
  memset((void *)a, kind == M_WIN ? K.cfg.fill : z == Z_PRIV ? 0xCD : K.cfg.heap_fill, need);
  return (void *)a;
}
void mem_free(int r, Zone z, void *p, const char *who) {
  if (z == Z_WIN && is_far((uintptr_t)p)) { auto f = farb[r].find((uintptr_t)p); if (f != farb[r].end() && f->second.live) { f->second.live = false; far_pages(f->first, f->second.size, false); return; } fail("MEM", "%s: process %d releases %s", who, r, f != farb[r].end() ? "a block twice" : "an address that is not an allocated block"); }
  ZoneSt &s = zst[r][z]; auto it = s.blk.find((uintptr_t)p);
  if (it == s.blk.end() || !it->second.live) {
    bool was = it != s.blk.end();
    fail("MEM", "%s: process %d releases %s", who, r, was ? "a block twice" : addr_rank(p) >= 0 && addr_rank(p) != r ? "memory of another process" : "an address that is not an allocated block");
  }
  it->second.live = false; size_t n = it->second.size;
  memset(shadow[r] + ((uintptr_t)p - (uintptr_t)abase(r)), M_FREED, n);
  memset(p, 0xDD, n);
  s.freelist.insert({n, (uintptr_t)p});
}
bool mem_block(int r, Zone z, void *p, size_t *n) {
  if (z == Z_WIN && is_far((uintptr_t)p)) { auto f = farb[r].find((uintptr_t)p); if (f == farb[r].end() || !f->second.live) return false; if (n) *n = f->second.size; return true; }
  auto it = zst[r][z].blk.find((uintptr_t)p); if (it == zst[r][z].blk.end() || !it->second.live) return false; if (n) *n = it->second.size; return true;
}
size_t mem_live(int r, Zone z, size_t *bytes) { size_t c = 0, b = 0; for (auto &k : zst[r][z].blk) if (k.second.live) { c++; b += k.second.size; } if (z == Z_WIN) for (auto &k : farb[r]) if (k.second.live) { c++; b += k.second.size; } if (bytes) *bytes = b; return c; }
const char *mem_check(int rank, const void *p, size_t n) {
  if (!n) return nullptr;
  uintptr_t a = (uintptr_t)p, e = a + n;
  if (a < 65536) return "null or near-null address";
  if (e < a) return "address overflow";
  if (a >= ARENA && a < ARENA + ASLOT * MAXR) {
    int r = (int)((a - ARENA) / ASLOT); size_t off = (a - ARENA) % ASLOT;
    if (r != rank) return "memory of another process";
    if (off + n > ATOT) return "unmapped memory";
    const u8 *s = shadow[r] + off;
    for (size_t i = 0; i < n; i++) if (s[i] == M_NONE || s[i] == M_FREED) return s[i] == M_FREED ? "released memory" : "memory outside any allocated block";
    return nullptr;
  }
  if (is_far(a)) {
    int r = (int)((a - FAR) / FSLOT); if (r != rank) return "memory of another process"; auto it = far_find(r, a);
    if (it == farb[r].end() || e > it->first + it->second.size) return "memory outside any allocated block"; return it->second.live ? nullptr : "released memory";
  }
  if (a >= STK_BASE && a < STK_BASE + STK_SLOT * MAXF) {
    int i = (int)((a - STK_BASE) / STK_SLOT); if (i >= K.nfib) return "unused stack";
    Fiber &f = K.fib[i]; if (f.rank != rank) return "stack of another process";
    if (f.st == FS_DONE) return "stack of a finished thread";
    if (K.cur != &f && a < (uintptr_t)f.sp) return "a stack frame that has returned";
    if (K.cur == &f && a < (uintptr_t)__builtin_frame_address(0)) return "a stack frame that has returned";
    return nullptr;
  }
  return nullptr;
}
void mem_assert(int rank, const void *p, size_t n, const char *what) {
  const char *e = mem_check(rank, p, n);
  if (e) fail("MEM", "%s: process %d uses %s", what, rank, e);
}
u64 mem_hash() {
  u64 h = 0; for (int r = 0; r < K.cfg.nranks; r++) for (auto &b : zst[r][Z_WIN].blk) if (b.second.live) { const u8 *p = (const u8 *)b.first; for (size_t i = 0; i < b.second.size; i++) h = h * 1099511628211ULL + p[i]; h = mix(h, b.first); }
  for (int r = 0; r < K.cfg.nranks; r++) for (auto &b : farb[r]) if (b.second.live) { size_t s = (size_t)K.cfg.far << 20; for (size_t o = 0; o < b.second.size; o += s) for (size_t j = 0; j < (size_t)K.cfg.far_c && o + j < b.second.size; j++) h = h * 1099511628211ULL + ((const u8 *)b.first)[o + j]; }
  return h;
}

// ------------------------------------------------------------------ run
static u64 mainseed; long pc_budget = 0;
void run_begin(const EnvCfg &c, u64 seed, const std::vector<u32> *rp) {
  install_handlers(); map_stacks(); map_arenas(); far_reset();
  for (int i = 0; i < K.nfib; i++) clean_stack(K.fib[i]);
  K.cfg = c; K.rng = Rng(seed); mainseed = seed; K.replay = rp != nullptr; K.in.clear(); if (rp) K.in = *rp; K.inpos = 0; K.out.clear();
  K.step = K.clock = 0; K.nfib = 0; K.cur = nullptr; K.cur_rank = -1; K.hash = 0; memset(K.fired, 0, sizeof K.fired);
  K.outc = Outcome(); K.log.clear(); K.nalloc = K.nalloc_failed = 0; K.trace.clear(); K.stalled_rank = -1; K.stall_until = 0; K.switches = 0; K.last_fiber = -1; K.nwarn = 0;
  reset_arenas(); net_reset(); mpi_world_begin(c.nranks);
}
static int pick_fiber(std::vector<Fiber *> &r) {
  const EnvCfg &c = K.cfg; int n = (int)r.size();
  // candidates not stalled
  auto stalled = [&](Fiber *f) { return f->rank == K.stalled_rank && K.step < K.stall_until; };
  int live[MAXF], m = 0; for (int i = 0; i < n; i++) if (!stalled(r[i])) live[m++] = i;
  if (!m) { for (int i = 0; i < n; i++) live[m++] = i; }
  switch (c.policy) {
    case 1: if (K.last_fiber >= 0 && K.rng.below(100) < 85) for (int i = 0; i < m; i++) if (r[live[i]]->id == K.last_fiber && !r[live[i]]->spin) return live[i]; break;
    case 2: {
      if (K.rng.below(100) < 2) r[live[K.rng.below(m)]]->prio = (int)(K.rng.next() % 1000);
      if (K.rng.below(100) < 10) break;   // keep it fair
      int b = -1; for (int i = 0; i < m; i++) if (!r[live[i]]->spin && (b < 0 || r[live[i]]->prio > r[b]->prio)) b = live[i];
      if (b >= 0) return b; break; }
    case 3: return live[0];
  }
  return live[K.rng.below(m)];
}
void run_loop() {
  static std::vector<Fiber *> run; static std::vector<Act> acts;
  in_run = true;
  if (setjmp(main_jb)) { K.cur = nullptr; K.cur_rank = -1; jb_set = 0; in_run = false; return; }
  jb_set = 1;
  const EnvCfg &c = K.cfg;
  while (true) {
    K.step++; K.clock++;
    if ((long)K.step > c.max_steps) {
      std::string d; for (int i = 0; i < K.nfib; i++) if (K.fib[i].st != FS_DONE) { char b[200]; snprintf(b, sizeof b, " p%d.%d:%s", K.fib[i].rank, K.fib[i].thr, K.fib[i].what ? K.fib[i].what : "?"); d += b; }
      fail("NOPROGRESS", "no completion after %ld scheduler steps;%s", c.max_steps, d.c_str());
    }
    run.clear(); bool alldone = true, sleeping = false; u64 minwake = ~0ULL;
    for (int i = 0; i < K.nfib; i++) {
      Fiber &f = K.fib[i];
      if (f.st == FS_DONE) continue;
      alldone = false;
      if (f.st == FS_BLOCK) {
        if (f.pred.fn) { K.cur_rank = f.rank; if (f.pred.fn(f.pred.arg)) { f.st = FS_RUN; f.pred.fn = nullptr; } }
        else if (f.wake <= K.clock) { f.st = FS_RUN; }
        else { sleeping = true; if (f.wake < minwake) minwake = f.wake; }
      }
      if (f.st == FS_RUN) run.push_back(&f);
    }
    if (alldone) break;
    acts.clear(); net_collect(acts);
    if (run.empty() && acts.empty()) {
      if (sleeping) { fire(F_clock_jump); K.clock = minwake; continue; }
      std::string d; for (int i = 0; i < K.nfib; i++) if (K.fib[i].st != FS_DONE) { char b[200]; snprintf(b, sizeof b, " p%d.%d:%s", K.fib[i].rank, K.fib[i].thr, K.fib[i].what ? K.fib[i].what : "?"); d += b; }
      fail("DEADLOCK", "nothing can run;%s; %s", d.c_str(), net_describe().c_str());
    }
    std::sort(run.begin(), run.end(), [](Fiber *a, Fiber *b) { return a->lastrun != b->lastrun ? a->lastrun < b->lastrun : a->id < b->id; });
    if (c.stall_pct && K.stalled_rank < 0 && !K.replay && (int)K.rng.below(1000) < c.stall_pct) { K.stalled_rank = (int)K.rng.below(c.nranks); K.stall_until = K.step + 20 + K.rng.below(300); fire(F_rank_stall); }
    if (K.stalled_rank >= 0 && K.step >= K.stall_until) K.stalled_rank = -1;
    // network step or fiber?
    bool net;
    if (run.empty()) net = true; else if (acts.empty()) net = false;
    else {
      bool older_net = acts[0].born <= run[0]->lastrun;   // class whose oldest member waits longest: the default
      bool want; bool allspin = true; for (auto f : run) if (!f->spin) { allspin = false; break; }
      bool anyfree = false; for (auto &a : acts) if (!a.held) { anyfree = true; break; }
      want = anyfree ? (int)K.rng.below(100) < (allspin ? 50 : c.net_pct) : (allspin ? K.rng.below(100) < 5 : false);
      u32 v = choose_idx(2, want == older_net ? 0 : 1);
      net = v == 0 ? older_net : !older_net;
    }
    if (net) {
      u32 want; int n = (int)acts.size();
      if (c.net_order == 1) want = 0; else if (c.net_order == 2) want = n - 1; else want = K.rng.below(n);
      if (acts[want].held) { for (int i = 0, j = K.rng.below(n); i < n; i++) if (!acts[(i + j) % n].held) { want = (i + j) % n; break; } }
      u32 v = choose_idx(n, want);
      if (v != 0) fire(F_op_reordered);
      K.cur = nullptr; K.cur_rank = -1; net_fire(acts[v]);
    } else {
      u32 v = choose_idx((u32)run.size(), run.size() > 1 ? pick_fiber(run) : 0);
      Fiber *f = run[v];
      if (K.last_fiber != f->id) { K.switches++; }
      if (K.last_fiber >= 0 && K.last_fiber != f->id && K.fib[K.last_fiber].st == FS_RUN) fire(F_sched_preempt);
      K.last_fiber = f->id; f->lastrun = K.step; K.cur = f; K.cur_rank = f->rank;
      if (c.preempt) { static const int D[] = {1 << 30, 1, 2, 3, 4, 6, 9, 13, 19, 28, 41, 60, 90, 130, 200, 300}; f->preempt_cd = D[choose(16)]; }
      pc_budget = 30000000; sim_switch(&main_sp, f->sp);
      K.cur = nullptr; K.cur_rank = -1;
    }
  }
  jb_set = 0; in_run = false;
}
void run_end() {}

// ------------------------------------------------------------------ instrumentation callbacks (library code only)
}
using namespace sim;
static void sep_acc(const void *p, size_t n, bool st) { if (K.cur) { char w[40]; snprintf(w, sizeof w, "library code in process %d", K.cur->rank); sep_access(K.cur->rank, p, n, st, w); } }
static inline void acc(const void *p, size_t n, const char *what) {
  uintptr_t a = (uintptr_t)p; if (K.cfg.separate) sep_acc(p, n, what[0] == 'w');
  if ((a >> 40) == 0x20 || (a >> 40) == 0x30) {
    if (!K.cur) return;
    const char *e = mem_check(K.cur->rank, p, n);
    if (e && !((a >> 40) == 0x30)) fail("MEM", "library code in process %d %s %s", K.cur->rank, what, e);
    else if (e && addr_rank(p) != K.cur->rank) fail("MEM", "library code in process %d %s %s", K.cur->rank, what, e);
  }
}
namespace sim { u8 covmap[1 << 19]; uintptr_t text_lo[MAXR], text_hi[MAXR]; }
extern "C" {
void __sanitizer_cov_load1(void *p) { acc(p, 1, "reads"); }
void __sanitizer_cov_load2(void *p) { acc(p, 2, "reads"); }
void __sanitizer_cov_load4(void *p) { acc(p, 4, "reads"); }
void __sanitizer_cov_load8(void *p) { acc(p, 8, "reads"); }
void __sanitizer_cov_load16(void *p) { acc(p, 16, "reads"); }
void __sanitizer_cov_store1(void *p) { acc(p, 1, "writes"); }
void __sanitizer_cov_store2(void *p) { acc(p, 2, "writes"); }
void __sanitizer_cov_store4(void *p) { acc(p, 4, "writes"); }
void __sanitizer_cov_store8(void *p) { acc(p, 8, "writes"); }
void __sanitizer_cov_store16(void *p) { acc(p, 16, "writes"); }
void __sanitizer_cov_trace_pc(void) {
  Fiber *f = K.cur; if (!f) return;
  if (--pc_budget < 0) fail("NOPROGRESS", "process %d runs in a loop inside the library without ever calling the message-passing layer", f->rank);
  uintptr_t pc = (uintptr_t)__builtin_return_address(0) - text_lo[f->rank]; covmap[pc & 0x7ffff] = 1;
  if (f->preempt_cd > 0 && K.cfg.preempt && --f->preempt_cd == 0) { fire(F_thread_preempt); const char *w = f->what; yield("preempted"); f->what = w; }
}
// memory
void *sim_malloc(size_t n) { Fiber *f = K.cur; if (!f) return nullptr; if (n > 0x400000 || maybe_fail_alloc()) { errno = ENOMEM; return nullptr; } void *p = mem_alloc(f->rank, Z_HEAP, n, M_HEAP, false); if (!p) fail("SIMLIMIT", "heap of process %d used up", f->rank); return p; }
void *sim_calloc(size_t a, size_t b) { void *p = sim_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void sim_free(void *p) { if (!p) return; mem_free(K.cur->rank, Z_HEAP, p, "free"); }
void *sim_realloc(void *p, size_t n) {
  if (!p) return sim_malloc(n);
  size_t old = 0; if (!mem_block(K.cur->rank, Z_HEAP, p, &old)) mem_free(K.cur->rank, Z_HEAP, p, "realloc");
  ZoneSt &s = zst[K.cur->rank][Z_HEAP]; size_t off = (size_t)((uintptr_t)p - (uintptr_t)abase(K.cur->rank)) - ZO[Z_HEAP];
  if (old >= 1024 && n > old && n <= 0x400000 && off + old == s.top && off + n + 64 <= ZS[Z_HEAP]) {   // the last block grows in place; smaller ones always move
    if (maybe_fail_alloc()) { errno = ENOMEM; return nullptr; }
    s.top = off + n; s.hi = std::max(s.hi, std::min(s.top + 64, ZS[Z_HEAP])); s.blk[(uintptr_t)p].size = n;
    memset(shadow[K.cur->rank] + ZO[Z_HEAP] + off + old, M_HEAP, n - old); memset((u8 *)p + old, K.cfg.heap_fill, n - old); return p;
  }
  void *q = sim_malloc(n); if (!q) return nullptr; memcpy(q, p, std::min(old, n)); mem_free(K.cur->rank, Z_HEAP, p, "realloc"); return q;
}
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)sim_malloc(n); if (p) memcpy(p, s, n); return p; }
void *sim_reallocarray(void *p, size_t n, size_t z) { if (z && n > SIZE_MAX / z) { errno = ENOMEM; return nullptr; } return sim_realloc(p, n * z); }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int sim_posix_memalign(void **o, size_t, size_t n) { void *p = sim_malloc(n); if (!p) return ENOMEM; *o = p; return 0; }
void *sim_aligned_alloc(size_t, size_t n) { return sim_malloc(n); }
static void arange(const void *p, size_t n, const char *w) {
  if (!n || !K.cur) return; const char *e = mem_check(K.cur->rank, p, n);
  if (e) fail("MEM", "library code in process %d %s %s", K.cur->rank, w, e);
  if (K.cfg.separate) sep_acc(p, n, w[0] == 'f' || !strcmp(w, "copies to"));
}
void *sim_memcpy(void *d, const void *s, size_t n) { if (n > (1ul << 30)) fail("MEM", "copy of absurd size"); arange(s, n, "copies from"); arange(d, n, "copies to"); return memmove(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { return sim_memcpy(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { if (n > (1ul << 30)) fail("MEM", "fill of absurd size"); arange(d, n, "fills"); return memset(d, c, n); }
int sim_memcmp(const void *a, const void *b, size_t n) { arange(a, n, "reads"); arange(b, n, "reads"); return memcmp(a, b, n); }
}
