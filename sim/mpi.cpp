// Simulated MPI: every transfer, match, collective and lock hand-over is a step chosen by the kernel.
#include "sim.h"
#include "include/mpi.h"
#include <complex>
#include <cstdarg>
#include <memory>
#include <ctime>
#include <sys/time.h>
extern "C" void *sim_malloc(size_t);
using namespace sim;
namespace sim {
bool (*on_apply_hook)(int, void *, size_t) = nullptr;
long rma_range_hits = 0; RmaStats rma_stats; int rreq_limit = 0;

// ------------------------------------------------------------------ object tables
enum { OK_COMM = 0x10000000, OK_GROUP = 0x20000000, OK_TYPE = 0x30000000, OK_REQ = 0x40000000, OK_OP = 0x50000000, OK_WIN = 0x60000000, OK_INFO = 0x70000000 };
static const u64 OK_ERRH = 0x80000000ULL, OK_MESS = 0x90000000ULL;
template <class T> struct Table {
  u64 base; std::deque<T> v; const char *name;
  Table(u64 b, const char *n) : base(b), name(n) {}
  u64 add(T &&t) { v.push_back(std::move(t)); return base + 0x100 + v.size() - 1; }
  T *find(u64 h) { if (h < base + 0x100 || h - base - 0x100 >= v.size()) return nullptr; return &v[h - base - 0x100]; }
  T *get(u64 h, const char *fn) {
    T *t = find(h);
    if (!t) fail("MPI-USAGE", "%s: invalid %s handle (0x%llx)", fn, name, (unsigned long long)h);
    if (t->freed) fail("MPI-USAGE", "%s: %s used after it was freed", fn, name);
    if (t->owner >= 0 && K.cur && t->owner != K.cur->rank) fail("MPI-USAGE", "%s: %s belongs to another process", fn, name);
    return t;
  }
};
struct Comm { int owner; int ctx; bool inter; std::vector<int> g, rg; int me; bool freed = false; };
struct Group { int owner; std::vector<int> g; bool freed = false; };
struct Seg { long off, len; int basic; };
struct Type { int owner; long size, lb, ub, tlb, tub; bool committed, builtin; std::vector<Seg> segs; bool freed = false; int basic; bool indexed = false; };
struct RmaOp; struct RecvReq;
struct Req { int owner; int kind; bool done; MPI_Status st; bool freed = false; bool orphan = false; bool rma = false; bool cancelled = false; };
struct Op { int owner; MPI_User_function *fn; bool commute; bool freed = false; };
struct Info { int owner; std::map<std::string, std::string> kv; bool freed = false; };
struct LockReq { int rank, type; bool granted, nocheck; u64 born; bool all; };
struct WinS {
  u32 id; std::vector<int> g; int ctx;
  struct M { u8 *base = nullptr; long size = 0; int unit = 1; bool present = false; bool alloc = false; bool freed = false; std::vector<u8> dirty; };
  std::vector<M> m; std::vector<std::vector<LockReq>> locks; std::vector<std::map<std::string, std::string>> info; int nfreed = 0; int flavor = 1;
};
struct Win { int owner; WinS *s; int me; std::vector<int> ep; int lockall = 0; int lockall_assert = 0; bool fence = false; bool freed = false; };
static Table<Comm> comms(OK_COMM, "communicator"); static Table<Group> groups(OK_GROUP, "group"); static Table<Type> types(OK_TYPE, "datatype");
static Table<Req> reqs(OK_REQ, "request"); static Table<Op> ops_(OK_OP, "operation"); static Table<Win> wins(OK_WIN, "window"); static Table<Info> infos(OK_INFO, "info");
static Table<Op> errhs(OK_ERRH, "error handler");
static std::deque<WinS> winss;
// Separate memory model: the two copies of a window byte are kept as one, with a mark while they would differ: 1 = the public copy was
// updated since the owner last reconciled the copies, 2 = the private copy was.  Using the copy that is out of date is an error.
static void sep_local(WinS *s, int i, const u8 *p, size_t n, bool store, int rank, const char *who) {
  WinS::M &m = s->m[i]; if (!m.present || m.freed || m.dirty.empty() || p + n <= m.base || p >= m.base + m.size) return;
  size_t a = p > m.base ? (size_t)(p - m.base) : 0, b = std::min((size_t)(p + n - m.base), (size_t)m.size);
  for (size_t j = a; j < b; j++) { if (m.dirty[j] & 1) fail("SYNC", "%s %s byte %zu of its share of window %u directly after a one-sided update that was not brought into the private copy", who, store ? "writes" : "reads", j, s->id); if (store) m.dirty[j] |= 2; }
}
void sep_access(int rank, const void *p, size_t n, bool store, const char *who) {
  if (!K.cfg.separate || !n) return;
  for (auto &s : winss) for (size_t i = 0; i < s.g.size(); i++) if (s.g[i] == rank) sep_local(&s, (int)i, (const u8 *)p, n, store, rank, who);
}
static void sep_remote(WinS *s, int t, const u8 *p, size_t n, bool write, int org, const char *fn) {
  WinS::M &m = s->m[t]; if (m.dirty.empty()) return;
  for (size_t j = (size_t)(p - m.base); n--; j++) { if (m.dirty[j] & 2) fail("SYNC", "%s by process %d reaches byte %zu of the share of process %d in window %u, which its owner has stored to directly without bringing it into the public copy", fn, org, j, s->g[t], s->id); if (write) m.dirty[j] |= 1; }
}
static void sep_sync(WinS *s, int i, u8 keep) { for (auto &d : s->m[i].dirty) d &= keep; }
struct Proc { bool inited = false, finalized = false; int level = 0; u64 in_coll = 0; Comm world, self; int nlib = 0; };
static Proc procs[MAXR];
static int NP = 0;

// ------------------------------------------------------------------ basic types
enum { B_U8 = 1, B_CHAR, B_I8, B_UCH, B_I16, B_U16, B_I32, B_U32, B_I64, B_U64, B_LL, B_ULL, B_F, B_D, B_LD, B_CF, B_CD, B_FI, B_DI, B_LI, B_2I, B_SI, B_BOOL, B_BYTE };
struct BInfo { int kind; int size; };
static const BInfo binfo[] = {{0, 0}, {0, 0}, {B_BYTE, 1}, {B_I8, 1}, {B_I8, 1}, {B_UCH, 1}, {B_I16, 2}, {B_U16, 2}, {B_I32, 4}, {B_U32, 4}, {B_I64, 8}, {B_U64, 8}, {B_I64, 8}, {B_U64, 8}, {B_F, 4}, {B_D, 8}, {B_LD, 16}, {B_CF, 8}, {B_CD, 16}, {B_I8, 1}, {B_I16, 2}, {B_I32, 4}, {B_I64, 8}, {B_UCH, 1}, {B_U16, 2}, {B_U32, 4}, {B_U64, 8}, {B_I64, 8}, {B_I64, 8}, {B_I64, 8}, {B_BOOL, 1}, {B_I32, 4}, {B_BYTE, 1}, {B_FI, 8}, {B_DI, 16}, {B_LI, 16}, {B_2I, 8}, {B_SI, 8}};
static const int NBUILTIN = sizeof binfo / sizeof binfo[0];
static Type builtin_types[64];
static int bsize(int basic) { return basic > 0 && basic < NBUILTIN ? binfo[basic].size : 1; }
static void init_builtins() {
  static bool d = false; if (d) return; d = true;
  for (int i = 2; i < NBUILTIN; i++) { Type &t = builtin_types[i]; t.owner = -1; t.size = binfo[i].size; t.lb = t.tlb = 0; t.ub = t.tub = t.size; t.committed = t.builtin = true; t.segs = {{0, t.size, i}}; t.basic = i; }
}
static Type *T(MPI_Datatype d, const char *fn) {
  u64 h = (u64)d; if (h > OK_TYPE + 1 && h <= (u64)OK_TYPE + NBUILTIN - 1) return &builtin_types[h - OK_TYPE];
  return types.get(h, fn);
}
static Comm *C(MPI_Comm c, const char *fn) {
  if (c == MPI_COMM_WORLD) return &procs[K.cur->rank].world; if (c == MPI_COMM_SELF) return &procs[K.cur->rank].self;
  if (c == MPI_COMM_NULL) fail("MPI-USAGE", "%s on the null communicator", fn);
  return comms.get((u64)c, fn);
}
static Win *W(MPI_Win w, const char *fn) { if (w == MPI_WIN_NULL) fail("MPI-USAGE", "%s on the null window", fn); return wins.get((u64)w, fn); }
static std::vector<int> empty_group;

// ------------------------------------------------------------------ call entry
struct Enter {
  Fiber *f; const char *n; int r;
  Enter(const char *name, bool y = true) : n(name) {
    f = K.cur; if (!f) { fprintf(stderr, "sim: MPI call outside a process: %s\n", name); _Exit(3); }
    r = f->rank; Proc &p = procs[r];
    if (!p.inited || p.finalized) fail("MPI-USAGE", "%s called %s", name, p.finalized ? "after finalisation" : "before initialisation");
    if (p.level < MPI_THREAD_MULTIPLE) {
      for (int i = 0; i < K.nfib; i++) if (&K.fib[i] != f && K.fib[i].rank == r && K.fib[i].mpi_depth > 0) fail("MPI-USAGE", "%s called while another thread of process %d is inside %s (thread level %d)", name, r, K.fib[i].mpi ? K.fib[i].mpi : "?", p.level);
      if (p.level <= MPI_THREAD_FUNNELED && f->thr != 0) fail("MPI-USAGE", "%s called from a helper thread although only the main thread may (thread level %d)", name, p.level);
    }
    f->mpi = name; f->mpi_depth++;
    if (y) yield(name);
    f->spin = false;
  }
  ~Enter() { f->mpi_depth--; }
};
#define ENTER(n) Enter _e("MPI_" n)
#define ENTERQ(n) Enter _e("MPI_" n, false)

// ------------------------------------------------------------------ datatypes
static void add_seg(std::vector<Seg> &v, Seg s) { if (s.len == 0) return; if (!v.empty() && v.back().off + v.back().len == s.off && v.back().basic == s.basic) v.back().len += s.len; else v.push_back(s); }
static void flatten(const Type *t, long count, long base, std::vector<Seg> &out) {
  long ext = t->ub - t->lb;
  for (long i = 0; i < count; i++) for (auto &s : t->segs) add_seg(out, {base + i * ext + s.off, s.len, s.basic});
}
static MPI_Datatype mk(std::vector<std::pair<long, const Type *>> parts, bool resized = false, long lb = 0, long ext = 0) {
  Type t; t.owner = K.cur->rank; t.committed = t.builtin = false; t.size = 0; t.basic = -2; bool first = true; t.lb = t.ub = t.tlb = t.tub = 0;
  for (auto &p : parts) {
    for (auto &s : p.second->segs) { add_seg(t.segs, {p.first + s.off, s.len, s.basic}); t.basic = t.basic == -2 ? s.basic : t.basic == s.basic ? t.basic : -1; }
    t.size += p.second->size;
    long l = p.first + p.second->lb, u = p.first + p.second->ub; if (first) { t.lb = l; t.ub = u; first = false; } else { t.lb = std::min(t.lb, l); t.ub = std::max(t.ub, u); }
  }
  bool f2 = true; for (auto &s : t.segs) { if (f2) { t.tlb = s.off; t.tub = s.off + s.len; f2 = false; } else { t.tlb = std::min(t.tlb, s.off); t.tub = std::max(t.tub, s.off + s.len); } }
  if (resized) { t.lb = lb; t.ub = lb + ext; }
  return (MPI_Datatype)types.add(std::move(t));
}
static void need_commit(const Type *t, const char *fn) { if (!t->committed) fail("MPI-USAGE", "%s: datatype not committed", fn); }

// ------------------------------------------------------------------ RMA operations
enum RK { R_PUT, R_GET, R_ACC, R_GACC, R_CAS };
struct RmaOp {
  u32 id; WinS *w; int org, tgt /*group ranks*/, orank, trank /*world*/; RK kind; u64 op; int basic; std::vector<Seg> o, t, r; // o,r absolute; t relative to window base
  std::vector<u8> data, old, cmp; size_t n, applied; bool captured, fetched, stored, delivered; int needed; u64 born, holdto; u64 req; bool fifo; u64 ohash; bool check_hash; u32 ndeps; std::vector<u32> deps; bool depx; bool lat; std::vector<u8> pend; bool done; bool rflag; const char *fn;
};
static std::deque<RmaOp> oppool; static std::vector<RmaOp *> pend; static u32 next_op = 1; static long rr_out[MAXR];
int pending_ops_total() { return (int)pend.size(); }

static u64 seg_hash(const std::vector<Seg> &s) { u64 h = 7; for (auto &x : s) { const u8 *p = (const u8 *)x.off; for (long i = 0; i < x.len; i++) h = (h ^ p[i]) * 1099511628211ULL; } return h; }
static void apply_op(u64 op, int basic, u8 *tgt, const u8 *src, size_t n, const char *fn);
static bool is_acc(RK k) { return k >= R_ACC; }
static bool fetches(RK k) { return k == R_GET || k == R_GACC || k == R_CAS; }
static bool local_done(const RmaOp *o) { return fetches(o->kind) ? o->delivered : o->captured; }
static bool overlap(const RmaOp *a, const RmaOp *b) { for (auto &x : a->t) for (auto &y : b->t) if (x.off < y.off + y.len && y.off < x.off + x.len) return true; return false; }

static bool op_lock_ok(RmaOp *o) {
  for (auto &l : o->w->locks[o->tgt]) if (l.rank == o->org && l.granted) return true;
  return false;
}
static bool target_progress(RmaOp *o) {
  if (!K.cfg.weak_progress || o->trank == o->orank) return true;
  Proc &p = procs[o->trank]; if (p.finalized) return true; bool any = false;
  for (int i = 0; i < K.nfib; i++) { Fiber &f = K.fib[i]; if (f.rank == o->trank && f.st != FS_DONE) { any = true; if (f.mpi_depth > 0) return true; } }
  return !any;
}
static void deps_done(RmaOp *o) { for (auto q : pend) if (!q->deps.empty()) { auto it = std::find(q->deps.begin(), q->deps.end(), o->id); if (it != q->deps.end()) q->deps.erase(it); } }
static void finish_if(RmaOp *o) {
  if (!o->done && o->stored && o->captured && (!fetches(o->kind) || o->delivered)) { o->done = true; }
}
static void req_done(RmaOp *o) {
  if (o->req && local_done(o)) { Req *q = reqs.find(o->req); if (q) { q->done = true; } if (o->rflag) { rr_out[o->orank]--; o->rflag = false; } o->req = 0; }
}
static void capture(RmaOp *o) {
  o->data.clear(); 
  for (auto &s : o->o) {
    const char *e = mem_check(o->orank, (void *)s.off, s.len);
    if (e) fail("BUFFER", "%s by process %d: the transfer reads its source from %s (the source must stay valid until local completion)", o->fn, o->orank, e);
  }
  if (o->check_hash && seg_hash(o->o) != o->ohash) fail("BUFFER", "%s by process %d: the source buffer was modified before local completion", o->fn, o->orank);
  for (auto &s : o->o) o->data.insert(o->data.end(), (u8 *)s.off, (u8 *)s.off + s.len);
  if (K.cfg.separate) for (auto &s : o->o) sep_access(o->orank, (void *)s.off, s.len, false, o->fn);
  o->captured = true; ev("op%u captured", o->id); req_done(o);
}
// visit target bytes [from,to) of the operation
template <class F> static void each_target(RmaOp *o, size_t from, size_t to, F f) {
  size_t pos = 0; u8 *base = o->w->m[o->tgt].base;
  for (auto &s : o->t) { size_t a = std::max(from, pos), b = std::min(to, pos + (size_t)s.len); if (a < b) f(base + s.off + (a - pos), a, b - a); pos += s.len; if (pos >= to) break; }
}
static void store_pending(RmaOp *o) {
  if (K.cfg.separate) each_target(o, 0, o->n, [&](u8 *p, size_t, size_t k) { sep_remote(o->w, o->tgt, p, k, o->op != (u64)MPI_NO_OP, o->orank, o->fn); });
  each_target(o, 0, o->n, [&](u8 *p, size_t at, size_t n) { memcpy(p, o->pend.data() + at, n); if (on_apply_hook) on_apply_hook(o->trank, p, n); });
  o->stored = true; ev("op%u visible", o->id); deps_done(o); finish_if(o);
}
static void apply_piece(RmaOp *o, size_t n) {
  WinS::M &m = o->w->m[o->tgt];
  if (m.freed) fail("MPI-USAGE", "%s by process %d reaches a window that was already freed at the target", o->fn, o->orank);
  size_t from = o->applied, to = std::min(o->n, from + n);
  if (K.cfg.separate) each_target(o, from, to, [&](u8 *p, size_t, size_t k) { sep_remote(o->w, o->tgt, p, k, o->kind != R_GET && o->op != (u64)MPI_NO_OP && !o->lat, o->orank, o->fn); });
  if (is_acc(o->kind)) // earlier atomics whose store is not yet visible come first
    for (auto q : pend) if (q != o && q->lat && q->fetched && !q->stored && q->w == o->w && q->tgt == o->tgt && overlap(q, o)) store_pending(q);
  if (fetches(o->kind)) { if (o->old.size() < o->n) o->old.resize(o->n); each_target(o, from, to, [&](u8 *p, size_t at, size_t k) { memcpy(o->old.data() + at, p, k); }); }
  if (o->lat && o->kind != R_GET) {
    o->pend.resize(o->n); each_target(o, from, to, [&](u8 *p, size_t at, size_t k) { memcpy(o->pend.data() + at, p, k); });
    if (o->kind == R_CAS) { if (o->old == o->cmp) o->pend = o->data; }
    else apply_op(o->op, o->basic, o->pend.data() + from, o->data.data() + from, to - from, o->fn);
    fire(F_rmw_late_visibility);
  } else if (o->kind != R_GET) {
    if (o->kind == R_CAS) { if (o->old == o->cmp) each_target(o, 0, o->n, [&](u8 *p, size_t at, size_t k) { memcpy(p, o->data.data() + at, k); }); }
    else if (o->kind == R_PUT) each_target(o, from, to, [&](u8 *p, size_t at, size_t k) { memcpy(p, o->data.data() + at, k); });
    else {
      std::vector<u8> tmp(to - from); each_target(o, from, to, [&](u8 *p, size_t at, size_t k) { memcpy(tmp.data() + (at - from), p, k); });
      apply_op(o->op, o->basic, tmp.data(), o->data.data() + from, to - from, o->fn);
      each_target(o, from, to, [&](u8 *p, size_t at, size_t k) { memcpy(p, tmp.data() + (at - from), k); });
    }
    if (on_apply_hook) each_target(o, from, to, [&](u8 *p, size_t, size_t k) { on_apply_hook(o->trank, p, k); });
  }
  rma_stats.pieces++; o->applied = to; ev("op%u applied %zu..%zu/%zu", o->id, from, to, o->n);
  if (o->applied == o->n) { o->fetched = true; if (!o->lat || o->kind == R_GET) { o->stored = true; deps_done(o); } finish_if(o); }
}
static void deliver(RmaOp *o) {
  size_t pos = 0;
  for (auto &s : o->r) {
    const char *e = mem_check(o->orank, (void *)s.off, s.len);
    if (e) fail("BUFFER", "%s by process %d: the result is delivered into %s (the destination must stay valid until completion)", o->fn, o->orank, e);
    if (K.cfg.separate) sep_access(o->orank, (void *)s.off, s.len, true, o->fn);
    memcpy((void *)s.off, o->old.data() + pos, s.len); pos += s.len;
    if (on_apply_hook) on_apply_hook(o->orank, (void *)s.off, s.len);
  }
  o->delivered = true; ev("op%u delivered", o->id); finish_if(o); req_done(o);
}
static void reap() {
  size_t j = 0; for (size_t i = 0; i < pend.size(); i++) { if (pend[i]->done) { pend[i]->o.clear(); pend[i]->t.clear(); pend[i]->r.clear(); } else pend[j++] = pend[i]; } pend.resize(j);
}
static bool can_apply(RmaOp *o) { return (o->captured) && o->applied < o->n && o->deps.empty() && op_lock_ok(o) && target_progress(o); }

// ------------------------------------------------------------------ messages
struct Msg { u32 id; int src, dst, ctx, tag; std::vector<u8> data; bool arrived = false, matched = false; u64 sreq = 0; u64 born = 0, holdto = 0; };
static std::deque<Msg> msgpool; static std::vector<Msg *> inflight; static std::vector<Msg *> unexp[MAXR]; static u32 next_msg = 1;
struct RecvReq { void *buf; long count; const Type *type; int src, tag, ctx; u64 req; int rank; u64 type_h; bool done = false; };
static std::vector<RecvReq> posted[MAXR];
static int ctx_rank(int ctx, int world);
static void complete_recv(RecvReq &r, Msg *m) {
  long cap = r.count * r.type->size;
  Req *q = reqs.find(r.req);
  if ((long)m->data.size() > cap) fail("ABORT", "message of %zu bytes truncated to %ld (process %d)", m->data.size(), cap, r.rank);
  std::vector<Seg> s; flatten(r.type, r.count, (long)r.buf, s); size_t pos = 0;
  for (auto &x : s) { if (pos >= m->data.size()) break; size_t k = std::min((size_t)x.len, m->data.size() - pos);
    const char *e = mem_check(r.rank, (void *)x.off, k); if (e) fail("BUFFER", "receive in process %d delivers into %s", r.rank, e);
    memcpy((void *)x.off, m->data.data() + pos, k); pos += k; }
  q->done = true; q->st.MPI_TAG = m->tag; q->st._ucount = m->data.size(); q->st.MPI_SOURCE = ctx_rank(m->ctx, m->src); m->matched = true;
  if (m->sreq) { Req *sq = reqs.find(m->sreq); if (sq) sq->done = true; }
  ev("msg%u matched by %d", m->id, r.rank);
}
static bool matches(const Msg *m, int src, int tag, int ctx) { return m->ctx == ctx && (src < 0 || src == m->src) && (tag == MPI_ANY_TAG || tag == m->tag); }
// candidates: first matching message of each source, in arrival order
static Msg *find_unexp(int rank, int src, int tag, int ctx, bool pick) {
  std::vector<Msg *> c; std::set<int> seen;
  for (auto m : unexp[rank]) if (matches(m, src, tag, ctx) && !seen.count(m->src)) { seen.insert(m->src); c.push_back(m); }
  if (c.empty()) return nullptr;
  if (c.size() == 1 || !pick) return c[0];
  fire(F_anysource_choice); return c[choose((u32)c.size())];
}
static void arrive(Msg *m) {
  inflight.erase(std::find(inflight.begin(), inflight.end(), m)); m->arrived = true; ev("msg%u arrived", m->id);
  auto &pl = posted[m->dst];
  for (size_t i = 0; i < pl.size(); i++) if (matches(m, pl[i].src, pl[i].tag, pl[i].ctx)) { RecvReq r = pl[i]; pl.erase(pl.begin() + i); complete_recv(r, m); return; }
  unexp[m->dst].push_back(m);
}

// ------------------------------------------------------------------ network actions
static bool grantable(WinS *w, int t, LockReq &l) {
  if (l.granted) return false;
  for (auto &o : w->locks[t]) if (&o != &l && o.granted && !(o.type == MPI_LOCK_SHARED && l.type == MPI_LOCK_SHARED)) return false;
  return true;
}
enum { A_CAPTURE, A_APPLY, A_DELIVER, A_STORE, A_MSG, A_LOCK };
void net_collect(std::vector<Act> &v) {
  reap();
  for (auto o : pend) {
    bool old = K.step - o->born > (u64)K.cfg.lazy_age;
    auto held = [&](int lvl) { if (K.step < o->holdto) return true; return K.cfg.lazy && o->needed < lvl && !old; };
    if (!o->captured) v.push_back({A_CAPTURE, o, o->born, o->needed > 0, held(1)});
    else if (can_apply(o)) v.push_back({A_APPLY, o, o->born, o->needed > 1, held(fetches(o->kind) ? 1 : 2)});
    else if (fetches(o->kind) && o->fetched && !o->delivered) v.push_back({A_DELIVER, o, o->born, o->needed > 0, held(1)});
    else if (o->fetched && o->lat && !o->stored) v.push_back({A_STORE, o, o->born, o->needed > 1, held(2)});
  }
  for (size_t i = 0; i < inflight.size(); i++) {
    Msg *m = inflight[i]; bool head = true; for (size_t j = 0; j < i; j++) if (inflight[j]->src == m->src && inflight[j]->dst == m->dst && inflight[j]->ctx == m->ctx) { head = false; break; }
    if (head) v.push_back({A_MSG, m, m->born, false, K.step < m->holdto});
  }
  for (auto &w : winss) for (size_t t = 0; t < w.locks.size(); t++) for (auto &l : w.locks[t]) if (grantable(&w, (int)t, l)) v.push_back({A_LOCK, (void *)&l, l.born, true, false});
}
void net_fire(const Act &a) {
  switch (a.type) {
    case A_CAPTURE: fire(F_op_late_capture); capture((RmaOp *)a.obj); finish_if((RmaOp *)a.obj); break;
    case A_APPLY: {
      RmaOp *o = (RmaOp *)a.obj; size_t left = o->n - o->applied, k = left; bool tear = left > 1 && choose_pct(K.cfg.tear_pct);
      if (tear) { size_t u = is_acc(o->kind) ? bsize(o->basic) : 1; if (o->kind == R_CAS || o->lat) u = left; size_t units = left / u; if (units > 1) { k = u * (1 + choose((u32)std::min<size_t>(units - 1, 64))); fire(F_op_torn); } }
      apply_piece(o, k); break; }
    case A_DELIVER: fire(F_op_late_delivery); deliver((RmaOp *)a.obj); break;
    case A_STORE: store_pending((RmaOp *)a.obj); break;
    case A_MSG: { Msg *m = (Msg *)a.obj; if (K.step - m->born > 30) fire(F_p2p_delayed); arrive(m); break; }
    case A_LOCK: { LockReq *l = (LockReq *)a.obj; l->granted = true; ev("lock granted to %d", l->rank); break; }
  }
  reap();
}
std::string net_describe() {
  char b[256]; int locks = 0; for (auto &w : winss) for (auto &t : w.locks) for (auto &l : t) if (!l.granted) locks++;
  int un = 0; for (int r = 0; r < NP; r++) un += (int)unexp[r].size();
  snprintf(b, sizeof b, "transport: %zu transfers, %zu messages in flight, %d unreceived, %d lock requests waiting", pend.size(), inflight.size(), un, locks); return b;
}

// ------------------------------------------------------------------ collectives
struct Part { bool in = false, out = false; std::vector<u8> data; std::vector<long> v; u64 h = 0; };
struct Coll { const char *kind; std::vector<long> sig; int first; std::vector<int> mem; std::vector<Part> parts; int nin = 0, nout = 0; bool computed = false; std::vector<u8> result; std::map<std::vector<int>, int> ctxs; std::vector<long> res; void *obj = nullptr; u64 left_early = 0; };
struct Ctx { std::vector<int> mem; std::vector<u32> seq; std::map<u32, Coll> live; };
static std::deque<Ctx> ctxs;
static int ctx_rank(int ctx, int world) { auto &m = ctxs[ctx].mem; for (size_t i = 0; i < m.size(); i++) if (m[i] == world) return (int)i; return -1; }
static int new_ctx(const std::vector<int> &m) { Ctx c; c.mem = m; c.seq.assign(m.size(), 0); ctxs.push_back(std::move(c)); return (int)ctxs.size() - 1; }
struct CollRun {
  Ctx &cx; u32 seq; Coll &c; int me; int rank;
  static int idx(const std::vector<int> &m, int r) { for (size_t i = 0; i < m.size(); i++) if (m[i] == r) return (int)i; return -1; }
  static Coll &get(Ctx &cx, u32 seq, const char *kind, const std::vector<long> &sig, int rank) {
    auto it = cx.live.find(seq);
    if (it == cx.live.end()) { Coll c; c.kind = kind; c.sig = sig; c.first = rank; c.mem = cx.mem; c.parts.resize(cx.mem.size()); it = cx.live.emplace(seq, std::move(c)).first; }
    Coll &c = it->second;
    if (strcmp(c.kind, kind)) fail("MPI-USAGE", "collective mismatch: process %d calls %s while process %d called %s on the same communicator", rank, kind, c.first, c.kind);
    if (c.sig != sig) { std::string a, b; for (long x : c.sig) a += std::to_string(x) + " "; for (long x : sig) b += std::to_string(x) + " "; fail("MPI-USAGE", "%s: arguments differ between process %d (%s) and process %d (%s)", kind, c.first, a.c_str(), rank, b.c_str()); }
    return c;
  }
  static u64 &busy(int rank) { return procs[rank].in_coll; }
  CollRun(Comm *cm, const char *kind, std::vector<long> sig, int rk) : cx(ctxs[cm->ctx]), seq(0), c(*prep(cm, kind, sig, rk)), me(idx(cx.mem, rk)), rank(rk) { }
  Coll *prep(Comm *cm, const char *kind, std::vector<long> &sig, int rk) {
    int i = idx(cx.mem, rk); seq = cx.seq[i]++;
    for (auto &l : cx.live) if (l.first < seq && l.second.parts[i].in && !l.second.parts[i].out) fail("MPI-USAGE", "process %d calls %s while another of its threads is in %s on the same communicator", rk, kind, l.second.kind);
    return &get(cx, seq, kind, sig, rk);
  }
  Part &mine() { return c.parts[me]; }
  void arrive() { mine().in = true; c.nin++; ev("%s arrive", c.kind); }
  void wait_all() { Coll *p = &c; wait_until([p] { return p->nin == (int)p->parts.size(); }, c.kind); }
  void wait_member(int i) { Coll *p = &c; if (c.nin < (int)c.parts.size()) fire(F_coll_early_leave); wait_until([p, i] { return p->parts[i].in; }, c.kind); }
  void leave() { mine().out = true; if (++c.nout == (int)c.parts.size()) cx.live.erase(seq); }
};
static void apply_basic(u64 op, int basic, u8 *t, const u8 *s);
static void apply_op(u64 op, int basic, u8 *tgt, const u8 *src, size_t n, const char *fn) {
  if (op == (u64)MPI_NO_OP) return;
  if (op == (u64)MPI_REPLACE) { memcpy(tgt, src, n); return; }
  if (basic <= 0) fail("MPI-USAGE", "%s: accumulate with mixed basic types", fn);
  int sz = bsize(basic); for (size_t i = 0; i + sz <= n; i += sz) apply_basic(op, basic, tgt + i, src + i);
}
template <class N> static void num_op(u64 op, u8 *t, const u8 *s) {
  N a, b; memcpy(&a, t, sizeof a); memcpy(&b, s, sizeof b); 
  switch (op - OK_OP) { case 2: a = a > b ? a : b; break; case 3: a = a < b ? a : b; break; case 4: a = (N)(a + b); break; case 5: a = (N)(a * b); break; case 6: a = (a && b); break; case 8: a = (a || b); break; case 10: a = (!a != !b); break; default: fail("MPI-USAGE", "operation not defined for this type"); }
  memcpy(t, &a, sizeof a);
}
template <class N> static void int_op(u64 op, u8 *t, const u8 *s) {
  N a, b; memcpy(&a, t, sizeof a); memcpy(&b, s, sizeof b);
  switch (op - OK_OP) { case 4: { typedef std::make_unsigned_t<N> U; a = (N)((U)a + (U)b); break; } case 5: { a = (N)((unsigned long)a * (unsigned long)b); break; } case 7: a &= b; break; case 9: a |= b; break; case 11: a ^= b; break; default: num_op<N>(op, t, s); return; }
  memcpy(t, &a, sizeof a);
}
template <class V> static void loc_op(u64 op, u8 *t, const u8 *s) {
  struct P { V v; int i; }; P a, b; memcpy(&a, t, sizeof a); memcpy(&b, s, sizeof b);
  bool mx = op - OK_OP == 12; bool takeb = mx ? b.v > a.v : b.v < a.v; if (a.v == b.v) a.i = std::min(a.i, b.i); else if (takeb) { a.v = b.v; a.i = b.i; } memcpy(t, &a, sizeof a);
}
template <class V> static void cpl_op(u64 op, u8 *t, const u8 *s) { std::complex<V> a, b; memcpy((void*)&a, t, sizeof a); memcpy((void*)&b, s, sizeof b); if (op == (u64)MPI_SUM) a += b; else if (op == (u64)MPI_PROD) a *= b; else fail("MPI-USAGE", "operation not defined for complex"); memcpy(t, (void*)&a, sizeof a); }
static void apply_basic(u64 op, int basic, u8 *t, const u8 *s) {
  if (op == (u64)MPI_REPLACE) { memcpy(t, s, bsize(basic)); return; }
  switch (binfo[basic].kind) {
    case B_I8: int_op<int8_t>(op, t, s); break; case B_UCH: int_op<uint8_t>(op, t, s); break; case B_I16: int_op<int16_t>(op, t, s); break; case B_U16: int_op<uint16_t>(op, t, s); break;
    case B_I32: int_op<int32_t>(op, t, s); break; case B_U32: int_op<uint32_t>(op, t, s); break; case B_I64: int_op<int64_t>(op, t, s); break; case B_U64: int_op<uint64_t>(op, t, s); break;
    case B_F: num_op<float>(op, t, s); break; case B_D: num_op<double>(op, t, s); break; case B_LD: num_op<long double>(op, t, s); break;
    case B_CF: cpl_op<float>(op, t, s); break; case B_CD: cpl_op<double>(op, t, s); break;
    case B_FI: loc_op<float>(op, t, s); break; case B_DI: loc_op<double>(op, t, s); break; case B_LI: loc_op<long>(op, t, s); break; case B_2I: loc_op<int>(op, t, s); break; case B_SI: loc_op<short>(op, t, s); break;
    case B_BOOL: case B_BYTE: { u64 k = op - OK_OP; if (k == 7) *t &= *s; else if (k == 9) *t |= *s; else if (k == 11) *t ^= *s; else if (binfo[basic].kind == B_BOOL && k == 6) *t = *t && *s; else if (binfo[basic].kind == B_BOOL && k == 8) *t = *t || *s; else fail("MPI-USAGE", "arithmetic operation on untyped bytes"); break; }
    default: fail("MPI-USAGE", "operation on unsupported type");
  }
}
// combine operands (rank order) with random association; user operations run in the calling process
static void reduce_all(Coll &c, MPI_Op op, MPI_Datatype dt, long count, std::vector<u8> &out, int upto) {
  const Type *t = T(dt, "reduction"); long ext = t->ub - t->lb; long tot = count * ext; (void)tot;
  Op *uo = (u64)op >= OK_OP + 0x100 ? ops_.get((u64)op, "reduction") : nullptr; bool comm = uo ? uo->commute : true;
  out.assign((size_t)(count * ext), 0);
  std::vector<std::pair<long, long>> seg; long a = 0;
  if (count > 1 && choose_pct(K.cfg.segment_pct)) { fire(F_reduce_segmented); while (a < count) { long k = 1 + choose((u32)std::min<long>(count - a, 16)); seg.push_back({a, k}); a += k; if (seg.size() > 4) break; } }
  if (a < count) seg.push_back({a, count - a});
  bool perm = choose_pct(K.cfg.permute_pct); if (perm) fire(F_reduce_permuted);
  int me = K.cur->rank;
  for (auto &sg : seg) {
    if (sg.second == 0) continue;
    std::vector<std::vector<u8>> v; for (int i = 0; i < upto; i++) v.push_back(std::vector<u8>(c.parts[i].data.begin() + sg.first * ext, c.parts[i].data.begin() + (sg.first + sg.second) * ext));
    while (v.size() > 1) {
      size_t i = 0, j = 1; bool swap = false;
      if (perm) { i = choose((u32)v.size() - 1); j = i + 1; if (comm) { if (v.size() > 2) { j = i + 1 + choose((u32)(v.size() - 1 - i)); } swap = choose(2); } }
      std::vector<u8> l = v[i], r = v[j]; if (swap) std::swap(l, r);
      if (uo) {
        size_t n = l.size(); u8 *pi = (u8 *)mem_alloc(me, Z_PRIV, n, M_TMP, false), *po = (u8 *)mem_alloc(me, Z_PRIV, n, M_TMP, false); memcpy(pi, l.data(), n); memcpy(po, r.data(), n);
        int len = (int)sg.second; MPI_Datatype d2 = dt; uo->fn(pi, po, &len, &d2); r.assign(po, po + n); mem_free(me, Z_PRIV, pi, "reduce"); mem_free(me, Z_PRIV, po, "reduce");
      } else { // inout = in op inout; both orders equal for predefined operations
        if (op == MPI_OP_NULL || op == MPI_REPLACE || op == MPI_NO_OP) fail("MPI-USAGE", "invalid operation in a reduction");
        for (long e = 0; e < sg.second; e++) { for (auto &s : t->segs) { int sz = bsize(s.basic); for (long o = 0; o < s.len; o += sz) apply_basic((u64)op, s.basic, l.data() + e * ext + s.off + o, r.data() + e * ext + s.off + o); } } r = l;
      }
      v[i] = r; v.erase(v.begin() + j);
    }
    memcpy(out.data() + sg.first * ext, v[0].data(), v[0].size());
  }
}
static std::vector<u8> raw_in(int rank, const void *b, MPI_Datatype d, long count, const char *fn) {  // extent-preserving copy
  const Type *t = T(d, fn); need_commit(t, fn); long ext = t->ub - t->lb; size_t n = (size_t)(count * ext); if (n) mem_assert(rank, b, n, fn); return std::vector<u8>((const u8 *)b, (const u8 *)b + n);
}
static std::vector<u8> pack(int rank, const void *b, const Type *t, long count, const char *fn) {
  need_commit(t, fn); std::vector<Seg> s; flatten(t, count, (long)b, s); std::vector<u8> o; for (auto &x : s) { mem_assert(rank, (void *)x.off, x.len, fn); o.insert(o.end(), (u8 *)x.off, (u8 *)x.off + x.len); } return o;
}
static void unpack(int rank, void *b, const Type *t, long count, const u8 *d, size_t n, const char *fn) {
  need_commit(t, fn); std::vector<Seg> s; flatten(t, count, (long)b, s); size_t pos = 0; for (auto &x : s) { size_t k = std::min((size_t)x.len, n - pos); if (!k) break; mem_assert(rank, (void *)x.off, k, fn); memcpy((void *)x.off, d + pos, k); pos += k; }
}

// ------------------------------------------------------------------ intercommunicator rendezvous
struct Side { int l1, l2, tag, pctx; std::vector<int> g; int ctx = -1; int peer = -1; u32 id = 0; };
static std::deque<Side> sides;
struct CGroup { int ctx, tag; std::vector<int> g; std::set<int> in; int nctx = -1; bool full = false; };
static std::deque<CGroup> cgroups;

// ------------------------------------------------------------------ reset
static void thr_reset();
void net_reset() {
  thr_reset();
  init_builtins(); comms.v.clear(); groups.v.clear(); types.v.clear(); reqs.v.clear(); ops_.v.clear(); wins.v.clear(); infos.v.clear(); errhs.v.clear(); winss.clear(); oppool.clear(); pend.clear(); next_op = 1; msgpool.clear(); inflight.clear(); next_msg = 1; ctxs.clear(); sides.clear(); cgroups.clear();
  for (int r = 0; r < MAXR; r++) { unexp[r].clear(); posted[r].clear(); rr_out[r] = 0; }
  rma_stats = RmaStats(); on_apply_hook = nullptr; rma_range_hits = 0;
}
void mpi_world_begin(int n) {
  NP = n; std::vector<int> all; for (int i = 0; i < n; i++) all.push_back(i);
  int wc = new_ctx(all);
  for (int r = 0; r < n; r++) { Proc &p = procs[r]; p = Proc(); p.world = Comm{r, wc, false, all, {}, r}; p.self = Comm{r, new_ctx({r}), false, {r}, {}, 0}; }
}
Leak mpi_leaks(int r) {
  Leak l{}; for (auto &x : comms.v) l.comms += x.owner == r && !x.freed; for (auto &x : groups.v) l.groups += x.owner == r && !x.freed; for (auto &x : types.v) l.types += x.owner == r && !x.freed;
  for (auto &x : ops_.v) l.ops += x.owner == r && !x.freed; for (auto &x : infos.v) l.infos += x.owner == r && !x.freed; for (auto &x : wins.v) l.wins += x.owner == r && !x.freed; for (auto &x : reqs.v) l.reqs += x.owner == r && !x.freed && !x.orphan;
  l.mems = (long)mem_live(r, Z_WIN, nullptr); l.msgs = (long)unexp[r].size(); for (auto m : inflight) l.msgs += m->dst == r; l.posted = (long)posted[r].size(); return l;
}
static u64 new_req(int kind) { Req q; q.owner = K.cur->rank; q.kind = kind; q.done = false; memset(&q.st, 0, sizeof q.st); q.st.MPI_SOURCE = MPI_ANY_SOURCE; q.st.MPI_TAG = MPI_ANY_TAG; return reqs.add(std::move(q)); }
static void free_req(u64 h) { Req *q = reqs.find(h); if (q) q->freed = true; }

// ------------------------------------------------------------------ issue an RMA operation
static const char *epoch_err(Win *w, int tgt) {
  if (w->lockall) return nullptr; if (tgt < (int)w->ep.size() && w->ep[tgt]) return nullptr; if (w->fence) return nullptr; return "outside any access epoch";
}
static void issue(const char *fn, RK kind, Win *w, int tgt, long disp, std::vector<Seg> o, std::vector<Seg> r, const Type *tt, long tcount, u64 op, std::vector<Seg> cmp, u64 req) {
  int rank = K.cur->rank; WinS *s = w->s;
  if (tgt == MPI_PROC_NULL) { if (req) reqs.find(req)->done = true; return; }
  if (tgt < 0 || tgt >= (int)s->g.size()) fail("MPI-USAGE", "%s: target rank %d is not in the window's group of %zu", fn, tgt, s->g.size());
  if (const char *e = epoch_err(w, tgt)) fail("MPI-USAGE", "%s by process %d to rank %d %s", fn, rank, tgt, e);
  need_commit(tt, fn); if (tcount < 0) fail("MPI-USAGE", "%s: negative count %ld", fn, tcount);
  WinS::M &m = s->m[tgt]; std::vector<Seg> t; flatten(tt, tcount, disp * m.unit, t);
  long tn = 0, on = 0, rn = 0; for (auto &x : t) tn += x.len; for (auto &x : o) on += x.len; for (auto &x : r) rn += x.len;
  if (tn && (disp < 0)) { rma_range_hits++; fail("RANGE", "%s by process %d: negative displacement %ld at process %d", fn, rank, disp, s->g[tgt]); }
  for (auto &x : t) if (x.off < 0 || x.off + x.len > m.size) { rma_range_hits++; fail("RANGE", "%s by process %d touches bytes [%ld,%ld) of a window of %ld bytes at process %d", fn, rank, x.off, x.off + x.len, m.size, s->g[tgt]); }
  if (m.freed && tn) fail("MPI-USAGE", "%s to a window already freed at the target", fn);
  if (kind == R_PUT || kind == R_ACC || (kind == R_GACC && op != (u64)MPI_NO_OP) || kind == R_CAS) if (on != tn) fail("MPI-USAGE", "%s: %ld bytes at the origin but %ld at the target", fn, on, tn);
  if (fetches(kind) && rn != tn) fail("MPI-USAGE", "%s: result of %ld bytes but %ld at the target", fn, rn, tn);
  auto twice = [](std::vector<Seg> v) { std::sort(v.begin(), v.end(), [](const Seg &a, const Seg &b) { return a.off < b.off; }); for (size_t i = 1; i < v.size(); i++) if (v[i].off < v[i - 1].off + v[i - 1].len) return true; return false; };
  if (kind != R_GET && op != (u64)MPI_NO_OP && t.size() > 1 && twice(t)) fail("MPI-USAGE", "%s by process %d: the target datatype names some bytes twice", fn, rank);
  if (fetches(kind) && r.size() > 1 && twice(r)) fail("MPI-USAGE", "%s by process %d: the result datatype names some bytes twice", fn, rank);
  if (strcmp(sim::sim_variant, "mpich") && tt->indexed && t.size() > 1 && t[0].len == t[1].len) std::swap(t[0], t[1]);   // Open MPI moves data wrongly with indexed datatypes
  int basic = -2; for (auto &x : t) basic = basic == -2 ? x.basic : basic == x.basic ? basic : -1;
  if (is_acc(kind) && op != (u64)MPI_NO_OP) { for (auto &x : o) if (x.basic != basic) fail("MPI-USAGE", "%s: origin and target use different element types", fn); if (tn && op >= OK_OP + 0x100) fail("MPI-USAGE", "%s: user-defined operation", fn); }
  if (is_acc(kind) && !strcmp(sim::sim_variant, "mpich")) {   // what the program told the library it would never do
    auto &inf = s->info[w->me]; auto it = inf.find("accumulate_noncontig_dtype"); auto gaps = [](const std::vector<Seg> &v) { for (size_t i = 1; i < v.size(); i++) if (v[i].off != v[i - 1].off + v[i - 1].len) return true; return false; };
    if (it != inf.end() && it->second == "false" && (gaps(t) || gaps(o))) fail("MPI-USAGE", "%s with a non-contiguous datatype on a window declared not to use any", fn);
    it = inf.find("accumulate_max_bytes"); long mx = it == inf.end() ? -1 : atol(it->second.c_str()); if (it != inf.end() && mx >= 0 && tn > mx && op != (u64)MPI_NO_OP) fail("MPI-USAGE", "%s of %ld bytes on a window declared to be given at most %ld", fn, tn, mx);
  }
  if (is_acc(kind) && tn) { int sz = bsize(basic); for (auto &x : t) if (((u64)m.base + x.off) % (sz > 8 ? 8 : sz) != 0 && sz > 1) { /* misaligned atomics are tolerated */ } }
  for (auto &x : o) { const char *e = mem_check(rank, (void *)x.off, x.len); if (e) fail("BUFFER", "%s by process %d: source in %s", fn, rank, e); }
  for (auto &x : r) { const char *e = mem_check(rank, (void *)x.off, x.len); if (e) fail("BUFFER", "%s by process %d: destination in %s", fn, rank, e); }
  rma_stats.ops++;
  if (tn == 0) { if (req) reqs.find(req)->done = true; return; }
  oppool.push_back(RmaOp()); RmaOp *p = &oppool.back();
  p->id = next_op++; p->w = s; p->org = w->me; p->tgt = tgt; p->orank = rank; p->trank = s->g[tgt]; p->kind = kind; p->op = op; p->basic = basic; p->o = std::move(o); p->t = std::move(t); p->r = std::move(r); p->n = tn; p->applied = 0;
  p->captured = p->o.empty(); p->fetched = p->stored = p->delivered = p->done = false; p->needed = 0; p->depx = false; p->born = K.step; p->holdto = 0; p->req = req; p->fn = fn; p->lat = false; p->rflag = false; p->ndeps = 0;
  if (kind == R_GET) p->stored = false;
  if (kind == R_GACC && op == (u64)MPI_NO_OP) { p->o.clear(); p->captured = true; p->data.assign(tn, 0); }
  for (auto &x : cmp) p->cmp.insert(p->cmp.end(), (u8 *)x.off, (u8 *)x.off + x.len);
  p->check_hash = true; for (auto &x : p->o) if (mem_state((void *)x.off) == M_WIN) p->check_hash = false;
  if (p->check_hash) p->ohash = seg_hash(p->o);
  if (req) { p->rflag = true; rr_out[rank]++; if ((u64)rr_out[rank] > rma_stats.max_rreq) rma_stats.max_rreq = rr_out[rank]; if (rreq_limit && rr_out[rank] > rreq_limit) fail("REQLIMIT", "process %d has %ld request-based transfers outstanding; the transport allows %d", rank, rr_out[rank], rreq_limit); }
  if (is_acc(kind)) { // same_op: a promise only the program can make
    auto it = s->info[w->me].find("accumulate_ops"); if (it != s->info[w->me].end() && it->second == "same_op" && !env.count("ARMCI_USE_SAME_OP")) for (auto q : pend) if (q->w == s && q->tgt == tgt && is_acc(q->kind) && !q->stored && q->op != p->op && overlap(p, q)) fail("RMW", "%s by process %d meets %s by process %d at the same location with another operation, on a window declared to see one operation only", fn, rank, q->fn, q->orank); }
  // ordering constraints
  std::string ord = "rar,raw,war,waw"; { auto it = s->info[w->me].find("accumulate_ordering"); if (it != s->info[w->me].end()) ord = it->second; }
  bool ordered = ord.find("none") == std::string::npos && ord.find('w') != std::string::npos;
  for (auto q : pend) if (q->w == s && q->org == p->org && q->tgt == tgt && !q->done && !(q->stored)) {
    if (K.cfg.fifo_net || (is_acc(kind) && is_acc(q->kind) && ordered && overlap(p, q))) p->deps.push_back(q->id);
  }
  if (kind == R_GACC || kind == R_CAS) if (op != (u64)MPI_NO_OP && tn <= 16) p->lat = choose_pct(K.cfg.latevis_pct);
  pend.push_back(p); if (pend.size() > rma_stats.max_pending) rma_stats.max_pending = pend.size();
  ev("%s op%u ->%d win%u off %ld len %ld", fn, p->id, p->trank, s->id, p->t[0].off, tn);
  // how much happens at once
  u32 roll; { u32 e = (u32)K.cfg.eager_pct, c = (u32)K.cfg.capture_pct; u32 x = K.rng.below(100); roll = choose_idx(3, x < e ? 2 : x < e + c ? 1 : 0); }
  if (roll >= 1 && !p->captured) capture(p);
  if (roll == 2 && can_apply(p)) { while (p->applied < p->n) apply_piece(p, p->n); if (fetches(kind)) deliver(p); }
  else { fire(F_op_deferred); if (K.cfg.lazy) fire(F_op_lazy_until_flush); if (K.rng.below(100) < 15) p->holdto = K.step + 10 + K.rng.below(120); if (K.cfg.weak_progress && !target_progress(p)) fire(F_weak_progress_wait); }
  finish_if(p); req_done(p); reap();
}
static void want(WinS *w, int org, int tgt, int lvl) { for (auto o : pend) if (o->w == w && o->org == org && (tgt < 0 || o->tgt == tgt)) o->needed = std::max(o->needed, lvl); }
static void want_deps() { // whoever waits for an operation also waits for those it must follow
  static std::vector<RmaOp *> todo; todo.clear(); for (auto o : pend) if (o->needed && !o->depx) todo.push_back(o);
  while (!todo.empty()) { RmaOp *o = todo.back(); todo.pop_back(); if (o->depx) continue; o->depx = true;
    for (u32 d : o->deps) { auto it = std::lower_bound(pend.begin(), pend.end(), d, [](RmaOp *x, u32 v) { return x->id < v; }); if (it != pend.end() && (*it)->id == d) { (*it)->needed = 2; if (!(*it)->depx) todo.push_back(*it); } } }
}
static void flush(Win *w, int tgt, bool local, const char *fn) {
  WinS *s = w->s; int me = w->me; want(s, me, tgt, local ? 1 : 2); want_deps();
  wait_until([=] { for (auto o : pend) if (o->w == s && o->org == me && (tgt < 0 || o->tgt == tgt) && !o->done && !(local && local_done(o))) return false; return true; }, fn);
  ev("%s done", fn);
}
}
#include "mpi_api.inc"
