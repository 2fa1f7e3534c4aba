// Executes a program against the real library, one set of fibers per simulated process, and judges what it observes.
#include "prog.h"
extern "C" {
#include <armci.h>
#include <armcix.h>
#include <message.h>
}
#include "exec.h"
#include <sstream>
namespace sim {
#define APIS(X) X(ARMCI_Init) X(ARMCI_Init_args) X(ARMCI_Init_thread) X(ARMCI_Init_thread_comm) X(ARMCI_Init_mpi_comm) X(ARMCI_Initialized) X(ARMCI_Finalize) \
  X(ARMCI_Malloc) X(ARMCI_Malloc_group) X(ARMCI_Malloc_memdev) X(ARMCI_Malloc_group_memdev) X(ARMCI_Free) X(ARMCI_Free_group) X(ARMCI_Free_memdev) X(ARMCI_Malloc_local) X(ARMCI_Free_local) \
  X(ARMCI_Barrier) X(ARMCI_Fence) X(ARMCI_AllFence) X(ARMCI_Access_begin) X(ARMCI_Access_end) X(ARMCI_Get) X(ARMCI_Put) X(ARMCI_Acc) X(ARMCI_PutS) X(ARMCI_GetS) X(ARMCI_AccS) X(ARMCI_PutV) X(ARMCI_GetV) X(ARMCI_AccV) \
  X(ARMCI_Put_flag) X(ARMCI_PutS_flag) X(ARMCI_NbPut) X(ARMCI_NbGet) X(ARMCI_NbAcc) X(ARMCI_NbPutS) X(ARMCI_NbGetS) X(ARMCI_NbAccS) X(ARMCI_NbPutV) X(ARMCI_NbGetV) X(ARMCI_NbAccV) \
  X(ARMCI_PutValueInt) X(ARMCI_PutValueLong) X(ARMCI_PutValueFloat) X(ARMCI_PutValueDouble) X(ARMCI_NbPutValueInt) X(ARMCI_NbPutValueLong) X(ARMCI_NbPutValueFloat) X(ARMCI_NbPutValueDouble) \
  X(ARMCI_GetValueInt) X(ARMCI_GetValueLong) X(ARMCI_GetValueFloat) X(ARMCI_GetValueDouble) X(ARMCI_INIT_HANDLE) X(ARMCI_SET_AGGREGATE_HANDLE) X(ARMCI_Wait) X(ARMCI_Test) X(ARMCI_WaitProc) X(ARMCI_WaitAll) \
  X(ARMCI_Create_mutexes) X(ARMCI_Destroy_mutexes) X(ARMCI_Lock) X(ARMCI_Unlock) X(ARMCI_Rmw) X(ARMCI_Group_create) X(ARMCI_Group_create_child) X(ARMCI_Group_free) X(ARMCI_Group_rank) X(ARMCI_Group_size) \
  X(ARMCI_Group_set_default) X(ARMCI_Group_get_default) X(ARMCI_Group_get_world) X(ARMCI_Absolute_id) X(ARMCIX_Group_split) X(ARMCIX_Group_dup) X(ARMCIX_Create_mutexes_hdl) X(ARMCIX_Destroy_mutexes_hdl) \
  X(ARMCIX_Lock_hdl) X(ARMCIX_Trylock_hdl) X(ARMCIX_Unlock_hdl) X(ARMCIX_Progress) X(armci_msg_me) X(armci_msg_nproc) X(armci_msg_snd) X(armci_msg_rcv) X(armci_msg_rcvany) X(armci_msg_bintree) X(armci_msg_abort) X(ARMCI_Error) X(armci_msg_barrier) X(armci_msg_group_barrier) \
  X(armci_msg_bcast) X(armci_msg_brdcst) X(armci_msg_bcast_scope) X(armci_msg_group_bcast_scope) X(armci_msg_sel) X(armci_msg_sel_scope) X(armci_msg_gop_scope) X(armci_msg_igop) X(armci_msg_lgop) X(armci_msg_llgop) X(armci_msg_fgop) X(armci_msg_dgop) \
  X(armci_msg_group_gop_scope) X(armci_msg_group_igop) X(armci_msg_group_lgop) X(armci_msg_group_llgop) X(armci_msg_group_fgop) X(armci_msg_group_dgop)
struct Api {
#define X(n) decltype(&::n) n;
  APIS(X)
#undef X
};
}
#define X(n) extern "C" { extern decltype(::n) r0_##n, r1_##n, r2_##n, r3_##n, r4_##n, r5_##n, r6_##n, r7_##n, r8_##n; }
APIS(X)
#undef X
extern "C" {
#define S(k) extern char __start_armci_data_r##k[], __stop_armci_data_r##k[], __start_armci_text_r##k[], __stop_armci_text_r##k[];
S(0) S(1) S(2) S(3) S(4) S(5) S(6) S(7) S(8)
#undef S
char sim_stderr_obj[8], sim_stdout_obj[8]; void *sim_stderr = sim_stderr_obj, *sim_stdout = sim_stdout_obj;
}
namespace sim {
static const Api api[MAXR] = {
#define X(n) r0_##n,
  { APIS(X) },
#undef X
#define X(n) r1_##n,
  { APIS(X) },
#undef X
#define X(n) r2_##n,
  { APIS(X) },
#undef X
#define X(n) r3_##n,
  { APIS(X) },
#undef X
#define X(n) r4_##n,
  { APIS(X) },
#undef X
#define X(n) r5_##n,
  { APIS(X) },
#undef X
#define X(n) r6_##n,
  { APIS(X) },
#undef X
#define X(n) r7_##n,
  { APIS(X) },
#undef X
#define X(n) r8_##n,
  { APIS(X) },
#undef X
};
static struct DataSec { char *a, *b; } dsec[MAXR] = {
#define S(k) {__start_armci_data_r##k, __stop_armci_data_r##k},
  S(0) S(1) S(2) S(3) S(4) S(5) S(6) S(7) S(8)
#undef S
};
static std::vector<char> dsave[MAXR];
void lib_reset(int nranks) {
  static bool first = true;
  if (first) {
#define S(k) text_lo[k] = (uintptr_t)__start_armci_text_r##k; text_hi[k] = (uintptr_t)__stop_armci_text_r##k;
    S(0) S(1) S(2) S(3) S(4) S(5) S(6) S(7) S(8)
#undef S
  }
  static int used = MAXR; if (first) for (int r = 0; r < MAXR; r++) dsave[r].assign(dsec[r].a, dsec[r].b); else for (int r = 0; r < used; r++) memcpy(dsec[r].a, dsave[r].data(), dsave[r].size());
  first = false; used = nranks;
}

// ------------------------------------------------------------------ what the harness knows about a run
struct LBuf { u8 *blk = nullptr, *p = nullptr, *share = nullptr; size_t n = 0; long kind = -1, off = 0; u8 *at(long j) const { return share ? share + far_off(K.cfg, off + j) : p + j; } };
struct PendOp { int step; LBuf b; std::vector<u8> img, mask; int rank; };
struct SInfo { std::vector<int> part; std::vector<int> gm; const std::vector<int> *mem = nullptr; long gid = -1; int phase_end = -1; int api = 0; std::vector<long> sizes; };
struct Rec { u64 t0, t1; long res; bool done; };
struct LockSt { int holder = -1; std::map<int, std::map<int, int>> bypass; std::map<int, int> waiting; std::map<int, u64> blocked_since; std::map<int, u64> asked; };
struct Watch { u8 *a; int v; int step; int rank; };
struct HS {
  const Program *P; std::map<int, Expect> E; std::vector<SInfo> I; std::deque<std::vector<int>> sessions;
  std::map<long, std::vector<u8 *>> base; std::map<long, int> mstep; std::map<long, std::vector<long>> size; std::map<int, std::vector<void *>> table; std::map<long, std::vector<u8 *>> dead; std::map<long, std::vector<long>> deadsize;
  std::map<int, PendOp> pend; std::map<int, int> entered, returned; std::map<std::pair<int, long>, ARMCI_Group *> grp; std::map<std::pair<int, long>, armcix_mutex_hdl_t> mx;
  std::map<std::pair<int, int>, armci_hdl_t *> hdl; std::map<std::pair<int, int>, bool> hused; std::map<int, Rec> rec; std::map<std::vector<long>, LockSt> locks; std::map<CellKey, long> cs; std::vector<Watch> watch;
  int mainpos[MAXR], thrpos[MAXR][4]; bool bad_started, bad_skipped; int fatal; int bad_rank; Leak leak0[MAXR]; size_t heap0[MAXR]; u64 nops, nsteps; std::set<int> mpi_up; bool live_end;
};
static HS *H = nullptr;
static int ME(int i, int r) { auto &m = *H->I[i].mem; for (size_t j = 0; j < m.size(); j++) if (m[j] == r) return (int)j; return -1; }
static u8 *pblk(int r, size_t n) { void *p = mem_alloc(r, Z_PRIV, n ? n : 1, M_PRIV, false); if (!p) fail("SIMLIMIT", "private memory of process %d used up", r); memset(p, 0xCD, n); return (u8 *)p; }
static void pfree(int r, void *p) { mem_free(r, Z_PRIV, p, "harness"); }
template <class T> static T *parr(int r, const std::vector<T> &v) { T *p = (T *)pblk(r, v.size() * sizeof(T)); if (!v.empty()) memcpy(p, v.data(), v.size() * sizeof(T)); return p; }
static const Expect &EX(int i) { static Expect none; auto it = H->E.find(i); return it == H->E.end() ? none : it->second; }
static int last_init(int i) { while (i >= 0 && H->P->steps[i].k != S_INIT) i--; return i; }
static u8 *raddr(long rid, int mem, long off) { auto it = H->base.find(rid); if (it == H->base.end() || mem >= (int)it->second.size()) return nullptr; u8 *b = it->second[mem]; return b ? b + far_off(K.cfg, off) : nullptr; }
static ARMCI_Group *grp(int r, long gid) {
  auto k = std::make_pair(r, gid); auto it = H->grp.find(k); if (it != H->grp.end()) return it->second;
  ARMCI_Group *g = (ARMCI_Group *)pblk(r, sizeof(ARMCI_Group)); if (gid == 0) api[r].ARMCI_Group_get_world(g); H->grp[k] = g; return g;
}
static bool bad_byte(long rid, int mem, long off, u8 v) { u8 *p = raddr(rid, mem, off); return p && *p != v; }
[[noreturn]] static void mismatch(const char *cat, const char *when, int r, long rid, int mem, long off, u8 want) {
  fail(cat, "%s (process %d): byte %ld of allocation %ld at process %d is 0x%02x, must be 0x%02x", when, r, off, rid, mem, *raddr(rid, mem, off), want);
}

// ------------------------------------------------------------------ transfers
static LBuf get_buf(int r, long kind, size_t n, long lrid, long loff, int me, long pad = 0) {
  LBuf b; b.kind = kind; b.n = n; long room = n ? pad : pad ? pad + 1 : 0;   // an empty buffer must not start where another block may
  if (kind == 1) { b.p = raddr(lrid, me, loff); b.share = raddr(lrid, me, 0); b.off = loff; return b; }
  if (kind == 2) { b.blk = (u8 *)api[r].ARMCI_Malloc_local((long)n + room); if (!b.blk) { if (H->P->alloc_mode) fail("CLEANSTOP", "no local memory"); fail("ALLOC", "ARMCI_Malloc_local returned NULL"); } const char *e = mem_check(r, b.blk, n + room); if (e) fail("ALLOC", "ARMCI_Malloc_local returned %s", e); }
  else b.blk = pblk(r, n + room);
  b.p = b.blk + pad; for (size_t i = 0; i < n; i++) b.p[i] = (u8)(0x5A ^ (i * 7)); return b;
}
static void drop_buf(int r, LBuf &b) { if (b.kind == 2) api[r].ARMCI_Free_local(b.blk); else if (b.kind == 0) pfree(r, b.blk); b.kind = -1; }
static void complete_op(int r, int i, const char *how) {
  auto it = H->pend.find(i); if (it == H->pend.end()) return; PendOp &o = it->second; const Step &s = H->P->steps[i];
  if (o.b.kind == 0 || o.b.kind == 2) { for (size_t j = 0; j < o.img.size(); j++) if (o.mask[j] && o.b.p[j] != o.img[j]) fail("DATA", "%s: local buffer of step %d (%s, process %d) byte %zu is 0x%02x, must be 0x%02x", how, i, s.p[X_OP] == OP_GET ? o.mask[j] == 2 ? "gap of a get" : "get" : "source of an update", r, j, o.b.p[j], o.img[j]); }
  else if (o.b.kind == 1 && s.p[X_OP] == OP_GET) { for (size_t j = 0; j < o.img.size(); j++) if (o.mask[j] == 1 && *o.b.at(j) != o.img[j]) fail("DATA", "%s: get of step %d (process %d) into global memory: byte %zu is 0x%02x, must be 0x%02x", how, i, r, j, *o.b.at(j), o.img[j]); }
  LBuf b = o.b; H->pend.erase(it); drop_buf(r, b);
}
static armci_hdl_t *handle(int r, int thr, int h, bool agg, int i) {
  auto k = std::make_pair(r * 4 + thr, h); auto &p = H->hdl[k]; if (!p) { p = (armci_hdl_t *)pblk(r, sizeof(armci_hdl_t)); H->hused[k] = false; }
  if (!H->hused[k]) { api[r].ARMCI_INIT_HANDLE(p); if (agg) api[r].ARMCI_SET_AGGREGATE_HANDLE(p); H->hused[k] = true; }
  (void)i; return p;
}
static void do_xfer(int r, int thr, int i, const Step &s) {
  const auto &p = s.p; const Expect &e = EX(i); const Api &A = api[r]; int me = ME(i, r), tgt = (int)p[X_TGT]; Xfer x; expand(s, x); H->nops++;
  bool get = p[X_OP] == OP_GET, acc = p[X_OP] == OP_ACC; int md = (int)p[X_MODE], ty = (int)p[X_TYPE]; const long *t = p.data() + X_HEAD; int rc = 0;
  u8 *rem = raddr(p[X_RID], tgt, p[X_ROFF]);
  if (md == MD_FLAG) { u8 *fa = raddr(p[X_FRID], tgt, p[X_FOFF]); H->watch.push_back({fa, (int)p[X_FVAL], i, (*H->I[i].mem)[tgt]}); }
  armci_hdl_t *hd = md == MD_NB ? handle(r, thr, (int)p[X_HDL], p[X_AGG], i) : nullptr; bool nb = md == MD_NB || md == MD_IMPL;
  if (p[X_SHAPE] == SH_VALUE) {
    int vt = (int)t[0]; u8 v[8] = {0};
    if (get) {
      switch (vt) { case 0: { int a = A.ARMCI_GetValueInt(rem, tgt); memcpy(v, &a, 4); break; } case 1: { long a = A.ARMCI_GetValueLong(rem, tgt); memcpy(v, &a, 8); break; } case 2: { float a = A.ARMCI_GetValueFloat(rem, tgt); memcpy(v, &a, 4); break; } case 3: { double a = A.ARMCI_GetValueDouble(rem, tgt); memcpy(v, &a, 8); break; } }
      for (int j = 0; j < vsize[vt]; j++) if (e.mask[j] == 1 && v[j] != e.data[j]) fail("DATA", "value get of step %d (process %d) returned byte %d as 0x%02x, must be 0x%02x", i, r, j, v[j], e.data[j]);
    } else {
      memcpy(v, e.img.data(), vsize[vt]); int iv; long lv; float fv; double dv; memcpy(&iv, v, 4); memcpy(&lv, v, 8); memcpy(&fv, v, 4); memcpy(&dv, v, 8);
      switch (vt) { case 0: rc = nb ? A.ARMCI_NbPutValueInt(iv, rem, tgt, hd) : A.ARMCI_PutValueInt(iv, rem, tgt); break; case 1: rc = nb ? A.ARMCI_NbPutValueLong(lv, rem, tgt, hd) : A.ARMCI_PutValueLong(lv, rem, tgt); break; case 2: rc = nb ? A.ARMCI_NbPutValueFloat(fv, rem, tgt, hd) : A.ARMCI_PutValueFloat(fv, rem, tgt); break; case 3: rc = nb ? A.ARMCI_NbPutValueDouble(dv, rem, tgt, hd) : A.ARMCI_PutValueDouble(dv, rem, tgt); break; }
    }
    ev("step %d value op done", i); if (rc) fail("DATA", "step %d (process %d): the call reports failure %d", i, r, rc); return;
  }
  PendOp o; o.step = i; o.rank = r; o.b = get_buf(r, p[X_LKIND], (size_t)x.span, p[X_LRID], p[X_LOFF], me, p[X_LKIND] == 1 ? 0 : p[X_LOFF]);
  if (p[X_LKIND] != 1) {
    if (!get) for (auto &g : x.segs) memcpy(o.b.p + g.loff, &e.img[g.loff], g.len);
    o.img.assign(o.b.p, o.b.p + x.span); o.mask.assign(x.span, 2);
    if (get) for (auto &g : x.segs) for (long j = g.loff; j < g.loff + g.len; j++) { o.img[j] = e.data[j]; o.mask[j] = e.mask[j] == 1 ? 1 : 0; }
  } else if (get) { o.img = e.data; o.mask.assign(x.span, 0); for (auto &g : x.segs) for (long j = g.loff; j < g.loff + g.len; j++) o.mask[j] = e.mask[j] == 1 ? 1 : 0; }
  u8 *loc = o.b.p; u8 *sc = nullptr; if (acc) { sc = pblk(r, tsize[ty]); scale_value(ty, (int)p[X_SCALE], sc); }
  H->pend[i] = o; void *src = get ? (void *)rem : (void *)loc, *dst = get ? (void *)loc : (void *)rem;
  int *flag = md == MD_FLAG ? (int *)raddr(p[X_FRID], tgt, p[X_FOFF]) : nullptr; int fv = (int)p[X_FVAL];
  int aty = ty < 0 ? 0 : ty;
  switch (p[X_SHAPE]) {
    case SH_CONTIG: { int n = (int)t[0];
      if (flag) rc = A.ARMCI_Put_flag(src, dst, n, flag, fv, tgt);
      else if (acc) rc = nb ? A.ARMCI_NbAcc(aty, sc, src, dst, n, tgt, hd) : A.ARMCI_Acc(aty, sc, src, dst, n, tgt);
      else if (get) rc = nb ? A.ARMCI_NbGet(src, dst, n, tgt, hd) : A.ARMCI_Get(src, dst, n, tgt);
      else rc = nb ? A.ARMCI_NbPut(src, dst, n, tgt, hd) : A.ARMCI_Put(src, dst, n, tgt);
      break; }
    case SH_STRIDED: {
      int L = (int)t[0]; std::vector<int> c, ls, rs; for (int q = 0; q <= L; q++) c.push_back((int)t[1 + q]); for (int q = 0; q < L; q++) { ls.push_back((int)(p[X_LKIND] == 1 ? far_stride(K.cfg, t[2 + L + q]) : t[2 + L + q])); rs.push_back((int)far_stride(K.cfg, t[2 + 2 * L + q])); }
      int *pc = parr(r, c), *pl = parr(r, ls), *pr = parr(r, rs); int *ss = get ? pr : pl, *ds = get ? pl : pr;
      if (flag) rc = A.ARMCI_PutS_flag(src, ss, dst, ds, pc, L, flag, fv, tgt);
      else if (acc) rc = nb ? A.ARMCI_NbAccS(aty, sc, src, ss, dst, ds, pc, L, tgt, hd) : A.ARMCI_AccS(aty, sc, src, ss, dst, ds, pc, L, tgt);
      else if (get) rc = nb ? A.ARMCI_NbGetS(src, ss, dst, ds, pc, L, tgt, hd) : A.ARMCI_GetS(src, ss, dst, ds, pc, L, tgt);
      else rc = nb ? A.ARMCI_NbPutS(src, ss, dst, ds, pc, L, tgt, hd) : A.ARMCI_PutS(src, ss, dst, ds, pc, L, tgt);
      for (int q = 0; q <= L; q++) if (pc[q] != c[q]) fail("DATA", "strided call of step %d changed the caller's count array", i);
      for (int q = 0; q < L; q++) if (pl[q] != ls[q] || pr[q] != rs[q]) fail("DATA", "strided call of step %d changed the caller's stride array", i);
      pfree(r, pc); pfree(r, pl); pfree(r, pr); break; }
    case SH_VECTOR: {
      int nv = (int)t[0]; long q = 1; armci_giov_t *v = (armci_giov_t *)pblk(r, nv * sizeof(armci_giov_t)); std::vector<void **> keep; std::vector<std::vector<void *>> copy;
      for (int a = 0; a < nv; a++) {
        long b = t[q], m = t[q + 1]; q += 2; std::vector<void *> sp, dp;
        for (long j = 0; j < m; j++) { u8 *ra = raddr(t[q], tgt, t[q + 1]), *la = o.b.at(t[q + 2]); q += 3; sp.push_back(get ? ra : la); dp.push_back(get ? la : ra); }
        v[a].bytes = (int)b; v[a].ptr_array_len = (int)m; v[a].src_ptr_array = parr(r, sp); v[a].dst_ptr_array = parr(r, dp); keep.push_back(v[a].src_ptr_array); keep.push_back(v[a].dst_ptr_array); copy.push_back(sp); copy.push_back(dp);
      }
      if (acc) rc = nb ? A.ARMCI_NbAccV(aty, sc, v, nv, tgt, hd) : A.ARMCI_AccV(aty, sc, v, nv, tgt);
      else if (get) rc = nb ? A.ARMCI_NbGetV(v, nv, tgt, hd) : A.ARMCI_GetV(v, nv, tgt);
      else rc = nb ? A.ARMCI_NbPutV(v, nv, tgt, hd) : A.ARMCI_PutV(v, nv, tgt);
      for (size_t a = 0; a < keep.size(); a++) { for (size_t j = 0; j < copy[a].size(); j++) if (keep[a][j] != copy[a][j]) fail("DATA", "vector call of step %d changed the caller's address array", i); pfree(r, keep[a]); }
      pfree(r, v); break; }
  }
  if (sc) pfree(r, sc); if (rc) fail("DATA", "step %d (process %d): the call reports failure %d", i, r, rc);
  ev("step %d transfer call returned", i);
  if (md == MD_BLOCK || md == MD_FLAG) complete_op(r, i, "after a blocking call");
}

// ------------------------------------------------------------------ checks at synchronisation points
static void check_bytes(const char *cat, const char *when, int r, const std::vector<ByteChk> &v) { for (auto &b : v) if (bad_byte(b.rid, b.mem, b.off, b.v)) mismatch(cat, when, r, b.rid, b.mem, b.off, b.v); }
static bool subset(int type, const std::vector<u8> &cur, const std::vector<std::vector<u8>> &oth, size_t k, const u8 *want) {
  if (k == oth.size()) return num_equal(type, cur.data(), want);
  if (subset(type, cur, oth, k + 1, want)) return true; std::vector<u8> n = cur; scaled_add(type, 0, n.data(), oth[k].data(), false); return subset(type, n, oth, k + 1, want);
}
static void check_fence(const char *when, int r, int i, const Expect &e) {
  check_bytes("FENCE", when, r, e.bytes);
  for (auto &c : e.elems) {
    if (c.oth.size() > 10) continue; u8 *p = raddr(c.rid, c.mem, c.off); if (!p) continue; std::vector<u8> cur = c.init; for (auto &o : c.own) scaled_add(c.type, 0, cur.data(), o.data(), false);
    bool ok = true; if (c.type < 4) ok = subset(c.type, cur, c.oth, 0, p);
    else { int w = tsize[c.type] / 2; for (int h = 0; h < 2; h++) { // the parts of a complex number are updated one by one
      auto part = [&](const std::vector<u8> &v) { return std::vector<u8>(v.begin() + h * w, v.begin() + h * w + w); }; std::vector<std::vector<u8>> oth; for (auto &o : c.oth) oth.push_back(part(o)); if (!subset(c.type - 2, part(cur), oth, 0, p + h * w)) ok = false; } }
    if (!ok) fail("FENCE", "%s (process %d): accumulated element at offset %ld of allocation %ld at process %d is not the initial value plus all %zu own and some of %zu foreign contributions", when, r, c.off, c.rid, c.mem, c.own.size(), c.oth.size());
  }
  for (auto &m : e.mono) { // counters: own additions must be visible
    int pe = H->I[i].phase_end; if (pe < 0) continue; auto &vc = EX(pe).vcells; auto it = vc.find(m.first); if (it == vc.end() || !it->second.addsonly || !it->second.positive) continue; u8 *p = raddr(m.first.rid, m.first.mem, m.first.off); if (!p) continue;
    for (int st : it->second.steps) { const Step &q = H->P->steps[st]; auto rc = H->rec.find(st); if (q.rank * 4 + q.thr != m.second || rc == H->rec.end() || !rc->second.done || st > i) continue;
      long d; if (it->second.width == 4) { int v; memcpy(&v, p, 4); d = (int)((unsigned)v - ((unsigned)rc->second.res + (unsigned)q.p[4])); } else { long v; memcpy(&v, p, 8); d = (long)((unsigned long)v - ((unsigned long)rc->second.res + (unsigned long)q.p[4])); }
      if (d < 0) fail("FENCE", "%s (process %d): counter at offset %ld of allocation %ld at process %d does not show the caller's own addition", when, r, m.first.off, m.first.rid, m.first.mem); }
  }
}
// configurations that promise remote completion: the new value is in the target's memory when the operation returns
static bool rmw_remote_promised(bool swap) {
  auto v = [&](const char *n, const char *d) { auto it = H->P->vars.find(n); return it == H->P->vars.end() ? std::string(d) : it->second; };
  auto on = [](const std::string &x) { return x == "1"; }; auto off = [](const std::string &x) { return x == "0"; };
  std::string ra = v("ARMCI_USE_REQUEST_ATOMICS", std::string(sim_variant) == "ompi4" ? "0" : "1"); if (!on(ra) && !off(ra)) return false;
  return on(ra) ? swap || on(v("ARMCI_FLUSH_REQUEST_ATOMICS", "0")) : on(v("ARMCI_NO_FLUSH_LOCAL", "0"));
}
static void check_rmw_visible(int r, int i, const Step &s) {
  int pe = H->I[i].phase_end; bool swap = s.p[0] >= 2; if (pe < 0 || !rmw_remote_promised(swap)) return;
  auto &vc = EX(pe).vcells; auto it = vc.find(CellKey{s.p[1], (int)s.p[2], s.p[3]}); if (it == vc.end()) return; const VCell &c = it->second; u8 *p = raddr(s.p[1], (int)s.p[2], s.p[3]); if (!p) return;
  unsigned long msk = c.width == 4 ? 0xffffffffUL : ~0UL, now = 0; memcpy(&now, p, c.width); const Rec &me = H->rec[i]; unsigned long neu = (swap ? (unsigned long)s.p[4] : (unsigned long)me.res + (unsigned long)s.p[4]) & msk; bool ok = true;
  if (now == neu) return;
  if (c.agents.size() == 1) ok = false;
  else if (c.addsonly && c.positive) ok = (c.width == 4 ? (long)(int)(unsigned)(now - neu) : (long)(now - neu)) >= 0;
  else { bool allswap = true; for (int st : c.steps) if (H->P->steps[st].p[0] < 2) allswap = false; if (!allswap) return;
    ok = false; for (int st : c.steps) if (st != i) { auto q = H->rec.find(st); if (q != H->rec.end() && q->second.done && q->second.t1 < me.t0) continue; if (((unsigned long)H->P->steps[st].p[4] & msk) == now) ok = true; } }
  if (!ok) fail("RMW", "step %d (process %d): the %s returned %ld, but the memory of process %ld still reads %ld instead of %ld", i, r, swap ? "swap" : "fetch-and-add", me.res, s.p[2], c.width == 4 ? (long)(int)now : (long)now, c.width == 4 ? (long)(int)neu : (long)neu);
}
struct LinOp { u64 t0, t1; bool swap; unsigned long arg, res; };
static bool lin(const std::vector<LinOp> &o, unsigned mask, unsigned long cur, unsigned long fin, unsigned long m, bool known, std::set<std::pair<unsigned, unsigned long>> &seen) {
  if (mask + 1 == 1u << o.size()) return cur == fin; if (known && !seen.insert({mask, cur}).second) return false;
  u64 first = ~0ULL; for (size_t i = 0; i < o.size(); i++) if (!(mask >> i & 1)) first = std::min(first, o[i].t1);
  for (size_t i = 0; i < o.size(); i++) if (!(mask >> i & 1) && o[i].t0 <= first) { if (known && o[i].res != cur) continue; unsigned long n = o[i].swap ? o[i].arg & m : (o[i].res + o[i].arg) & m; if (lin(o, mask | 1u << i, n, fin, m, true, seen)) return true; }
  return false;
}
static void check_phase(int i, const Expect &e) {
  if (e.snap) for (auto &v : e.snap->val) for (size_t m = 0; m < v.second.size(); m++) { u8 *b = raddr(v.first, (int)m, 0); auto &k = e.snap->mask[v.first][m]; if (!b) continue; for (size_t j = 0; j < v.second[m].size(); j++) if (k[j] && b[far_off(K.cfg, (long)j)] != v.second[m][j]) {
    // a floating-point zero may carry either sign
    long al = (long)j & ~7L; auto z = [&](const u8 *q, int w) { if (w == 4) { float f; memcpy(&f, q, 4); return f == 0; } double d; memcpy(&d, q, 8); return d == 0; };
    if (al + 8 <= (long)v.second[m].size() && z(b + far_off(K.cfg, al), 8) && z(&v.second[m][al], 8)) continue; long a4 = (long)j & ~3L; if (a4 + 4 <= (long)v.second[m].size() && z(b + far_off(K.cfg, a4), 4) && z(&v.second[m][a4], 4)) continue;
    mismatch("MEMORY", "after a barrier", K.cur->rank, v.first, (int)m, (long)j, v.second[m][j]); } }
  for (auto &c : e.vcells) {
    std::vector<LinOp> o; unsigned long msk = c.second.width == 4 ? 0xffffffffUL : ~0UL; for (int st : c.second.steps) { auto rc = H->rec.find(st); if (rc == H->rec.end() || !rc->second.done) continue; const Step &q = H->P->steps[st]; o.push_back({rc->second.t0, rc->second.t1, q.p[0] >= 2, (unsigned long)q.p[4] & msk, (unsigned long)rc->second.res & msk}); }
    u8 *p = raddr(c.first.rid, c.first.mem, c.first.off); if (!p || o.empty() || o.size() > 14) continue; unsigned long fin = 0; memcpy(&fin, p, c.second.width); std::set<std::pair<unsigned, unsigned long>> seen;
    if (!lin(o, 0, (unsigned long)c.second.init & msk, fin, msk, !c.second.unk_init, seen)) { std::string h; for (auto &x : o) { char b[120]; snprintf(b, sizeof b, " [%llu..%llu %s %ld ->%ld]", (unsigned long long)x.t0, (unsigned long long)x.t1, x.swap ? "swap" : "add", (long)x.arg, (long)x.res); h += b; }
      fail("RMW", "history of the counter at offset %ld of allocation %ld at process %d is not linearizable: initial %ld final %ld;%s", c.first.off, c.first.rid, c.first.mem, c.second.unk_init ? -1 : c.second.init, (long)fin, h.c_str()); }
  }
  (void)i; H->watch.clear(); H->cs.clear();
}
static bool on_apply(int rank, void *addr, size_t n) {
  for (auto &w : H->watch) if ((u8 *)addr < w.a + 4 && (u8 *)addr + n > w.a && w.rank == rank) { int v; memcpy(&v, w.a, 4); if (v == w.v) for (auto &b : EX(w.step).bytes) if (bad_byte(b.rid, b.mem, b.off, b.v)) mismatch("FLAG", "when the flag became visible", rank, b.rid, b.mem, b.off, b.v); }
  return true;
}

// ------------------------------------------------------------------ collective data operations
static const char *gop_name(int op, long uid) { bool alt = uid & 1; switch (op) { case 0: return "+"; case 1: return "*"; case 2: return "max"; case 3: return "min"; case 4: return "absmax"; case 5: return "absmin"; case 6: return "or"; case 7: return alt ? "land" : "&&"; case 8: return alt ? "lor" : "||"; case 9: return alt ? "band" : "&"; default: return alt ? "bor" : "|"; } }
static const int gop2acc[5] = {0, 1, 1, 2, 3};
static char *pstr(int r, const char *s) { char *p = (char *)pblk(r, strlen(s) + 1); strcpy(p, s); return p; }
static void do_gop(int r, int i, const Step &s) {
  const auto &p = s.p; const Expect &e = EX(i); const Api &A = api[r]; int me = ME(i, r), j = 0; while (e.who[j] != me) j++; int sz = gsize[p[3]], n = (int)p[4]; LBuf b = get_buf(r, p[5], n * sz, p[6], p[7], me, 0); memcpy(b.p, e.parts[j].data(), n * sz);
  char *op = pstr(r, gop_name((int)p[2], p[9])); ARMCI_Group *g = grp(r, p[0]); int ty = (int)p[3], sc = (int)p[1]; void *x = b.p;
  if (p[0] == 0 && p[8] == 0) { if (sc == 0 && (p[9] & 2)) switch (ty) { case 0: A.armci_msg_igop((int *)x, n, op); break; case 1: A.armci_msg_lgop((long *)x, n, op); break; case 2: A.armci_msg_llgop((long long *)x, n, op); break; case 3: A.armci_msg_fgop((float *)x, n, op); break; default: A.armci_msg_dgop((double *)x, n, op); } else A.armci_msg_gop_scope(sc, x, n, op, ty); }
  else { if (sc == 0 && (p[9] & 2)) switch (ty) { case 0: A.armci_msg_group_igop((int *)x, n, op, g); break; case 1: A.armci_msg_group_lgop((long *)x, n, op, g); break; case 2: A.armci_msg_group_llgop((long long *)x, n, op, g); break; case 3: A.armci_msg_group_fgop((float *)x, n, op, g); break; default: A.armci_msg_group_dgop((double *)x, n, op, g); } else A.armci_msg_group_gop_scope(sc, x, n, op, ty, g); }
  pfree(r, op); for (int q = 0; q < n; q++) if (!num_equal(gop2acc[ty], b.p + q * sz, &e.outs[j][q * sz])) fail("COLL", "global operation of step %d (%s, type %d, %d elements, process %d): element %d differs from the defined result", i, gop_name((int)p[2], 0), ty, n, r, q);
  ev("step %d gop ok", i); drop_buf(r, b);
}
static void do_sel(int r, int i, const Step &s) {
  const auto &p = s.p; const Expect &e = EX(i); const Api &A = api[r]; int me = ME(i, r); LBuf b = get_buf(r, p[5], p[3], p[6], p[7], me, 0); memcpy(b.p, e.parts[me].data(), p[3]); char *op = pstr(r, p[1] ? "max" : "min"); int c = (p[4] >> me) & 1;
  if (p[0] == 0 && (p[8] & 1)) A.armci_msg_sel(b.p, (int)p[3], op, (int)p[2], c); else A.armci_msg_sel_scope((int)p[0], b.p, (int)p[3], op, (int)p[2], c); pfree(r, op);
  for (long q = 0; q < p[3]; q++) if (b.p[q] != e.outs[me][q]) fail("COLL", "selection of step %d (process %d): byte %ld of the record is 0x%02x, must be 0x%02x", i, r, q, b.p[q], e.outs[me][q]);
  ev("step %d sel ok", i); drop_buf(r, b);
}
static void do_bcast(int r, int i, const Step &s) {
  const auto &p = s.p; const Expect &e = EX(i); const Api &A = api[r]; int me = ME(i, r), j = 0; while (e.who[j] != me) j++; LBuf b = get_buf(r, p[4], p[3], p[5], p[6], me, 0); memcpy(b.p, e.parts[j].data(), p[3]); int n = (int)p[3], root = (int)p[2];
  switch (p[0]) { case 0: A.armci_msg_bcast(b.p, n, root); break; case 1: A.armci_msg_brdcst(b.p, n, root); break; case 2: A.armci_msg_bcast_scope((int)p[8], b.p, n, p[8] == 1 ? 0 : root); break; default: A.armci_msg_group_bcast_scope((int)p[8], b.p, n, p[8] == 1 ? me : root, grp(r, p[1])); }
  for (long q = 0; q < p[3]; q++) if (b.p[q] != e.outs[j][q]) fail("COLL", "broadcast of step %d (process %d): byte %ld is 0x%02x, must be 0x%02x", i, r, q, b.p[q], e.outs[j][q]);
  ev("step %d bcast ok", i); drop_buf(r, b);
}
static void do_msg(int r, int i, const Step &s) {
  const auto &p = s.p; const Expect &e = EX(i); const Api &A = api[r]; int me = ME(i, r);
  if (me == p[0]) { LBuf b = get_buf(r, p[5], p[3], p[6], p[7], me, 0); if (p[5] != 1) memcpy(b.p, e.data.data(), p[3]); A.armci_msg_snd((int)p[2], b.p, (int)p[3], (int)p[1]); if (p[5] != 1 && memcmp(b.p, e.data.data(), p[3])) fail("MSG", "step %d: sending changed the message", i); drop_buf(r, b); return; }
  LBuf b = get_buf(r, p[8], p[4], p[9], p[10], me, 0); std::vector<u8> old(b.p, b.p + p[4]); int *len = (int *)pblk(r, sizeof(int)); *len = -77;
  bool nolen = (p[11] & 7) == 3;
  A.armci_msg_rcv((int)p[2], b.p, (int)p[4], nolen ? nullptr : len, (int)p[0]);
  if (!nolen && *len != p[3]) fail("MSG", "step %d: received length %d, sent %ld", i, *len, p[3]);
  for (long q = 0; q < p[4]; q++) { u8 w = q < p[3] ? e.data[q] : old[q]; if (b.p[q] != w) fail("MSG", "step %d (process %d): byte %ld of the receive buffer is 0x%02x, must be 0x%02x (%s)", i, r, q, b.p[q], w, q < p[3] ? "message" : "behind the message"); }
  pfree(r, len); ev("step %d msg ok", i); drop_buf(r, b);
}
static void fanin_data(long uid, int from, int k, long maxlen, std::vector<u8> &v) { long n = 4 + (long)((data_byte(uid * 97 + from, k) * 7) % (maxlen - 3)); if (n > maxlen) n = maxlen; v.resize(n); for (long q = 0; q < n; q++) v[q] = data_byte(uid * 1000 + from * 10 + k, q); v[0] = (u8)from; v[1] = (u8)k; }
static void do_fanin(int r, int i, const Step &s) {
  const auto &p = s.p; const Api &A = api[r]; int me = ME(i, r); std::vector<u8> v;
  if (me != p[0]) { bool in = false; for (size_t j = 8; j < p.size(); j++) in |= p[j] == me; if (!in) return; for (int k = 0; k < p[2]; k++) { fanin_data(p[4], me, k, p[3], v); u8 *b = pblk(r, v.size()); memcpy(b, v.data(), v.size()); A.armci_msg_snd((int)p[1], b, (int)v.size(), (int)p[0]); pfree(r, b); } return; }
  std::map<int, int> next; long tot = (long)(p.size() - 8) * p[2];
  for (long m = 0; m < tot; m++) {
    LBuf lb = get_buf(r, p[5], p[3], p[6], p[7], me, 0); u8 *b = lb.p; memset(b, 0xE7, p[3]); int *len = (int *)pblk(r, sizeof(int)); *len = -77; int from = A.armci_msg_rcvany((int)p[1], b, (int)p[3], len);
    bool in = false; for (size_t j = 8; j < p.size(); j++) in |= p[j] == from; if (!in) fail("MSG", "step %d: receive from any process reports sender %d", i, from);
    int k = next[from]++; if (k >= p[2]) fail("MSG", "step %d: one message too many from %d", i, from); fanin_data(p[4], from, k, p[3], v);
    if (*len != (int)v.size()) fail("MSG", "step %d: message %d from %d has length %d, sent %zu", i, k, from, *len, v.size());
    for (long q = 0; q < p[3]; q++) { u8 w = q < (long)v.size() ? v[q] : 0xE7; if (b[q] != w) fail("MSG", "step %d: message %d from %d: byte %ld is 0x%02x, must be 0x%02x", i, k, from, q, b[q], w); }
    pfree(r, len); drop_buf(r, lb);
  }
  ev("step %d fan-in ok", i);
}

// every process asks for its place in the tree; a sum goes up and the total comes down with ordinary messages
static void do_tree(int r, int i, const Step &s) {
  const auto &p = s.p; const Api &A = api[r]; int me = ME(i, r), n = (int)H->I[i].mem->size(); int *t = (int *)pblk(r, 4 * sizeof(int)); for (int j = 0; j < 4; j++) t[j] = -77;
  A.armci_msg_bintree((int)p[0], &t[0], &t[1], &t[2], &t[3]); int root = t[0], up = t[1], ch[2] = {t[2], t[3]}; pfree(r, t);
  bool node = p[0] == 1; if (node && (up != -1 || ch[0] != -1 || ch[1] != -1)) fail("MSG", "step %d: process %d alone in its tree has parent %d and children %d, %d", i, me, up, ch[0], ch[1]);
  if (root < 0 || root >= n || up < -1 || up >= n || ch[0] < -1 || ch[0] >= n || ch[1] < -1 || ch[1] >= n) fail("MSG", "step %d: process %d of %d is given root %d, parent %d, children %d, %d", i, me, n, root, up, ch[0], ch[1]);
  if (!node && (up == -1) != (me == root)) fail("MSG", "step %d: process %d has parent %d although the root is %d", i, me, up, root);
  auto own = [&](int j) { return (long)data_byte(p[2], j) + 1; }; long *b = (long *)pblk(r, 3 * sizeof(long)); int *len = (int *)pblk(r, sizeof(int)); long cnt = 1, sum = own(me);
  for (int c : ch) if (c >= 0) { A.armci_msg_rcv((int)p[1], b, 3 * sizeof(long), len, c); cnt += b[0]; sum += b[1]; if (b[2] != root) fail("MSG", "step %d: process %d knows root %d, its child %d root %ld", i, me, root, c, b[2]); }
  b[0] = cnt; b[1] = sum; b[2] = root; if (up >= 0) { A.armci_msg_snd((int)p[1], b, 3 * sizeof(long), up); A.armci_msg_rcv((int)p[1], b, 3 * sizeof(long), len, up); }
  for (int c : ch) if (c >= 0) A.armci_msg_snd((int)p[1], b, 3 * sizeof(long), c);
  long w = 0; for (int j = 0; j < n; j++) w += own(j); if (node) w = own(me); if (b[0] != (node ? 1 : n) || b[1] != w) fail("MSG", "step %d: process %d learns from the tree that %ld processes sum up to %ld, must be %d and %ld", i, me, b[0], b[1], node ? 1 : n, w);
  pfree(r, b); pfree(r, len); ev("step %d tree ok", i);
}

// ------------------------------------------------------------------ mutexes
static void mlock(int r, long mid, int mutex, int host, bool tr) { const Api &A = api[r]; if (mid == 0) { A.ARMCI_Lock(mutex, host); return; } if (tr) { if (A.ARMCIX_Trylock_hdl(H->mx[{r, mid}], mutex, host) == 0) return; int n = 0; while (A.ARMCIX_Trylock_hdl(H->mx[{r, mid}], mutex, host)) { if (++n > 20000) fail("NOPROGRESS", "trylock never succeeds"); K.cur->spin = true; yield("trylock"); } } else A.ARMCIX_Lock_hdl(H->mx[{r, mid}], mutex, host); }
static LockSt &cs_acquire(int r, int id, long set, long mutex, long host, bool tr) {
  LockSt &l = H->locks[{set, mutex, host}]; u64 asked = K.step;
  l.waiting[id] = K.cur->id; l.asked[id] = asked; l.bypass[id].clear();
  mlock(r, set, (int)mutex, (int)host, tr);
  if (l.holder >= 0) fail("MUTEX", "process %d holds mutex %ld of process %ld (set %ld) while process %d got it too", l.holder / 4, mutex, host, set, r);
  l.holder = id; l.waiting.erase(id); l.bypass.erase(id); l.blocked_since.erase(id);
  ev("lock %ld/%ld/%ld granted", set, host, mutex);
  // a waiter that was already queued when the new holder asked may be passed over at most once per holder
  for (auto &w : l.waiting) { Fiber &f = K.fib[w.second]; if (f.st == FS_BLOCK && f.what && strstr(f.what, "Recv")) { auto b = l.blocked_since.find(w.first); if (b == l.blocked_since.end()) l.blocked_since[w.first] = K.step; else if (b->second < asked) { if (++l.bypass[w.first][r] > 2) fail("BYPASS", "process %d waits in the queue of mutex %ld of process %ld while process %d, which asked later, got it %d times", w.first / 4, mutex, host, r, l.bypass[w.first][r]); } } }
  return l;
}
static void cs_release(int r, int id, LockSt &l, long set, long mutex, long host) {
  if (l.holder != id) fail("MUTEX", "process %d lost the mutex", r); l.holder = -1; ev("unlock");
  if (set == 0) api[r].ARMCI_Unlock((int)mutex, (int)host); else api[r].ARMCIX_Unlock_hdl(H->mx[{r, set}], (int)mutex, (int)host);
}
static void do_cs(int r, int thr, int i, const Step &s) {
  const auto &p = s.p; const Api &A = api[r]; int id = r * 4 + thr; long hold = p[5] % 100, in = p[5] / 100 - 1;
  LockSt &l = cs_acquire(r, id, p[0], p[1], p[2], p[4] & 4);
  if (in >= 0) { LockSt &l2 = cs_acquire(r, id, p[0], in % 100, in / 100, false); for (int y = 0; y < hold; y++) yield("inside two critical sections"); cs_release(r, id, l2, p[0], in % 100, in / 100); hold = 0; }
  for (int y = 0; y < hold; y++) yield("inside a critical section");
  for (long j = 0; j < p[3]; j++) {
    const long *q = &p[6 + 4 * j]; CellKey k{q[0], (int)q[1], q[2]}; u8 *ra = raddr(q[0], (int)q[1], q[2]); int *b = (int *)pblk(r, 4); *b = 0; int how = (int)p[4] & 3;
    if (how == 2) *b = A.ARMCI_GetValueInt(ra, (int)q[1]); else if (how == 1) { armci_hdl_t *h = (armci_hdl_t *)pblk(r, sizeof *h); A.ARMCI_INIT_HANDLE(h); A.ARMCI_NbGet(ra, b, 4, (int)q[1], h); A.ARMCI_Wait(h); pfree(r, h); } else A.ARMCI_Get(ra, b, 4, (int)q[1]);
    auto c = H->cs.find(k); if (c != H->cs.end() && (int)c->second != *b) fail("MUTEX", "step %d: process %d read %d under the mutex; the previous holder left %d", i, r, *b, (int)c->second);
    int nv = (int)((unsigned)*b + (unsigned)q[3]); H->cs[k] = nv; *b = nv; yield("critical section");
    if (how == 2) A.ARMCI_PutValueInt(nv, ra, (int)q[1]); else if (how == 1) { armci_hdl_t *h = (armci_hdl_t *)pblk(r, sizeof *h); A.ARMCI_INIT_HANDLE(h); A.ARMCI_NbPut(b, ra, 4, (int)q[1], h); A.ARMCI_Wait(h); pfree(r, h); } else A.ARMCI_Put(b, ra, 4, (int)q[1]);
    if (p[4] & 8) A.ARMCI_AllFence(); else A.ARMCI_Fence((int)q[1]);
    pfree(r, b);
  }
  cs_release(r, id, l, p[0], p[1], p[2]);
}

// ------------------------------------------------------------------ groups
static void check_group(int r, int i, ARMCI_Group *g, const std::vector<int> &mem) {
  const Api &A = api[r]; int me = ME(i, r), pos = -1; for (size_t j = 0; j < mem.size(); j++) if (mem[j] == me) pos = (int)j; int *v = (int *)pblk(r, 4); *v = -99;
  if (pos < 0) { A.ARMCI_Group_rank(g, v); if (*v >= 0) fail("GROUP", "step %d: process %d is not a member but has rank %d", i, r, *v); pfree(r, v); return; }
  A.ARMCI_Group_size(g, v); if (*v != (int)mem.size()) fail("GROUP", "step %d: process %d sees a group of %d, must be %zu", i, r, *v, mem.size());
  A.ARMCI_Group_rank(g, v); if (*v != pos) fail("GROUP", "step %d: process %d has group rank %d, must be %d", i, r, *v, pos);
  for (size_t j = 0; j < mem.size(); j++) { int a = A.ARMCI_Absolute_id(g, (int)j); if (a != mem[j]) fail("GROUP", "step %d: process %d translates group rank %zu to %d, must be %d", i, r, j, a, mem[j]); }
  pfree(r, v);
}
static std::vector<int> gmembers(int i) { return H->I[i].gm; }

// ------------------------------------------------------------------ allocation
static void do_malloc(int r, int i, const Step &s) {
  const auto &p = s.p; const Api &A = api[r]; auto gm = gmembers(i); int me = ME(i, r), pos = 0; while (gm[pos] != me) pos++; int n = (int)gm.size(); void **tab = (void **)pblk(r, n * sizeof(void *)); for (int j = 0; j < n; j++) tab[j] = (void *)0x5555;
  int rc; long sz = far_size(K.cfg, p[4 + pos]);
  if (p[2] == 0) rc = A.ARMCI_Malloc(tab, sz); else if (p[2] == 1) rc = A.ARMCI_Malloc_group(tab, sz, grp(r, p[1])); else if (p[1] == 0 && (p[0] & 1)) rc = A.ARMCI_Malloc_memdev(tab, sz, "dev"); else rc = A.ARMCI_Malloc_group_memdev(tab, sz, grp(r, p[1]), "dev");
  if (rc) { if (H->P->alloc_mode) fail("CLEANSTOP", "allocation refused"); fail("ALLOC", "step %d: allocation returns %d", i, rc); }
  std::vector<void *> t(tab, tab + n); pfree(r, tab);
  auto it = H->table.find(i);
  if (it == H->table.end()) {
    H->table[i] = t; std::vector<u8 *> b(H->I[i].mem->size(), nullptr); std::vector<long> z(b.size(), 0);
    for (int j = 0; j < n; j++) {
      long w = far_size(K.cfg, p[4 + j]); int owner = (*H->I[i].mem)[gm[j]]; if (w == 0) { if (t[j]) fail("ALLOC", "step %d: share of size zero of process %d has a non-null base", i, gm[j]); continue; }
      if (!t[j]) fail("ALLOC", "step %d: share of %ld bytes of process %d has a null base", i, w, gm[j]);
      const char *e = mem_check(owner, t[j], w); if (e || addr_rank(t[j]) != owner) fail("ALLOC", "step %d: base of process %d is %s", i, gm[j], e ? e : "memory of another process"); if (mem_state(t[j]) == M_PRIV || mem_state(t[j]) == 255) fail("ALLOC", "step %d: base of process %d is not an allocation", i, gm[j]);
      for (auto &o : H->base) if (H->mstep[o.first] > last_init(i)) for (size_t q = 0; q < o.second.size(); q++) if (o.second[q] && (*H->I[i].mem)[q] == owner && (u8 *)t[j] < o.second[q] + H->size[o.first][q] && o.second[q] < (u8 *)t[j] + w) fail("ALLOC", "step %d: new share of process %d overlaps live allocation %ld", i, gm[j], o.first);
      b[gm[j]] = (u8 *)t[j]; z[gm[j]] = w;
    }
    H->base[p[0]] = b; H->size[p[0]] = z; H->mstep[p[0]] = i;
  } else if (it->second != t) fail("ALLOC", "step %d: process %d got other base addresses than the first process", i, r);
  ev("step %d allocated", i);
}
static void do_free(int r, int i, const Step &s) {
  const auto &p = s.p; const Api &A = api[r]; int me = ME(i, r); u8 *b = raddr(p[0], me, 0); int a = H->I[i].api; long gid = H->I[i].gid; if (H->base.count(p[0])) { H->dead[p[0]] = H->base[p[0]]; H->deadsize[p[0]] = H->size[p[0]]; }
  H->entered[i]++; if (H->base.count(p[0]) == 0) { b = H->dead[p[0]][me]; }
  int rc = gid == 0 && a == 0 ? A.ARMCI_Free(b) : gid == 0 && a == 2 ? A.ARMCI_Free_memdev(b) : A.ARMCI_Free_group(b, grp(r, gid)); if (rc && !H->P->alloc_mode) fail("ALLOC", "step %d: release returns %d", i, rc);
  H->base.erase(p[0]); H->size.erase(p[0]);
  if (b && H->P->nthreads == 1) { size_t z; if (mem_block(r, Z_WIN, b, &z) || mem_block(r, Z_HEAP, b, &z)) fail("ALLOC", "step %d: share of process %d still allocated after its release", i, r); }
  ev("step %d released", i);
}

// ------------------------------------------------------------------ forbidden accesses
static bool in_live(int tgt, int i, u8 *a, size_t n) { for (auto &o : H->base) if (tgt < (int)o.second.size() && o.second[tgt] && a >= o.second[tgt] && a + n <= o.second[tgt] + H->size[o.first][tgt]) return true; (void)i; return false; }
static void do_bad(int r, int i, const Step &s) {
  const auto &p = s.p; const Api &A = api[r]; int tgt = (int)p[2]; long len = p[4]; u8 *a = nullptr; static int priv_off = 0; (void)priv_off; int owner = (*H->I[i].mem)[tgt]; LBuf own;
  switch (p[0]) {
    case 0: a = raddr(p[1], tgt, p[3]); break; case 1: { auto d = H->dead.find(p[1]); if (d != H->dead.end()) a = d->second[tgt] + p[3]; break; }
    case 2: a = pblk(owner, len) ; break; case 3: a = raddr(p[1], tgt, 0) + H->size[p[1]][tgt] + p[3]; break;
    case 4: { auto &b = H->base[p[1]]; for (auto q : b) if (q) { a = q + p[3]; break; } break; }
  }
  { // what the call really touches; live allocations may lie next to each other, so that the pieces are all fine
    std::vector<std::pair<long, long>> seg; long h = len / 2, q = len / 8 * 4;
    switch (p[5]) {
      case 2: seg = {{0, (len + 3) / 4 * 4}}; break; case 3: h = std::max(1L, h); seg = {{0, h}, {h, h}}; break;
      case 4: case 5: seg = {{0, std::max(1L, len - h)}}; if (len > 1) seg.push_back({h, std::max(1L, len - h)}); break;
      case 6: case 12: seg = {{0, len >= 8 ? 8 : 4}}; break; case 9: q = std::max(4L, q); seg = {{0, q}, {q, q}}; break; case 10: seg = {{0, std::max(4L, q)}, {q, std::max(4L, q)}}; break;
      case 0: case 1: case 7: case 8: seg = {{0, len}}; break; default: seg = {{0, 8}};
    }
    bool fine = true; for (auto &g : seg) fine &= a && in_live(tgt, i, a + g.first, g.second); if (!a || fine || in_live(tgt, i, a, len)) { H->bad_skipped = true; return; } }
  size_t pad = 64; u8 *l = pblk(r, len + pad); memset(l, 3, len + pad); H->bad_started = true; H->bad_rank = r; int shape = (int)p[5]; double one = 1; int ione = 1; (void)one;
  ev("forbidden access %d", shape);
  switch (shape) {
    case 0: A.ARMCI_Put(l, a, (int)len, tgt); break; case 1: A.ARMCI_Get(a, l, (int)len, tgt); break;
    case 2: A.ARMCI_Acc(ARMCI_ACC_INT, &ione, l, a, (int)((len + 3) / 4 * 4), tgt); break;
    case 3: { int st[1] = {(int)std::max(1L, len / 2)}, c[2] = {(int)std::max(1L, len / 2), 2}; A.ARMCI_PutS(l, st, a, st, c, 1, tgt); break; }
    case 4: { void *sp[2] = {l, l + len / 2}, *dp[2] = {a, a + len / 2}; armci_giov_t g{sp, dp, (int)std::max(1L, len - len / 2), len > 1 ? 2 : 1}; A.ARMCI_PutV(&g, 1, tgt); break; }
    case 5: { void *sp[2] = {a, a + len / 2}, *dp[2] = {l, l + len / 2}; armci_giov_t g{sp, dp, (int)std::max(1L, len - len / 2), len > 1 ? 2 : 1}; A.ARMCI_GetV(&g, 1, tgt); break; }
    case 6: { long v = 0; A.ARMCI_Rmw(len >= 8 ? ARMCI_FETCH_AND_ADD_LONG : ARMCI_FETCH_AND_ADD, &v, a, 1, tgt); break; }
    case 7: { armci_hdl_t h; A.ARMCI_INIT_HANDLE(&h); A.ARMCI_NbPut(l, a, (int)len, tgt, &h); A.ARMCI_Wait(&h); break; }
    case 8: A.ARMCI_NbGet(a, l, (int)len, tgt, nullptr); A.ARMCI_WaitAll(); break;
    case 9: { int st[1] = {(int)std::max(4L, len / 8 * 4)}, c[2] = {(int)std::max(4L, len / 8 * 4), 2}; A.ARMCI_AccS(ARMCI_ACC_INT, &ione, l, st, a, st, c, 1, tgt); break; }
    case 10: { void *sp[2] = {l, l + len / 8 * 4}, *dp[2] = {a, a + len / 8 * 4}; armci_giov_t g{sp, dp, (int)std::max(4L, len / 8 * 4), 2}; A.ARMCI_AccV(ARMCI_ACC_INT, &ione, &g, 1, tgt); break; }
    case 11: A.ARMCI_PutValueDouble(1.0, a, tgt); break;
    case 12: { long v = 7; A.ARMCI_Rmw(len >= 8 ? ARMCI_SWAP_LONG : ARMCI_SWAP, &v, a, 0, tgt); break; }
    default: A.ARMCI_GetValueLong(a, tgt);
  }
  fail("NOTSTOPPED", "step %d: process %d performed a forbidden access (kind %ld, call %d) to process %d and was not stopped", i, r, p[0], shape, tgt);
}

// the application gives up: nobody goes on
static void do_fatal(int r, int i, const Step &s) {
  const auto &p = s.p; const Api &A = api[r]; H->bad_started = true; H->bad_rank = r; H->fatal = i; ev("fatal error");
  if (p[0] == 0) { char *m = (char *)pblk(r, 40); snprintf(m, 40, "giving up, reason <%ld>", p[2]); A.ARMCI_Error(m, (int)p[1]); } else A.armci_msg_abort((int)p[1]);
  fail("NOTSTOPPED", "step %d: process %d goes on after reporting a fatal error", i, r);
}

// ------------------------------------------------------------------ one step
static void enter_check(int i, int r, const char *cat, const char *what) { int n = H->entered[i], m = (int)H->I[i].part.size(); if (n != m) fail(cat, "process %d left the %s of step %d when only %d of %d processes had entered", r, what, i, n, m); }
static void do_init(int r, int i, const Step &s) {
  const auto &p = s.p; const Api &A = api[r]; bool member = ME(i, r) >= 0; int rc = 0; int lev = H->P->nthreads > 1 ? 3 : 0; auto v = H->P->vars.find("SIM_ARMCI_LEVEL"); if (v != H->P->vars.end()) lev = std::max(lev, atoi(v->second.c_str())); lev = std::min(lev, K.cfg.thread_level); auto over = H->P->vars.find("SIM_OVERLEVEL"); if (over != H->P->vars.end()) lev = std::min(3, K.cfg.thread_level + 1 + atoi(over->second.c_str()));
  if (!H->mpi_up.count(r)) { int prov; H->mpi_up.insert(r); MPI_Init_thread(nullptr, nullptr, 3, &prov); }
  MPI_Comm c = MPI_COMM_NULL; if (p[0] >= 3) { MPI_Comm_split(MPI_COMM_WORLD, member ? 1 : MPI_UNDEFINED, ME(i, r), &c); }
  if (!member) return;
  if (over != H->P->vars.end() && (p[0] == 2 || p[0] == 3)) { H->bad_started = true; H->bad_rank = -2; }
  H->leak0[r] = mpi_leaks(r); H->heap0[r] = mem_live(r, Z_HEAP, nullptr); if (c != MPI_COMM_NULL) H->leak0[r].comms--;
  if (A.ARMCI_Initialized()) fail("INITFINI", "process %d: initialised before initialisation", r);
  for (int k = 0; k < std::max(1L, p[1]); k++) switch (p[0]) { case 0: rc |= A.ARMCI_Init(); break; case 1: rc |= A.ARMCI_Init_args(nullptr, nullptr); break; case 2: rc |= A.ARMCI_Init_thread(lev); break; case 3: rc |= A.ARMCI_Init_thread_comm(lev, c); break; default: rc |= A.ARMCI_Init_mpi_comm(c); }
  if (c != MPI_COMM_NULL) MPI_Comm_free(&c);
  if (rc) { if (H->P->alloc_mode) fail("CLEANSTOP", "initialisation refused"); fail("INITFINI", "process %d: initialisation returns %d", r, rc); }
  if (H->bad_started) fail("NOTSTOPPED", "process %d: initialisation with thread level %d succeeds although the message-passing library provides %d", r, lev, K.cfg.thread_level);
  if (!A.ARMCI_Initialized()) fail("INITFINI", "process %d: not initialised after initialisation", r);
  int n = A.armci_msg_nproc(), me = A.armci_msg_me(); if (n != (int)H->I[i].mem->size() || me != ME(i, r)) fail("INITFINI", "process %d: rank %d of %d, must be %d of %zu", r, me, n, ME(i, r), H->I[i].mem->size());
  ev("initialised");
}
static void do_fini(int r, int i) {
  const Api &A = api[r]; long nest = std::max(1L, H->P->steps[last_init(i)].p[1]);
  for (auto it = H->grp.begin(); it != H->grp.end();) if (it->first.first == r) { pfree(r, it->second); it = H->grp.erase(it); } else ++it;
  for (auto it = H->hdl.begin(); it != H->hdl.end();) if (it->first.first / 4 == r) { pfree(r, it->second); H->hused.erase(it->first); it = H->hdl.erase(it); } else ++it;
  for (int k = 0; k < nest; k++) {
    if (!A.ARMCI_Initialized()) fail("INITFINI", "process %d: finalised after %d of %ld matching calls", r, k, nest);
    if (k == nest - 1 && nest > 1) A.ARMCI_Barrier();   // still usable before the last call
    int rc = A.ARMCI_Finalize(); if (rc && !H->P->alloc_mode) fail("INITFINI", "process %d: finalisation returns %d", r, rc);
  }
  if (A.ARMCI_Initialized()) fail("INITFINI", "process %d: still initialised after finalisation", r);
  for (int f = 0; f < K.nfib; f++) if (K.fib[f].rank == r && K.fib[f].thr >= H->P->nthreads && K.fib[f].st != FS_DONE) fail("THREADLEFT", "process %d: a thread of the library runs after finalisation", r);
  Leak a = H->leak0[r], b = mpi_leaks(r); size_t heap = mem_live(r, Z_HEAP, nullptr);
  if (EX(i).has_val) { b.comms = a.comms; heap = H->heap0[r]; }   // the program left groups behind (and allocations on them)
  if (b.comms != a.comms || b.groups != a.groups || b.types != a.types || b.ops != a.ops || b.infos != a.infos || b.wins != a.wins || b.reqs != a.reqs || b.mems > a.mems || b.posted != a.posted || b.msgs > 0)
    fail("LEAK", "process %d leaves behind after finalisation: communicators %ld groups %ld datatypes %ld operators %ld infos %ld windows %ld requests %ld memory %ld posted %ld unreceived %ld", r, b.comms - a.comms, b.groups - a.groups, b.types - a.types, b.ops - a.ops, b.infos - a.infos, b.wins - a.wins, b.reqs - a.reqs, b.mems - a.mems, b.posted - a.posted, b.msgs);
  if (heap != H->heap0[r]) fail("LEAK", "process %d leaves %zu heap blocks behind after finalisation", r, heap - H->heap0[r]);
  if (++H->returned[i] == (int)H->I[i].part.size()) for (auto it = H->base.begin(); it != H->base.end();) if (H->mstep[it->first] < i) { H->size.erase(it->first); it = H->base.erase(it); } else ++it;
  ev("finalised");
}
static void exec_step(int r, int thr, int i, const Step &s) {
  const auto &p = s.p; const Api &A = api[r]; int me = H->I[i].mem ? ME(i, r) : -1; const Expect &e = EX(i); H->nsteps++;
  ev("step %d %s", i, kind_name[s.k]);
  switch (s.k) {
    case S_INIT: do_init(r, i, s); break;
    case S_FINI: do_fini(r, i); break;
    case S_MALLOC: do_malloc(r, i, s); break;
    case S_FREE: do_free(r, i, s); break;
    case S_XFER: do_xfer(r, thr, i, s); break;
    case S_WAIT: { auto k = std::make_pair(r * 4 + thr, (int)p[0]); armci_hdl_t *h = handle(r, thr, (int)p[0], false, i); if (int c = A.ARMCI_Wait(h)) fail("DATA", "step %d: waiting for a handle reports failure %d", i, c); H->hused[k] = p[0] & 1; for (int o : e.covers) complete_op(r, o, "after ARMCI_Wait"); ev("waited"); break; }
    case S_TEST: {
      auto k = std::make_pair(r * 4 + thr, (int)p[0]); armci_hdl_t *h = handle(r, thr, (int)p[0], false, i); int n = 0; while (A.ARMCI_Test(h)) { if (++n > 4000) fail("NOPROGRESS", "step %d: process %d polled a handle 4000 times without completion", i, r); K.cur->spin = true; yield("polling a handle"); }
      H->hused[k] = p[0] & 1; for (int o : e.covers) complete_op(r, o, "after ARMCI_Test reported completion"); if (p[0] & 2) { if (A.ARMCI_Test(h)) { int m = 0; while (A.ARMCI_Test(h)) if (++m > 50) fail("NOPROGRESS", "step %d: a handle whose completion was reported is never reported complete again", i); } } ev("tested"); break; }
    case S_WAITPROC: if (int c = A.ARMCI_WaitProc((int)p[0])) fail("DATA", "step %d: waiting for a process reports failure %d", i, c); for (int o : e.covers) complete_op(r, o, "after ARMCI_WaitProc"); break;
    case S_WAITALL: if (int c = A.ARMCI_WaitAll()) fail("DATA", "step %d: waiting for everything reports failure %d", i, c); for (int o : e.covers) complete_op(r, o, "after ARMCI_WaitAll"); break;
    case S_FENCE: A.ARMCI_Fence((int)p[0]); check_fence("after a fence", r, i, e); ev("fenced"); break;
    case S_ALLFENCE: A.ARMCI_AllFence(); check_fence("after a fence to all", r, i, e); ev("fenced"); break;
    case S_BARRIER: H->entered[i]++; if (H->P->vars.count("SIM_MSGBAR")) { A.ARMCI_AllFence(); A.armci_msg_barrier(); } else A.ARMCI_Barrier(); enter_check(i, r, "BARRIER", "barrier"); if (H->returned[i]++ == 0) check_phase(i, e); break;
    case S_MSGBAR: H->entered[i]++; A.armci_msg_barrier(); enter_check(i, r, "BARRIER", "message barrier"); break;
    case S_GBAR: H->entered[i]++; A.armci_msg_group_barrier(grp(r, p[0])); enter_check(i, r, "BARRIER", "group barrier"); break;
    case S_LSTORE: { u8 *a = raddr(p[0], me, p[1]); if (!a) break; if ((p[3] & 1) || K.cfg.separate) A.ARMCI_Access_begin(raddr(p[0], me, 0)); for (long j = 0; j < p[2]; j++) { u8 *c = raddr(p[0], me, p[1] + j); sep_access(r, c, 1, true, "the program"); *c = e.data[j]; } if (p[3] & 1) A.ARMCI_Access_end(raddr(p[0], me, 0)); ev("stored"); break; }
    case S_LLOAD: { u8 *a = raddr(p[0], me, p[1]); if (!a) break; if (p[3] & 1) A.ARMCI_Access_begin(raddr(p[0], me, 0)); for (long j = 0; j < p[2]; j++) sep_access(r, raddr(p[0], me, p[1] + j), 1, false, "the program"); for (long j = 0; j < p[2]; j++) if (e.mask[j] && *raddr(p[0], me, p[1] + j) != e.data[j]) mismatch("MEMORY", "direct load by the owner", r, p[0], me, p[1] + j, e.data[j]); if (p[3] & 1) A.ARMCI_Access_end(raddr(p[0], me, 0)); break; }
    case S_RMW: {
      long w = (p[0] & 1) ? 8 : 4; u8 *loc = pblk(r, 8); memset(loc, 0x77, 8); u8 *ra = raddr(p[1], (int)p[2], p[3]); bool swap = p[0] >= 2; if (swap) { if (w == 4) { int v = (int)p[4]; memcpy(loc, &v, 4); } else memcpy(loc, &p[4], 8); }
      Rec &rc = H->rec[i]; rc.done = false; rc.t0 = K.step; int c = A.ARMCI_Rmw(p[0] == 0 ? ARMCI_FETCH_AND_ADD : p[0] == 1 ? ARMCI_FETCH_AND_ADD_LONG : p[0] == 2 ? ARMCI_SWAP : ARMCI_SWAP_LONG, loc, ra, (int)p[4], (int)p[2]); if (c) fail("RMW", "step %d: read-modify-write reports failure %d", i, c);
      Rec &r2 = H->rec[i]; r2.t1 = K.step; if (w == 4) { int v; memcpy(&v, loc, 4); r2.res = v; if (loc[4] != 0x77) fail("DATA", "32-bit read-modify-write of step %d wrote beyond its result", i); } else memcpy(&r2.res, loc, 8); r2.done = true; pfree(r, loc); check_rmw_visible(r, i, s); ev("rmw -> %ld", r2.res); break; }
    case S_MXCREATE: { auto gm = gmembers(i); int pos = 0; while (gm[pos] != me) pos++; if (p[0] == 0) { int rc = A.ARMCI_Create_mutexes((int)p[2 + pos]); if (rc) fail(H->P->alloc_mode ? "CLEANSTOP" : "MUTEX", "creating mutexes returns %d", rc); } else { auto h = A.ARMCIX_Create_mutexes_hdl((int)p[2 + pos], grp(r, p[1])); if (!h) fail(H->P->alloc_mode ? "CLEANSTOP" : "MUTEX", "creating mutexes returns NULL"); H->mx[{r, p[0]}] = h; } break; }
    case S_MXDESTROY: { int rc = p[0] == 0 ? A.ARMCI_Destroy_mutexes() : A.ARMCIX_Destroy_mutexes_hdl(H->mx[{r, p[0]}]); if (rc) fail("MUTEX", "destroying mutexes returns %d", rc); break; }
    case S_CS: do_cs(r, thr, i, s); break;
    case S_GCREATE: {
      long gid = p[0]; int how = (int)p[1], n = (int)p[3];
      if (how <= 1) { int *list = (int *)pblk(r, n * 4); for (int j = 0; j < n; j++) list[j] = (int)p[4 + j]; ARMCI_Group *g = grp(r, gid); if (how == 0) A.ARMCI_Group_create(n, list, g); else A.ARMCI_Group_create_child(n, list, g, grp(r, p[2])); for (int j = 0; j < n; j++) if (list[j] != p[4 + j]) fail("GROUP", "step %d: group creation changed the caller's list", i); pfree(r, list); check_group(r, i, g, gmembers(i)); }
      else if (how == 3) { ARMCI_Group *g = grp(r, gid); int rc = A.ARMCIX_Group_dup(grp(r, p[2]), g); if (rc) fail("GROUP", "dup returns %d", rc); check_group(r, i, g, gmembers(i)); }
      else { auto par = gmembers(i); int pos = 0, np = (int)par.size(); while (par[pos] != me) pos++; long col = p[4 + pos], key = p[4 + np + pos]; ARMCI_Group *g; if (col < 0) g = (ARMCI_Group *)pblk(r, sizeof *g); else g = grp(r, gid + col); int rc = A.ARMCIX_Group_split(grp(r, p[2]), col < 0 ? MPI_UNDEFINED : (int)col, (int)key, g); if (rc) fail("GROUP", "split returns %d", rc);
        std::vector<std::pair<long, int>> v; if (col >= 0) for (int j = 0; j < np; j++) if (p[4 + j] == col) v.push_back({p[4 + np + j], j}); std::sort(v.begin(), v.end()); std::vector<int> m; for (auto &q : v) m.push_back(par[q.second]); check_group(r, i, g, m); if (col < 0) { A.ARMCI_Group_free(g); pfree(r, g); } }
      ev("group made"); break; }
    case S_GFREE: { ARMCI_Group *g = grp(r, p[0]); A.ARMCI_Group_free(g); pfree(r, g); H->grp.erase({r, p[0]}); break; }
    case S_SETDEF: { A.ARMCI_Group_set_default(grp(r, p[0])); ARMCI_Group *g = (ARMCI_Group *)pblk(r, sizeof *g); A.ARMCI_Group_get_default(g); check_group(r, i, g, gmembers(i)); pfree(r, g); break; }
    case S_GOP: do_gop(r, i, s); break;
    case S_SEL: do_sel(r, i, s); break;
    case S_BCAST: do_bcast(r, i, s); break;
    case S_MSG: do_msg(r, i, s); break;
    case S_FANIN: do_fanin(r, i, s); break;
    case S_POLL: { int st = -1; for (int j = i - 1; j >= 0; j--) if (H->P->steps[j].k == S_XFER && H->P->steps[j].p[X_UID] == p[0] && H->P->steps[j].p[X_MODE] == MD_FLAG) { st = j; break; } if (st < 0) break; const Step &q = H->P->steps[st]; volatile int *f = (int *)raddr(q.p[X_FRID], me, q.p[X_FOFF]); int n = 0;
      while (*f != (int)q.p[X_FVAL]) { if (++n > 20000) fail("NOPROGRESS", "step %d: process %d never saw the flag", i, r); A.ARMCIX_Progress(); K.cur->spin = true; yield("polling a flag"); }
      check_bytes("FLAG", "after the flag was seen", r, EX(st).bytes); ev("flag seen"); break; }
    case S_PROGRESS: A.ARMCIX_Progress(); break;
    case S_IDLE: for (long j = 0; j < p[0]; j++) yield("computing"); break;
    case S_MLOCAL: { LBuf b = get_buf(r, 2, p[0], 0, 0, me, 0); yield("local memory"); for (long j = 0; j < p[0]; j++) if (b.p[j] != (u8)(0x5A ^ (j * 7))) fail("DATA", "local memory changed"); drop_buf(r, b); break; }
    case S_BAD: do_bad(r, i, s); break;
    case S_TREE: do_tree(r, i, s); break;
    case S_FATAL: do_fatal(r, i, s); break;
  }
}
static void thread_main(void *a) {
  long v = (long)a; int r = (int)(v / 4), thr = (int)(v % 4); const Program &P = *H->P; int n = (int)P.steps.size();
  int lastcoll = -1;
  for (int i = 0; i < n; i++) {
    const Step &s = P.steps[i];
    if (s.rank < 0) {
      lastcoll = i; if (thr) continue; auto &pt = H->I[i].part; if (std::find(pt.begin(), pt.end(), r) == pt.end()) { H->mainpos[r] = i; continue; }
      for (int t = 1; t < P.nthreads; t++) { int *q = &H->thrpos[r][t]; wait_until([=] { return *q >= i; }, "waiting for own threads"); }
      exec_step(r, 0, i, s); H->mainpos[r] = i; yield("between steps");
    } else if (s.rank == r && s.thr == thr) {
      if (thr) { H->thrpos[r][thr] = i; int lc = lastcoll; int *m = &H->mainpos[r]; wait_until([=] { return *m >= lc; }, "waiting for the main thread"); }
      exec_step(r, thr, i, s); yield("between steps");
    } 
    if (thr) { // position: next own step
      int j = i + 1; while (j < n && !(P.steps[j].rank == r && P.steps[j].thr == thr)) j++; H->thrpos[r][thr] = j; 
    }
  }
  if (thr) { H->thrpos[r][thr] = 1 << 30; return; }
  for (int t = 1; t < P.nthreads; t++) { int *q = &H->thrpos[r][t]; wait_until([=] { return *q >= (1 << 30); }, "waiting for own threads"); }
  H->mainpos[r] = 1 << 30;
  if (H->mpi_up.count(r) && !H->live_end) MPI_Finalize();
}

// ------------------------------------------------------------------ entry points
bool prepare(const Program &P, std::string *why) {
  delete H; H = new HS(); H->P = &P; Model m; m.begin(&P, &H->E); int n = (int)P.steps.size(); H->I.resize(n); std::vector<int> all; for (int r = 0; r < P.env.nranks; r++) all.push_back(r);
  for (int i = 0; i < n; i++) {
    const Step &s = P.steps[i]; SInfo &I = H->I[i]; long g = -1;
    // what is about to disappear is looked up first
    if (s.k == S_FREE) { auto it = m.regions.find(s.p.empty() ? -1 : s.p[0]); if (it != m.regions.end()) { g = it->second.gid; I.api = it->second.api; } }
    if (s.k == S_MXDESTROY && !s.p.empty() && m.mutexes.count(s.p[0])) g = m.mutexes[s.p[0]].gid;
    if (!m.admit(s, i)) { if (why) *why = "step " + std::to_string(i) + " (" + step_text(s) + "): " + m.why; return false; }
    if (s.k == S_INIT) { H->sessions.push_back(m.members); }
    I.mem = &H->sessions.back(); const auto &mem = *I.mem; bool coll = true; std::vector<int> abs; for (int j = 0; j < (int)mem.size(); j++) abs.push_back(j);
    switch (s.k) {
      case S_INIT: break; case S_FINI: case S_BARRIER: case S_MSGBAR: case S_SEL: case S_TREE: break;
      case S_MALLOC: g = s.p[1]; break; case S_FREE: case S_MXDESTROY: break; case S_MXCREATE: g = s.p[1]; break;
      case S_GCREATE: { auto &P0 = m.groups[s.p[2]]; if (s.p[1] <= 1) { auto &q = m.groups[s.p[0]]; I.gm = q.mem; abs = q.coll ? P0.mem : q.mem; } else { I.gm = P0.mem; abs = P0.mem; } break; }
      case S_GFREE: { auto &q = m.groups[s.p[0]]; abs = q.coll ? q.parent : q.mem; break; }
      case S_SETDEF: g = s.p[0]; if (g == 0) { I.gm = m.groups[0].mem; g = -1; } break;
      case S_GBAR: case S_GOP: g = s.p[0]; break; case S_BCAST: g = s.p[1]; break;
      case S_MSG: abs = {(int)s.p[0], (int)s.p[1]}; break;
      case S_FANIN: abs = {(int)s.p[0]}; for (size_t j = 8; j < s.p.size(); j++) abs.push_back((int)s.p[j]); break;
      default: coll = false;
    }
    if (coll != (s.rank < 0)) { if (why) *why = "step " + std::to_string(i) + ": wrong caller"; return false; }
    if (g >= 0) { abs = m.groups[g].mem; I.gm = abs; I.gid = g; }
    if (coll) { if (s.k == S_INIT && s.p[0] >= 3) I.part = all; else for (int a : abs) I.part.push_back(mem[a]); }
    else if (s.thr < 0 || s.thr >= P.nthreads || s.rank >= P.env.nranks) { if (why) *why = "step " + std::to_string(i) + ": no such thread"; return false; }
  }
  m.finish(); H->live_end = m.live; int pe = -1; for (int i = n - 1; i >= 0; i--) { if (P.steps[i].k == S_BARRIER || P.steps[i].k == S_FINI) pe = i; H->I[i].phase_end = pe; }
  return true;
}
void exec_program(const Program &P) {
  lib_reset(P.env.nranks); sim::env.clear(); for (auto &v : P.vars) if (v.first.compare(0, 4, "SIM_")) sim::env[v.first] = v.second; rreq_limit = P.rreq_limit; alloc_fatal = P.vars.count("SIM_ALLOC_FATAL") > 0;
  on_apply_hook = on_apply; for (int r = 0; r < MAXR; r++) { H->mainpos[r] = -1; for (int t = 0; t < 4; t++) H->thrpos[r][t] = -1; } H->bad_started = H->bad_skipped = false; H->fatal = -1; H->bad_rank = -1; H->nops = H->nsteps = 0;
  for (int r = 0; r < P.env.nranks; r++) for (int t = 0; t < P.nthreads; t++) spawn(r, t, thread_main, (void *)(long)(r * 4 + t));
}
// the whole job must be stopped, with the reason given
static bool fatal_bad(const Program &P, std::string &cat, std::string &msg) {
  cat = "NOTSTOPPED"; std::ostringstream o; const auto &mem = H->sessions.back();
  for (int x : mem) if (!K.outc.abort_covers.count(x)) { o << "process " << K.outc.rank << " stops the program without process " << x; msg = o.str(); return true; }
  if (H->fatal < 0) { if (!K.outc.abort_code) { msg = "the program is stopped after a forbidden access, but reports success"; return true; } return false; }
  const auto &p = P.steps[H->fatal].p; if (K.outc.abort_code != p[1]) { o << "the program is stopped with code " << K.outc.abort_code << ", process " << K.outc.rank << " gave " << p[1]; msg = o.str(); return true; }
  if (p[0] == 0) { o << "reason <" << p[2] << ">"; if (K.log.size() < 90000 && K.log.find(o.str()) == std::string::npos) { msg = "the message of the fatal error was not printed"; return true; } }
  return false;
}
// does the outcome of the run break the property?
bool violation(const Program &P, std::string &cat, std::string &msg) {
  cat = K.outc.cat; msg = K.outc.msg;
  if (P.expect_stop) { if (cat == "ABORT" && H->bad_started && (H->bad_rank == -2 || K.outc.rank == H->bad_rank)) return P.profile == "P27" && fatal_bad(P, cat, msg); if (cat.empty()) { if (H->bad_started) { cat = "NOTSTOPPED"; msg = "the program ended normally"; return true; } return false; } return true; }
  if (P.alloc_mode && K.nalloc_failed > 0 && (cat == "ABORT" || cat == "CLEANSTOP")) return false;
  return !cat.empty();
}
RunStats run_stats() { RunStats s; s.ops = H->nops; s.steps = H->nsteps; s.bad_started = H->bad_started; return s; }
}
