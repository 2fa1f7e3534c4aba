// Entry points of the simulated MPI (included by mpi.cpp).
namespace sim { const char *libversion = "Open MPI v4.1.6, package: simulated"; int lib_kind = 0; bool alloc_fatal = false; }
static MPI_Comm HC(u64 h) { return (MPI_Comm)h; }
static Group *G(MPI_Group g, const char *fn) {
  static Group empty{-1, {}, false};
  if (g == MPI_GROUP_EMPTY) { empty.g.clear(); return &empty; }
  if (g == MPI_GROUP_NULL) fail("MPI-USAGE", "%s on the null group", fn);
  return groups.get((u64)g, fn);
}
static MPI_Group mkgroup(std::vector<int> g) { return (MPI_Group)groups.add(Group{K.cur->rank, std::move(g)}); }
static MPI_Comm mkcomm(int ctx, std::vector<int> g, bool inter = false, std::vector<int> rg = {}) {
  int me = -1; for (size_t i = 0; i < g.size(); i++) if (g[i] == K.cur->rank) me = (int)i;
  return HC(comms.add(Comm{K.cur->rank, ctx, inter, std::move(g), std::move(rg), me}));
}
static int keyed_ctx(Coll &c, const std::vector<int> &key, const std::vector<int> &mem) { auto it = c.ctxs.find(key); if (it != c.ctxs.end()) return it->second; int x = new_ctx(mem); c.ctxs[key] = x; return x; }
static void set_status(MPI_Status *s, const MPI_Status &v) { if (s != MPI_STATUS_IGNORE) { int e = s->MPI_ERROR; *s = v; s->MPI_ERROR = e; } }
static void need_rank(Comm *c, int r, const char *fn, bool any = false) { if (any && r == MPI_ANY_SOURCE) return; if (r < 0 || r >= (int)(c->inter ? c->rg : c->g).size()) fail("MPI-USAGE", "%s: rank %d is not in the communicator of %zu", fn, r, c->g.size()); }
static int wrank(Comm *c, int r) { return c->inter ? c->rg[r] : c->g[r]; }
static void req_need(u64 h) { for (auto o : pend) if (o->req == h) o->needed = std::max(o->needed, 1); }
static void push_req_need(u64 h) { req_need(h); want_deps(); }
static bool range_overlap(const void *a, size_t n, const void *b, size_t m) { return n && m && (const u8 *)a < (const u8 *)b + m && (const u8 *)b < (const u8 *)a + n; }
static long opsig(MPI_Op op) { return (u64)op >= OK_OP + 0x100 ? -1 : (long)((u64)op - OK_OP); }
static void need_op(MPI_Op op, const char *fn) { if ((u64)op >= OK_OP + 0x100) ops_.get((u64)op, fn); else if (op == MPI_OP_NULL) fail("MPI-USAGE", "%s with the null operation", fn); }

extern "C" {
// ------------------------------------------------------------------ environment
int MPI_Init_thread(int *, char ***, int req, int *prov) {
  Fiber *f = K.cur; Proc &p = procs[f->rank]; if (p.inited) fail("MPI-USAGE", "MPI initialised twice by process %d", f->rank);
  yield("MPI_Init"); p.inited = true; p.level = std::min(req, K.cfg.thread_level); if (prov) *prov = p.level; return 0;
}
int MPI_Init(int *a, char ***b) { return MPI_Init_thread(a, b, MPI_THREAD_SINGLE, nullptr); }
int MPI_Initialized(int *f) { *f = procs[K.cur->rank].inited; return 0; }
int MPI_Finalized(int *f) { *f = procs[K.cur->rank].finalized; return 0; }
int MPI_Finalize(void) {
  ENTER("Finalize"); CollRun r(&procs[_e.r].world, "MPI_Finalize", {}, _e.r); r.arrive(); r.wait_all(); r.leave();
  for (int i = 0; i < K.nfib; i++) if (&K.fib[i] != _e.f && K.fib[i].rank == _e.r && K.fib[i].mpi_depth > 0) fail("MPI-USAGE", "MPI_Finalize while another thread of process %d is inside %s", _e.r, K.fib[i].mpi);
  procs[_e.r].finalized = true; return 0;
}
int MPI_Abort(MPI_Comm c, int code) { 
  K.outc.abort_code = code; K.outc.abort_covers.clear(); Comm *cc = c == MPI_COMM_WORLD ? &procs[K.cur->rank].world : c == MPI_COMM_SELF ? &procs[K.cur->rank].self : comms.find((u64)c);
  if (cc) for (int x : cc->g) K.outc.abort_covers.insert(x);
  std::string m = K.log; if (m.size() > 260) m = m.substr(m.size() - 260); for (char &c : m) if (c == '\n' || (unsigned char)c < 32) c = ' ';
  fail("ABORT", "process %d aborted the program (code %d)%s%s", K.cur->rank, code, m.empty() ? "" : "; last output: ", m.c_str()); }
int MPI_Query_thread(int *l) { ENTERQ("Query_thread"); *l = procs[_e.r].level; return 0; }
int MPI_Is_thread_main(int *l) { *l = K.cur->thr == 0; return 0; }
static int wt_rep[MAXF]; static const char *const WT = "MPI_Wtime";
double MPI_Wtime(void) { Fiber *f = K.cur; if (f) { int &n = wt_rep[f->id]; n = f->what == WT ? n + 1 : 0; yield(WT); if (n) { K.clock += 1000ULL << std::min(n, 12); fire(F_clock_jump); } } return 1e-6 * (double)K.clock; }
double MPI_Wtick(void) { return 1e-6; }
int MPI_Get_version(int *a, int *b) { *a = 3; *b = 1; return 0; }
int MPI_Get_library_version(char *s, int *n) { strcpy(s, libversion); *n = (int)strlen(s); return 0; }
int MPI_Get_processor_name(char *s, int *n) { strcpy(s, "simulated"); *n = 9; return 0; }
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return 0; }
MPI_Aint MPI_Aint_add(MPI_Aint a, MPI_Aint b) { return a + b; }
MPI_Aint MPI_Aint_diff(MPI_Aint a, MPI_Aint b) { return a - b; }
int MPI_Error_string(int e, char *s, int *n) { snprintf(s, MPI_MAX_ERROR_STRING, "error %d", e); *n = (int)strlen(s); return 0; }
int MPI_Error_class(int e, int *c) { *c = e; return 0; }
int MPI_Pcontrol(const int, ...) { return 0; }

// ------------------------------------------------------------------ communicators
int MPI_Comm_rank(MPI_Comm c, int *r) { ENTERQ("Comm_rank"); *r = C(c, "MPI_Comm_rank")->me; return 0; }
int MPI_Comm_size(MPI_Comm c, int *n) { ENTERQ("Comm_size"); *n = (int)C(c, "MPI_Comm_size")->g.size(); return 0; }
int MPI_Comm_remote_size(MPI_Comm c, int *n) { ENTERQ("Comm_remote_size"); *n = (int)C(c, "MPI_Comm_remote_size")->rg.size(); return 0; }
int MPI_Comm_test_inter(MPI_Comm c, int *n) { ENTERQ("Comm_test_inter"); *n = C(c, "MPI_Comm_test_inter")->inter; return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) {
  ENTERQ("Comm_compare"); Comm *x = C(a, "MPI_Comm_compare"), *y = C(b, "MPI_Comm_compare");
  if (x->ctx == y->ctx) *r = MPI_IDENT; else if (x->g == y->g) *r = MPI_CONGRUENT; else { auto p = x->g, q = y->g; std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end()); *r = p == q ? MPI_SIMILAR : MPI_UNEQUAL; } return 0;
}
int MPI_Comm_group(MPI_Comm c, MPI_Group *g) { ENTERQ("Comm_group"); *g = mkgroup(C(c, "MPI_Comm_group")->g); return 0; }
int MPI_Comm_remote_group(MPI_Comm c, MPI_Group *g) { ENTERQ("Comm_remote_group"); *g = mkgroup(C(c, "MPI_Comm_remote_group")->rg); return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o) {
  ENTER("Comm_dup"); Comm *x = C(c, "MPI_Comm_dup"); CollRun r(x, "MPI_Comm_dup", {}, _e.r); r.arrive(); r.wait_all();
  int k = keyed_ctx(r.c, {0}, ctxs[x->ctx].mem); *o = mkcomm(k, x->g, x->inter, x->rg); r.leave(); return 0;
}
int MPI_Comm_dup_with_info(MPI_Comm c, MPI_Info, MPI_Comm *o) { return MPI_Comm_dup(c, o); }
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *o) {
  ENTER("Comm_create"); Comm *x = C(c, "MPI_Comm_create"); if (x->inter) fail("MPI-USAGE", "MPI_Comm_create on an inter-communicator is not simulated");
  std::vector<int> m = G(g, "MPI_Comm_create")->g; for (int w : m) if (CollRun::idx(x->g, w) < 0) fail("MPI-USAGE", "MPI_Comm_create: process %d is not in the parent communicator", w);
  CollRun r(x, "MPI_Comm_create", {}, _e.r); for (int w : m) r.mine().v.push_back(w); r.arrive(); r.wait_all();
  int me = CollRun::idx(m, _e.r);
  for (size_t i = 0; i < r.c.parts.size(); i++) { int w = r.c.mem[i]; if (CollRun::idx(m, w) >= 0 && me >= 0 && r.c.parts[i].v != r.mine().v) fail("MPI-USAGE", "MPI_Comm_create: processes %d and %d pass different groups for the same communicator", _e.r, w); }
  if (me < 0) *o = MPI_COMM_NULL; else *o = mkcomm(keyed_ctx(r.c, m, m), m); r.leave(); return 0;
}
int MPI_Comm_create_group(MPI_Comm c, MPI_Group g, int tag, MPI_Comm *o) {
  ENTER("Comm_create_group"); Comm *x = C(c, "MPI_Comm_create_group"); std::vector<int> m = G(g, "MPI_Comm_create_group")->g;
  if (CollRun::idx(m, _e.r) < 0) { *o = MPI_COMM_NULL; return 0; }
  CGroup *cg = nullptr; for (auto &q : cgroups) if (q.ctx == x->ctx && q.tag == tag && q.g == m && !q.in.count(_e.r) && !q.full) { cg = &q; break; }
  if (!cg) { cgroups.push_back(CGroup{x->ctx, tag, m, {}}); cg = &cgroups.back(); }
  cg->in.insert(_e.r); if (cg->in.size() == m.size()) { cg->full = true; cg->nctx = new_ctx(m); }
  wait_until([cg] { return cg->full; }, "MPI_Comm_create_group"); *o = mkcomm(cg->nctx, m); return 0;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *o) {
  ENTER("Comm_split"); Comm *x = C(c, "MPI_Comm_split"); if (color < 0 && color != MPI_UNDEFINED) fail("MPI-USAGE", "MPI_Comm_split: negative colour %d", color);
  CollRun r(x, "MPI_Comm_split", {}, _e.r); r.mine().v = {color, key}; r.arrive(); r.wait_all();
  if (color == MPI_UNDEFINED) { *o = MPI_COMM_NULL; r.leave(); return 0; }
  std::vector<std::pair<std::pair<long, int>, int>> v; for (size_t i = 0; i < r.c.parts.size(); i++) if (r.c.parts[i].v[0] == color) v.push_back({{r.c.parts[i].v[1], (int)i}, r.c.mem[i]});
  std::sort(v.begin(), v.end()); std::vector<int> m; for (auto &e : v) m.push_back(e.second);
  *o = mkcomm(keyed_ctx(r.c, m, m), m); r.leave(); return 0;
}
int MPI_Comm_split_type(MPI_Comm c, int t, int key, MPI_Info, MPI_Comm *o) { return MPI_Comm_split(c, t == MPI_UNDEFINED ? MPI_UNDEFINED : 0, key, o); }
int MPI_Comm_free(MPI_Comm *c) {
  ENTER("Comm_free"); if (*c == MPI_COMM_WORLD || *c == MPI_COMM_SELF) fail("MPI-USAGE", "MPI_Comm_free on a predefined communicator");
  Comm *x = C(*c, "MPI_Comm_free"); CollRun r(x, "MPI_Comm_free", {}, _e.r); r.arrive(); r.leave(); x->freed = true; *c = MPI_COMM_NULL; return 0;
}
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Comm_get_errhandler(MPI_Comm, MPI_Errhandler *e) { *e = MPI_ERRORS_ARE_FATAL; return 0; }
int MPI_Comm_create_errhandler(MPI_Comm_errhandler_function *, MPI_Errhandler *e) { *e = (MPI_Errhandler)errhs.add(Op{K.cur->rank, nullptr, true}); return 0; }
int MPI_Errhandler_free(MPI_Errhandler *e) { errhs.get((u64)*e, "MPI_Errhandler_free")->freed = true; *e = MPI_ERRHANDLER_NULL; return 0; }
int MPI_Comm_set_name(MPI_Comm, const char *) { return 0; }
int MPI_Comm_get_name(MPI_Comm, char *s, int *n) { *s = 0; *n = 0; return 0; }
int MPI_Comm_set_info(MPI_Comm, MPI_Info) { return 0; }
int MPI_Comm_get_attr(MPI_Comm, int key, void *v, int *f) { static int tub = 1 << 30; if (key == MPI_TAG_UB) { *(int **)v = &tub; *f = 1; } else *f = 0; return 0; }
int MPI_Comm_set_attr(MPI_Comm, int, void *) { return 0; }
int MPI_Comm_create_keyval(MPI_Comm_copy_attr_function *, MPI_Comm_delete_attr_function *, int *k, void *) { *k = 100; return 0; }
int MPI_Comm_free_keyval(int *k) { *k = MPI_KEYVAL_INVALID; return 0; }
int MPI_Intercomm_create(MPI_Comm lc, int ll, MPI_Comm pc, int rl, int tag, MPI_Comm *o) {
  ENTER("Intercomm_create"); Comm *x = C(lc, "MPI_Intercomm_create"); need_rank(x, ll, "MPI_Intercomm_create"); CollRun r(x, "MPI_Intercomm_create", {ll, tag}, _e.r); r.arrive();
  if (r.me == ll) {
    Comm *p = C(pc, "MPI_Intercomm_create"); need_rank(p, rl, "MPI_Intercomm_create"); int l2 = p->g[rl];
    if (CollRun::idx(x->g, l2) >= 0) fail("MPI-USAGE", "MPI_Intercomm_create: the remote leader %d is in the local group of process %d", l2, _e.r);
    sides.push_back(Side{_e.r, l2, tag, p->ctx, x->g}); int me = (int)sides.size() - 1;
    for (int i = 0; i < me; i++) { Side &s = sides[i]; if (s.peer < 0 && s.l1 == l2 && s.l2 == _e.r && s.tag == tag && s.pctx == p->ctx) {
      for (int w : s.g) if (CollRun::idx(x->g, w) >= 0) fail("MPI-USAGE", "MPI_Intercomm_create: process %d is in both groups", w);
      std::vector<int> u = s.g; u.insert(u.end(), x->g.begin(), x->g.end()); s.peer = me; sides[me].peer = i; s.ctx = sides[me].ctx = new_ctx(u); break; } }
    wait_until([me] { return sides[me].peer >= 0; }, "MPI_Intercomm_create (waiting for the other group)");
    r.c.res = {sides[me].ctx, sides[me].peer}; r.c.obj = &r.c;
  } else { Coll *c = &r.c; wait_until([c] { return c->obj != nullptr; }, "MPI_Intercomm_create"); }
  if (choose_pct(50)) r.wait_all();
  *o = mkcomm((int)r.c.res[0], x->g, true, sides[r.c.res[1]].g); r.leave(); return 0;
}
int MPI_Intercomm_merge(MPI_Comm c, int high, MPI_Comm *o) {
  ENTER("Intercomm_merge"); Comm *x = C(c, "MPI_Intercomm_merge"); if (!x->inter) fail("MPI-USAGE", "MPI_Intercomm_merge on an intra-communicator");
  CollRun r(x, "MPI_Intercomm_merge", {}, _e.r); r.mine().v = {!!high}; r.arrive(); r.wait_all();
  auto hi = [&](const std::vector<int> &g) { long h = -1; for (int w : g) { long v = r.c.parts[CollRun::idx(r.c.mem, w)].v[0]; if (h < 0) h = v; else if (h != v) fail("MPI-USAGE", "MPI_Intercomm_merge: members of one group disagree on the order"); } return h; };
  long a = hi(x->g), b = hi(x->rg); bool mine_first = a != b ? a < b : r.c.mem[0] == x->g[0];
  std::vector<int> m = mine_first ? x->g : x->rg, n = mine_first ? x->rg : x->g; m.insert(m.end(), n.begin(), n.end());
  *o = mkcomm(keyed_ctx(r.c, m, m), m); r.leave(); return 0;
}

// ------------------------------------------------------------------ groups
int MPI_Group_size(MPI_Group g, int *n) { *n = (int)G(g, "MPI_Group_size")->g.size(); return 0; }
int MPI_Group_rank(MPI_Group g, int *r) { int i = CollRun::idx(G(g, "MPI_Group_rank")->g, K.cur->rank); *r = i < 0 ? MPI_UNDEFINED : i; return 0; }
int MPI_Group_translate_ranks(MPI_Group a, int n, const int *in, MPI_Group b, int *out) {
  ENTERQ("Group_translate_ranks"); Group *x = G(a, "MPI_Group_translate_ranks"); std::vector<int> xs = x->g; Group *y = G(b, "MPI_Group_translate_ranks"); std::vector<int> ys = y->g;
  for (int i = 0; i < n; i++) { if (in[i] == MPI_PROC_NULL) { out[i] = MPI_PROC_NULL; continue; } if (in[i] < 0 || in[i] >= (int)xs.size()) fail("MPI-USAGE", "MPI_Group_translate_ranks: rank %d not in a group of %zu", in[i], xs.size()); int k = CollRun::idx(ys, xs[in[i]]); out[i] = k < 0 ? MPI_UNDEFINED : k; } return 0;
}
int MPI_Group_compare(MPI_Group a, MPI_Group b, int *r) { auto p = G(a, "MPI_Group_compare")->g; auto q = G(b, "MPI_Group_compare")->g; if (p == q) { *r = MPI_IDENT; return 0; } std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end()); *r = p == q ? MPI_SIMILAR : MPI_UNEQUAL; return 0; }
int MPI_Group_incl(MPI_Group g, int n, const int *rk, MPI_Group *o) {
  ENTERQ("Group_incl"); std::vector<int> x = G(g, "MPI_Group_incl")->g, m; for (int i = 0; i < n; i++) { if (rk[i] < 0 || rk[i] >= (int)x.size()) fail("MPI-USAGE", "MPI_Group_incl: rank %d not in a group of %zu", rk[i], x.size()); if (CollRun::idx(m, x[rk[i]]) >= 0) fail("MPI-USAGE", "MPI_Group_incl: rank %d listed twice", rk[i]); m.push_back(x[rk[i]]); }
  *o = n == 0 ? MPI_GROUP_EMPTY : mkgroup(m); return 0;
}
int MPI_Group_excl(MPI_Group g, int n, const int *rk, MPI_Group *o) { std::vector<int> x = G(g, "MPI_Group_excl")->g, m; for (size_t i = 0; i < x.size(); i++) { bool ex = false; for (int j = 0; j < n; j++) ex |= rk[j] == (int)i; if (!ex) m.push_back(x[i]); } *o = m.empty() ? MPI_GROUP_EMPTY : mkgroup(m); return 0; }
int MPI_Group_union(MPI_Group a, MPI_Group b, MPI_Group *o) { auto p = G(a, "MPI_Group_union")->g; for (int w : G(b, "MPI_Group_union")->g) if (CollRun::idx(p, w) < 0) p.push_back(w); *o = mkgroup(p); return 0; }
int MPI_Group_intersection(MPI_Group a, MPI_Group b, MPI_Group *o) { auto p = G(a, "MPI_Group_intersection")->g; auto q = G(b, "MPI_Group_intersection")->g; std::vector<int> m; for (int w : p) if (CollRun::idx(q, w) >= 0) m.push_back(w); *o = m.empty() ? MPI_GROUP_EMPTY : mkgroup(m); return 0; }
int MPI_Group_difference(MPI_Group a, MPI_Group b, MPI_Group *o) { auto p = G(a, "MPI_Group_difference")->g; auto q = G(b, "MPI_Group_difference")->g; std::vector<int> m; for (int w : p) if (CollRun::idx(q, w) < 0) m.push_back(w); *o = m.empty() ? MPI_GROUP_EMPTY : mkgroup(m); return 0; }
int MPI_Group_free(MPI_Group *g) { ENTERQ("Group_free"); if (*g == MPI_GROUP_EMPTY) { *g = MPI_GROUP_NULL; return 0; } G(*g, "MPI_Group_free")->freed = true; *g = MPI_GROUP_NULL; return 0; }

// ------------------------------------------------------------------ point to point
static u64 do_send(const char *fn, const void *b, int n, MPI_Datatype d, int to, int tag, MPI_Comm c, bool sync) {
  Comm *x = C(c, fn); int me = K.cur->rank; if (to == MPI_PROC_NULL) { u64 h = new_req(1); reqs.find(h)->done = true; return h; }
  need_rank(x, to, fn); if (tag < 0) fail("MPI-USAGE", "%s: negative tag", fn); if (n < 0) fail("MPI-USAGE", "%s: negative count", fn);
  msgpool.push_back(Msg()); Msg *m = &msgpool.back(); m->id = next_msg++; m->src = me; m->dst = wrank(x, to); m->ctx = x->ctx; m->tag = tag; m->data = pack(me, b, T(d, fn), n, fn); m->born = K.step;
  if (K.rng.below(100) < 20) m->holdto = K.step + 5 + K.rng.below(100);
  u64 h = new_req(1); if (sync || choose_pct(K.cfg.rendezvous_pct)) { m->sreq = h; fire(F_p2p_rendezvous); } else reqs.find(h)->done = true;
  inflight.push_back(m); ev("%s msg%u ->%d tag %d len %zu", fn, m->id, m->dst, tag, m->data.size()); return h;
}
static u64 do_recv(const char *fn, void *b, int n, MPI_Datatype d, int from, int tag, MPI_Comm c) {
  Comm *x = C(c, fn); int me = K.cur->rank; need_rank(x, from, fn, true); const Type *t = T(d, fn); need_commit(t, fn); if (tag < 0 && tag != MPI_ANY_TAG) fail("MPI-USAGE", "%s: negative tag", fn);
  { std::vector<Seg> s; flatten(t, n, (long)b, s); for (auto &q : s) mem_assert(me, (void *)q.off, q.len, fn); }
  u64 h = new_req(2); RecvReq r{b, n, t, from == MPI_ANY_SOURCE ? -1 : wrank(x, from), tag, x->ctx, h, me, (u64)d};
  Msg *m = find_unexp(me, r.src, tag, r.ctx, true);
  if (m) { auto &u = unexp[me]; u.erase(std::find(u.begin(), u.end(), m)); complete_recv(r, m); } else posted[me].push_back(r);
  return h;
}
static void wait_req(MPI_Request *q, MPI_Status *s, const char *fn) {
  if (*q == MPI_REQUEST_NULL) { if (s) { MPI_Status e{}; e.MPI_SOURCE = MPI_ANY_SOURCE; e.MPI_TAG = MPI_ANY_TAG; set_status(s, e); } return; }
  u64 h = (u64)*q; Req *r = reqs.get(h, fn); push_req_need(h); wait_until([r] { return r->done; }, fn);
  set_status(s, r->st); free_req(h); *q = MPI_REQUEST_NULL;
}
int MPI_Send(const void *b, int n, MPI_Datatype d, int to, int tag, MPI_Comm c) { ENTER("Send"); MPI_Request q = (MPI_Request)do_send("MPI_Send", b, n, d, to, tag, c, false); wait_req(&q, nullptr, "MPI_Send"); return 0; }
int MPI_Ssend(const void *b, int n, MPI_Datatype d, int to, int tag, MPI_Comm c) { ENTER("Ssend"); MPI_Request q = (MPI_Request)do_send("MPI_Ssend", b, n, d, to, tag, c, true); wait_req(&q, nullptr, "MPI_Ssend"); return 0; }
int MPI_Bsend(const void *b, int n, MPI_Datatype d, int to, int tag, MPI_Comm c) { return MPI_Send(b, n, d, to, tag, c); }
int MPI_Rsend(const void *b, int n, MPI_Datatype d, int to, int tag, MPI_Comm c) { return MPI_Send(b, n, d, to, tag, c); }
int MPI_Isend(const void *b, int n, MPI_Datatype d, int to, int tag, MPI_Comm c, MPI_Request *q) { ENTER("Isend"); *q = (MPI_Request)do_send("MPI_Isend", b, n, d, to, tag, c, false); return 0; }
int MPI_Issend(const void *b, int n, MPI_Datatype d, int to, int tag, MPI_Comm c, MPI_Request *q) { ENTER("Issend"); *q = (MPI_Request)do_send("MPI_Issend", b, n, d, to, tag, c, true); return 0; }
int MPI_Recv(void *b, int n, MPI_Datatype d, int from, int tag, MPI_Comm c, MPI_Status *s) { ENTER("Recv"); if (from == MPI_PROC_NULL) return 0; MPI_Request q = (MPI_Request)do_recv("MPI_Recv", b, n, d, from, tag, c); wait_req(&q, s, "MPI_Recv"); return 0; }
int MPI_Irecv(void *b, int n, MPI_Datatype d, int from, int tag, MPI_Comm c, MPI_Request *q) { ENTER("Irecv"); *q = (MPI_Request)do_recv("MPI_Irecv", b, n, d, from, tag, c); return 0; }
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype sd, int to, int st, void *rb, int rn, MPI_Datatype rd, int from, int rt, MPI_Comm c, MPI_Status *s) {
  ENTER("Sendrecv"); MPI_Request q = MPI_REQUEST_NULL, p = MPI_REQUEST_NULL; if (from != MPI_PROC_NULL) q = (MPI_Request)do_recv("MPI_Sendrecv", rb, rn, rd, from, rt, c); p = (MPI_Request)do_send("MPI_Sendrecv", sb, sn, sd, to, st, c, false);
  wait_req(&p, nullptr, "MPI_Sendrecv"); wait_req(&q, s, "MPI_Sendrecv"); return 0;
}
static void probe_status(MPI_Status *s, Msg *m) { MPI_Status e{}; e.MPI_SOURCE = ctx_rank(m->ctx, m->src); e.MPI_TAG = m->tag; e._ucount = m->data.size(); set_status(s, e); }
int MPI_Probe(int from, int tag, MPI_Comm c, MPI_Status *s) {
  ENTER("Probe"); Comm *x = C(c, "MPI_Probe"); need_rank(x, from, "MPI_Probe", true); int w = from < 0 ? -1 : wrank(x, from), me = _e.r, ctx = x->ctx; 
  wait_until([=] { return find_unexp(me, w, tag, ctx, false) != nullptr; }, "MPI_Probe"); probe_status(s, find_unexp(me, w, tag, ctx, true)); return 0;
}
int MPI_Iprobe(int from, int tag, MPI_Comm c, int *f, MPI_Status *s) {
  ENTER("Iprobe"); Comm *x = C(c, "MPI_Iprobe"); need_rank(x, from, "MPI_Iprobe", true); Msg *m = find_unexp(_e.r, from < 0 ? -1 : wrank(x, from), tag, x->ctx, true);
  if (m && choose_pct(K.cfg.spurious_pct)) { fire(F_spurious_probe); m = nullptr; }
  *f = m != nullptr; if (m) probe_status(s, m); else _e.f->spin = true; return 0;
}
static std::map<u64, Msg *> mmsg_live;   // messages matched by a probe and not yet received
static void mmsg_take(MPI_Message *o, MPI_Status *s, Msg *m, int me) { auto &u = unexp[me]; u.erase(std::find(u.begin(), u.end(), m)); probe_status(s, m); mmsg_live[m->id] = m; *o = (MPI_Message)(uintptr_t)(0x51000000 + m->id); }
int MPI_Mprobe(int from, int tag, MPI_Comm c, MPI_Message *o, MPI_Status *s) {
  ENTER("Mprobe"); Comm *x = C(c, "MPI_Mprobe"); need_rank(x, from, "MPI_Mprobe", true); int w = from < 0 ? -1 : wrank(x, from), me = _e.r, ctx = x->ctx;
  wait_until([=] { return find_unexp(me, w, tag, ctx, false) != nullptr; }, "MPI_Mprobe"); mmsg_take(o, s, find_unexp(me, w, tag, ctx, true), me); return 0;
}
int MPI_Improbe(int from, int tag, MPI_Comm c, int *f, MPI_Message *o, MPI_Status *s) {
  ENTER("Improbe"); Comm *x = C(c, "MPI_Improbe"); need_rank(x, from, "MPI_Improbe", true); Msg *m = find_unexp(_e.r, from < 0 ? -1 : wrank(x, from), tag, x->ctx, true);
  if (m && choose_pct(K.cfg.spurious_pct)) { fire(F_spurious_probe); m = nullptr; }
  *f = m != nullptr; if (m) mmsg_take(o, s, m, _e.r); else _e.f->spin = true; return 0;
}
int MPI_Mrecv(void *b, int n, MPI_Datatype d, MPI_Message *o, MPI_Status *s) {
  ENTER("Mrecv"); auto it = mmsg_live.find((u64)(uintptr_t)*o - 0x51000000); if (it == mmsg_live.end() || it->second->dst != _e.r) fail("MPI-USAGE", "MPI_Mrecv of something that is not a matched message");
  Msg *m = it->second; mmsg_live.erase(it); *o = MPI_MESSAGE_NULL; const Type *t = T(d, "MPI_Mrecv"); need_commit(t, "MPI_Mrecv"); { std::vector<Seg> q; flatten(t, n, (long)b, q); for (auto &z : q) mem_assert(_e.r, (void *)z.off, z.len, "MPI_Mrecv"); }
  u64 h = new_req(2); RecvReq r{b, n, t, m->src, m->tag, m->ctx, h, _e.r, (u64)d}; complete_recv(r, m); MPI_Request q = (MPI_Request)h; wait_req(&q, s, "MPI_Mrecv"); return 0;
}
int MPI_Get_count(const MPI_Status *s, MPI_Datatype d, int *n) { const Type *t = T(d, "MPI_Get_count"); if (t->size == 0) *n = 0; else *n = s->_ucount % t->size ? MPI_UNDEFINED : (int)(s->_ucount / t->size); return 0; }
int MPI_Get_elements(const MPI_Status *s, MPI_Datatype d, int *n) { return MPI_Get_count(s, d, n); }
int MPI_Wait(MPI_Request *q, MPI_Status *s) { ENTER("Wait"); wait_req(q, s, "MPI_Wait"); return 0; }
static bool test_one(Fiber *f, MPI_Request *q, const char *fn) {
  if (*q == MPI_REQUEST_NULL) return true; Req *r = reqs.get((u64)*q, fn); push_req_need((u64)*q);
  if (!r->done) { f->spin = true; return false; }
  if (choose_pct(K.cfg.spurious_pct)) { fire(F_spurious_test); f->spin = true; return false; }
  return true;
}
int MPI_Test(MPI_Request *q, int *f, MPI_Status *s) { ENTER("Test"); *f = test_one(_e.f, q, "MPI_Test"); if (*f) wait_req(q, s, "MPI_Test"); return 0; }
int MPI_Waitall(int n, MPI_Request *q, MPI_Status *s) { ENTER("Waitall"); for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL) { reqs.get((u64)q[i], "MPI_Waitall"); req_need((u64)q[i]); } want_deps(); for (int i = 0; i < n; i++) wait_req(&q[i], s ? s + i : nullptr, "MPI_Waitall"); return 0; }
int MPI_Testall(int n, MPI_Request *q, int *f, MPI_Status *s) {
  ENTER("Testall"); bool all = true; for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL) { Req *r = reqs.get((u64)q[i], "MPI_Testall"); if (!r->done) { req_need((u64)q[i]); all = false; } } want_deps();
  if (all && choose_pct(K.cfg.spurious_pct)) { fire(F_spurious_test); all = false; }
  *f = all; if (all) for (int i = 0; i < n; i++) wait_req(&q[i], s ? s + i : nullptr, "MPI_Testall"); else _e.f->spin = true; return 0;
}
static int any_done(int n, MPI_Request *q, bool &active) { active = false; int k = -1; for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL) { active = true; if (reqs.get((u64)q[i], "MPI_Waitany")->done && k < 0) k = i; } return k; }
int MPI_Waitany(int n, MPI_Request *q, int *ix, MPI_Status *s) {
  ENTER("Waitany"); bool act; any_done(n, q, act); if (!act) { *ix = MPI_UNDEFINED; return 0; } for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL) push_req_need((u64)q[i]);
  wait_until([=] { bool a; return any_done(n, q, a) >= 0; }, "MPI_Waitany"); *ix = any_done(n, q, act); wait_req(&q[*ix], s, "MPI_Waitany"); return 0;
}
int MPI_Testany(int n, MPI_Request *q, int *ix, int *f, MPI_Status *s) {
  ENTER("Testany"); bool act; int k = any_done(n, q, act); for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL) push_req_need((u64)q[i]); if (!act) { *ix = MPI_UNDEFINED; *f = 1; return 0; }
  *f = k >= 0; if (k >= 0) { *ix = k; wait_req(&q[k], s, "MPI_Testany"); } else _e.f->spin = true; return 0;
}
int MPI_Waitsome(int n, MPI_Request *q, int *out, int *ix, MPI_Status *s) { int k; int e = MPI_Waitany(n, q, &k, s); if (k == MPI_UNDEFINED) *out = MPI_UNDEFINED; else { *out = 1; ix[0] = k; } return e; }
int MPI_Testsome(int n, MPI_Request *q, int *out, int *ix, MPI_Status *s) { int k, f; int e = MPI_Testany(n, q, &k, &f, s); if (f && k == MPI_UNDEFINED) *out = MPI_UNDEFINED; else if (f) { *out = 1; ix[0] = k; } else *out = 0; return e; }
int MPI_Request_free(MPI_Request *q) { ENTER("Request_free"); Req *r = reqs.get((u64)*q, "MPI_Request_free"); r->freed = true; r->orphan = true; *q = MPI_REQUEST_NULL; return 0; }
int MPI_Request_get_status(MPI_Request q, int *f, MPI_Status *s) { ENTER("Request_get_status"); if (q == MPI_REQUEST_NULL) { *f = 1; return 0; } Req *r = reqs.get((u64)q, "MPI_Request_get_status"); push_req_need((u64)q); *f = r->done; if (*f) set_status(s, r->st); else _e.f->spin = true; return 0; }
int MPI_Cancel(MPI_Request *q) { ENTER("Cancel"); Req *r = reqs.get((u64)*q, "MPI_Cancel"); if (!r->done) { auto &p = posted[_e.r]; for (size_t i = 0; i < p.size(); i++) if (p[i].req == (u64)*q) { p.erase(p.begin() + i); r->done = true; r->st._cancelled = 1; break; } } return 0; }
int MPI_Test_cancelled(const MPI_Status *s, int *f) { *f = s->_cancelled; return 0; }

// ------------------------------------------------------------------ collectives
int MPI_Barrier(MPI_Comm c) { ENTER("Barrier"); CollRun r(C(c, "MPI_Barrier"), "MPI_Barrier", {}, _e.r); r.arrive(); r.wait_all(); r.leave(); return 0; }
int MPI_Ibarrier(MPI_Comm c, MPI_Request *q) {
  ENTER("Ibarrier"); CollRun r(C(c, "MPI_Ibarrier"), "MPI_Ibarrier", {}, _e.r); u64 h = new_req(3); *q = (MPI_Request)h; r.mine().v = {(long)h}; r.arrive();
  if (r.c.nin == (int)r.c.parts.size()) for (auto &p : r.c.parts) reqs.find((u64)p.v[0])->done = true;
  r.leave(); return 0;
}
int MPI_Bcast(void *b, int n, MPI_Datatype d, int root, MPI_Comm c) {
  ENTER("Bcast"); Comm *x = C(c, "MPI_Bcast"); need_rank(x, root, "MPI_Bcast"); const Type *t = T(d, "MPI_Bcast"); if (n < 0) fail("MPI-USAGE", "MPI_Bcast: negative count");
  CollRun r(x, "MPI_Bcast", {root, n * t->size}, _e.r);
  if (r.me == root) { r.mine().data = pack(_e.r, b, t, n, "MPI_Bcast"); r.arrive(); if (choose_pct(40)) r.wait_all(); else fire(F_coll_early_leave); }
  else { r.arrive(); r.wait_member(root); auto &p = r.c.parts[root].data; unpack(_e.r, b, t, n, p.data(), p.size(), "MPI_Bcast"); }
  r.leave(); return 0;
}
static void put_ext(int rank, void *b, const Type *t, long n, const std::vector<u8> &v, const char *fn) { // write only described bytes of an extent-preserving image
  long ext = t->ub - t->lb; for (long i = 0; i < n; i++) for (auto &s : t->segs) { mem_assert(rank, (u8 *)b + i * ext + s.off, s.len, fn); memcpy((u8 *)b + i * ext + s.off, v.data() + i * ext + s.off, s.len); }
}
static int do_reduce(const char *fn, const void *sb, void *rb, int n, MPI_Datatype d, MPI_Op op, int root, MPI_Comm c, int scan) {
  Enter _e(fn); Comm *x = C(c, fn); const Type *t = T(d, fn); need_commit(t, fn); need_op(op, fn); if (n < 0) fail("MPI-USAGE", "%s: negative count %d", fn, n); if (root >= 0) need_rank(x, root, fn);
  CollRun r(x, fn, {root, n, t->size, opsig(op)}, _e.r); bool want = root < 0 || r.me == root;
  const void *in = sb == MPI_IN_PLACE ? rb : sb; size_t bytes = (size_t)n * (t->ub - t->lb);
  if (sb != MPI_IN_PLACE && want && range_overlap(sb, bytes, rb, bytes)) fail("MPI-USAGE", "%s: send and receive buffers overlap", fn);
  r.mine().data = raw_in(_e.r, in, d, n, fn); if (want && bytes) mem_assert(_e.r, rb, bytes, fn); r.arrive();
  if (want) { if (scan) { Coll *cc = &r.c; int upto = r.me; wait_until([cc, upto] { for (int i = 0; i <= upto; i++) if (!cc->parts[i].in) return false; return true; }, fn); } else r.wait_all();
    int upto = scan ? (scan == 2 ? r.me : r.me + 1) : (int)r.c.parts.size();
    if (n && upto) { std::vector<u8> out; reduce_all(r.c, op, d, n, out, upto); put_ext(_e.r, rb, t, n, out, fn); } }
  else if (choose_pct(40)) r.wait_all(); else fire(F_coll_early_leave);
  r.leave(); return 0;
}
int MPI_Reduce(const void *sb, void *rb, int n, MPI_Datatype d, MPI_Op op, int root, MPI_Comm c) { return do_reduce("MPI_Reduce", sb, rb, n, d, op, root, c, 0); }
int MPI_Allreduce(const void *sb, void *rb, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c) { return do_reduce("MPI_Allreduce", sb, rb, n, d, op, -1, c, 0); }
int MPI_Scan(const void *sb, void *rb, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c) { return do_reduce("MPI_Scan", sb, rb, n, d, op, -1, c, 1); }
int MPI_Exscan(const void *sb, void *rb, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c) { return do_reduce("MPI_Exscan", sb, rb, n, d, op, -1, c, 2); }
int MPI_Reduce_local(const void *in, void *io, int n, MPI_Datatype d, MPI_Op op) {
  ENTERQ("Reduce_local"); if ((u64)op >= OK_OP + 0x100) { int k = n; MPI_Datatype dd = d; ops_.get((u64)op, "MPI_Reduce_local")->fn((void *)in, io, &k, &dd); return 0; }
  const Type *t = T(d, "MPI_Reduce_local"); long ext = t->ub - t->lb; for (long e = 0; e < n; e++) for (auto &s : t->segs) { int sz = bsize(s.basic); for (long o = 0; o < s.len; o += sz) apply_basic((u64)op, s.basic, (u8 *)io + e * ext + s.off + o, (const u8 *)in + e * ext + s.off + o); } return 0;
}
static int do_gather(const char *fn, const void *sb, int sn, MPI_Datatype sd, void *rb, const int *rn, const int *dp, int cn, MPI_Datatype rd, int root, MPI_Comm c) {
  Enter _e(fn); Comm *x = C(c, fn); if (root >= 0) need_rank(x, root, fn); bool inpl = sb == MPI_IN_PLACE; 
  int meidx = x->me; const Type *rt = T(rd, fn); long ext = rt->ub - rt->lb; auto off = [&](int i) { return (dp ? (long)dp[i] : (long)cn * i) * ext; }; auto cnt = [&](int i) { return rn ? rn[i] : cn; };
  bool want = root < 0 || x->me == root;
  std::vector<u8> mine = inpl ? pack(_e.r, (u8 *)rb + off(meidx), rt, cnt(meidx), fn) : pack(_e.r, sb, T(sd, fn), sn, fn);
  CollRun r(x, fn, rn ? std::vector<long>{root} : std::vector<long>{root, (long)mine.size()}, _e.r); r.mine().data = std::move(mine); r.arrive();
  if (want) { r.wait_all(); for (int i = 0; i < (int)r.c.parts.size(); i++) { auto &p = r.c.parts[i].data; if ((long)p.size() > cnt(i) * rt->size) fail("MPI-USAGE", "%s: more data than the receive count", fn); unpack(_e.r, (u8 *)rb + off(i), rt, cnt(i), p.data(), p.size(), fn); } }
  else if (choose_pct(40)) r.wait_all(); else fire(F_coll_early_leave);
  r.leave(); return 0;
}
int MPI_Gather(const void *sb, int sn, MPI_Datatype sd, void *rb, int rn, MPI_Datatype rd, int root, MPI_Comm c) { return do_gather("MPI_Gather", sb, sn, sd, rb, nullptr, nullptr, rn, rd, root, c); }
int MPI_Gatherv(const void *sb, int sn, MPI_Datatype sd, void *rb, const int *rn, const int *dp, MPI_Datatype rd, int root, MPI_Comm c) { return do_gather("MPI_Gatherv", sb, sn, sd, rb, rn, dp, 0, rd, root, c); }
int MPI_Allgather(const void *sb, int sn, MPI_Datatype sd, void *rb, int rn, MPI_Datatype rd, MPI_Comm c) { return do_gather("MPI_Allgather", sb, sn, sd, rb, nullptr, nullptr, rn, rd, -1, c); }
int MPI_Allgatherv(const void *sb, int sn, MPI_Datatype sd, void *rb, const int *rn, const int *dp, MPI_Datatype rd, MPI_Comm c) { return do_gather("MPI_Allgatherv", sb, sn, sd, rb, rn, dp, 0, rd, -1, c); }
int MPI_Scatter(const void *sb, int sn, MPI_Datatype sd, void *rb, int rn, MPI_Datatype rd, int root, MPI_Comm c) {
  ENTER("Scatter"); Comm *x = C(c, "MPI_Scatter"); need_rank(x, root, "MPI_Scatter"); CollRun r(x, "MPI_Scatter", {root}, _e.r); int P = (int)x->g.size();
  if (r.me == root) r.mine().data = pack(_e.r, sb, T(sd, "MPI_Scatter"), (long)sn * P, "MPI_Scatter"); r.arrive(); r.wait_member(root);
  auto &p = r.c.parts[root].data; size_t k = p.size() / P; if (!(rb == MPI_IN_PLACE)) unpack(_e.r, rb, T(rd, "MPI_Scatter"), rn, p.data() + k * r.me, k, "MPI_Scatter"); r.leave(); return 0;
}
int MPI_Alltoall(const void *sb, int sn, MPI_Datatype sd, void *rb, int rn, MPI_Datatype rd, MPI_Comm c) {
  ENTER("Alltoall"); Comm *x = C(c, "MPI_Alltoall"); CollRun r(x, "MPI_Alltoall", {}, _e.r); int P = (int)x->g.size(); const Type *rt = T(rd, "MPI_Alltoall");
  r.mine().data = sb == MPI_IN_PLACE ? pack(_e.r, rb, rt, (long)rn * P, "MPI_Alltoall") : pack(_e.r, sb, T(sd, "MPI_Alltoall"), (long)sn * P, "MPI_Alltoall"); r.arrive(); r.wait_all();
  for (int i = 0; i < P; i++) { auto &p = r.c.parts[i].data; size_t k = p.size() / P; unpack(_e.r, (u8 *)rb + (long)i * rn * (rt->ub - rt->lb), rt, rn, p.data() + k * r.me, k, "MPI_Alltoall"); } r.leave(); return 0;
}
int MPI_Op_create(MPI_User_function *f, int com, MPI_Op *o) { ENTERQ("Op_create"); *o = (MPI_Op)ops_.add(Op{_e.r, f, com != 0}); return 0; }
int MPI_Op_free(MPI_Op *o) { ENTERQ("Op_free"); if ((u64)*o < OK_OP + 0x100) fail("MPI-USAGE", "MPI_Op_free on a predefined or null operation"); ops_.get((u64)*o, "MPI_Op_free")->freed = true; *o = MPI_OP_NULL; return 0; }
int MPI_Op_commutative(MPI_Op o, int *c) { *c = (u64)o >= OK_OP + 0x100 ? ops_.get((u64)o, "MPI_Op_commutative")->commute : 1; return 0; }

// ------------------------------------------------------------------ datatypes
int MPI_Type_size(MPI_Datatype d, int *n) { *n = (int)T(d, "MPI_Type_size")->size; return 0; }
int MPI_Type_size_x(MPI_Datatype d, MPI_Count *n) { *n = T(d, "MPI_Type_size_x")->size; return 0; }
int MPI_Type_get_extent(MPI_Datatype d, MPI_Aint *lb, MPI_Aint *e) { Type *t = T(d, "MPI_Type_get_extent"); *lb = t->lb; *e = t->ub - t->lb; return 0; }
int MPI_Type_get_true_extent(MPI_Datatype d, MPI_Aint *lb, MPI_Aint *e) { Type *t = T(d, "MPI_Type_get_true_extent"); *lb = t->tlb; *e = t->tub - t->tlb; return 0; }
int MPI_Type_commit(MPI_Datatype *d) { T(*d, "MPI_Type_commit")->committed = true; return 0; }
int MPI_Type_free(MPI_Datatype *d) { Type *t = T(*d, "MPI_Type_free"); if (t->builtin) fail("MPI-USAGE", "MPI_Type_free on a predefined datatype"); t->freed = true; *d = MPI_DATATYPE_NULL; return 0; }
int MPI_Type_dup(MPI_Datatype d, MPI_Datatype *o) { const Type *t = T(d, "MPI_Type_dup"); *o = mk({{0, t}}, true, t->lb, t->ub - t->lb); T(*o, "dup")->committed = t->committed; return 0; }
static void cnt_ok(long n, const char *fn) { if (n < 0) fail("MPI-USAGE", "%s: negative count %ld", fn, n); if (n > 200000) fail("MPI-USAGE", "%s: absurd count %ld", fn, n); }
int MPI_Type_contiguous(int n, MPI_Datatype d, MPI_Datatype *o) { cnt_ok(n, "MPI_Type_contiguous"); const Type *t = T(d, "MPI_Type_contiguous"); std::vector<std::pair<long, const Type *>> p; for (long i = 0; i < n; i++) p.push_back({i * (t->ub - t->lb), t}); *o = mk(p); return 0; }
int MPI_Type_create_hvector(int n, int bl, MPI_Aint st, MPI_Datatype d, MPI_Datatype *o) { cnt_ok(n, "MPI_Type_create_hvector"); cnt_ok(bl, "MPI_Type_create_hvector"); const Type *t = T(d, "MPI_Type_create_hvector"); std::vector<std::pair<long, const Type *>> p; for (long i = 0; i < n; i++) for (long j = 0; j < bl; j++) p.push_back({i * st + j * (t->ub - t->lb), t}); *o = mk(p); return 0; }
int MPI_Type_vector(int n, int bl, int st, MPI_Datatype d, MPI_Datatype *o) { const Type *t = T(d, "MPI_Type_vector"); return MPI_Type_create_hvector(n, bl, (MPI_Aint)st * (t->ub - t->lb), d, o); }
int MPI_Type_create_hindexed(int n, const int *bl, const MPI_Aint *dp, MPI_Datatype d, MPI_Datatype *o) { cnt_ok(n, "MPI_Type_create_hindexed"); const Type *t = T(d, "MPI_Type_create_hindexed"); std::vector<std::pair<long, const Type *>> p; for (long i = 0; i < n; i++) { cnt_ok(bl[i], "MPI_Type_create_hindexed"); for (long j = 0; j < bl[i]; j++) p.push_back({dp[i] + j * (t->ub - t->lb), t}); } *o = mk(p); T(*o, "mk")->indexed = true; return 0; }
int MPI_Type_indexed(int n, const int *bl, const int *dp, MPI_Datatype d, MPI_Datatype *o) { cnt_ok(n, "MPI_Type_indexed"); const Type *t = T(d, "MPI_Type_indexed"); std::vector<MPI_Aint> a(n); for (int i = 0; i < n; i++) a[i] = (MPI_Aint)dp[i] * (t->ub - t->lb); return MPI_Type_create_hindexed(n, bl, a.data(), d, o); }
int MPI_Type_create_hindexed_block(int n, int bl, const MPI_Aint *dp, MPI_Datatype d, MPI_Datatype *o) { cnt_ok(n, "MPI_Type_create_hindexed_block"); std::vector<int> b(n, bl); return MPI_Type_create_hindexed(n, b.data(), dp, d, o); }
int MPI_Type_create_indexed_block(int n, int bl, const int *dp, MPI_Datatype d, MPI_Datatype *o) { cnt_ok(n, "MPI_Type_create_indexed_block"); std::vector<int> b(n, bl); return MPI_Type_indexed(n, b.data(), dp, d, o); }
int MPI_Type_create_struct(int n, const int *bl, const MPI_Aint *dp, const MPI_Datatype *d, MPI_Datatype *o) { cnt_ok(n, "MPI_Type_create_struct"); std::vector<std::pair<long, const Type *>> p; for (long i = 0; i < n; i++) { const Type *t = T(d[i], "MPI_Type_create_struct"); cnt_ok(bl[i], "MPI_Type_create_struct"); for (long j = 0; j < bl[i]; j++) p.push_back({dp[i] + j * (t->ub - t->lb), t}); } *o = mk(p); return 0; }
int MPI_Type_create_subarray(int n, const int *sz, const int *ss, const int *st, int order, MPI_Datatype d, MPI_Datatype *o) {
  const Type *t = T(d, "MPI_Type_create_subarray"); long ext = t->ub - t->lb; if (n < 1) fail("MPI-USAGE", "MPI_Type_create_subarray: %d dimensions", n);
  for (int i = 0; i < n; i++) if (sz[i] < 1 || ss[i] < 1 || ss[i] > sz[i] || st[i] < 0 || st[i] > sz[i] - ss[i]) fail("MPI-USAGE", "MPI_Type_create_subarray: dimension %d has size %d, subsize %d, start %d", i, sz[i], ss[i], st[i]);
  std::vector<long> mul(n); long m = 1; if (order == MPI_ORDER_C) for (int i = n - 1; i >= 0; i--) { mul[i] = m; m *= sz[i]; } else for (int i = 0; i < n; i++) { mul[i] = m; m *= sz[i]; }
  std::vector<long> ix(n, 0); std::vector<std::pair<long, const Type *>> p; std::vector<int> ordv(n); for (int i = 0; i < n; i++) ordv[i] = order == MPI_ORDER_C ? n - 1 - i : i;
  while (true) { long off = 0; for (int i = 0; i < n; i++) off += (st[i] + ix[i]) * mul[i]; p.push_back({off * ext, t}); int k = 0; while (k < n && ++ix[ordv[k]] == ss[ordv[k]]) { ix[ordv[k]] = 0; k++; } if (k == n) break; if (p.size() > 200000) fail("MPI-USAGE", "MPI_Type_create_subarray: absurd size"); }
  *o = mk(p, true, 0, m * ext); return 0;
}
int MPI_Type_create_resized(MPI_Datatype d, MPI_Aint lb, MPI_Aint ext, MPI_Datatype *o) { *o = mk({{0, T(d, "MPI_Type_create_resized")}}, true, lb, ext); return 0; }
int MPI_Pack(const void *b, int n, MPI_Datatype d, void *o, int os, int *pos, MPI_Comm) { auto v = pack(K.cur->rank, b, T(d, "MPI_Pack"), n, "MPI_Pack"); if (*pos + (int)v.size() > os) fail("MPI-USAGE", "MPI_Pack: buffer too small"); memcpy((u8 *)o + *pos, v.data(), v.size()); *pos += (int)v.size(); return 0; }
int MPI_Unpack(const void *b, int bs, int *pos, void *o, int n, MPI_Datatype d, MPI_Comm) { const Type *t = T(d, "MPI_Unpack"); size_t k = (size_t)(n * t->size); if (*pos + (long)k > bs) fail("MPI-USAGE", "MPI_Unpack: beyond the buffer"); unpack(K.cur->rank, o, t, n, (const u8 *)b + *pos, k, "MPI_Unpack"); *pos += (int)k; return 0; }
int MPI_Pack_size(int n, MPI_Datatype d, MPI_Comm, int *s) { *s = (int)(n * T(d, "MPI_Pack_size")->size); return 0; }

// ------------------------------------------------------------------ info
int MPI_Info_create(MPI_Info *i) { *i = (MPI_Info)infos.add(Info{K.cur->rank, {}}); return 0; }
int MPI_Info_free(MPI_Info *i) { if (*i == MPI_INFO_NULL) fail("MPI-USAGE", "MPI_Info_free on the null info"); infos.get((u64)*i, "MPI_Info_free")->freed = true; *i = MPI_INFO_NULL; return 0; }
int MPI_Info_set(MPI_Info i, const char *k, const char *v) { infos.get((u64)i, "MPI_Info_set")->kv[k] = v; return 0; }
int MPI_Info_get(MPI_Info i, const char *k, int n, char *v, int *f) { Info *x = infos.get((u64)i, "MPI_Info_get"); auto it = x->kv.find(k); *f = it != x->kv.end(); if (*f) { snprintf(v, n + 1, "%s", it->second.c_str()); } return 0; }
int MPI_Info_dup(MPI_Info i, MPI_Info *o) { Info *x = infos.get((u64)i, "MPI_Info_dup"); *o = (MPI_Info)infos.add(Info{K.cur->rank, x->kv}); return 0; }
int MPI_Info_delete(MPI_Info i, const char *k) { infos.get((u64)i, "MPI_Info_delete")->kv.erase(k); return 0; }
int MPI_Info_get_nkeys(MPI_Info i, int *n) { *n = (int)infos.get((u64)i, "MPI_Info_get_nkeys")->kv.size(); return 0; }

// ------------------------------------------------------------------ windows
static MPI_Aint win_limit() { return far_on(K.cfg) ? 0x1000000000L : 0x180000; }
int MPI_Alloc_mem(MPI_Aint n, MPI_Info i, void *out) {
  ENTERQ("Alloc_mem"); if (i != MPI_INFO_NULL) infos.get((u64)i, "MPI_Alloc_mem"); if (n < 0) fail("MPI-USAGE", "MPI_Alloc_mem of %ld bytes", (long)n);
  if (n > win_limit() || maybe_fail_alloc()) { if (alloc_fatal) fail("ABORT", "MPI_Alloc_mem failed in process %d (errors are fatal)", _e.r); *(void **)out = nullptr; return MPI_ERR_NO_MEM; }
  void *p = mem_alloc(_e.r, Z_WIN, n, M_WIN, true); if (!p) fail("SIMLIMIT", "window arena exhausted"); *(void **)out = p; return 0;
}
int MPI_Free_mem(void *p) {
  ENTERQ("Free_mem"); if (!p) fail("MPI-USAGE", "MPI_Free_mem(NULL)"); size_t n = 0; 
  if (mem_block(_e.r, Z_WIN, p, &n)) for (auto &w : winss) for (size_t k = 0; k < w.m.size(); k++) if (w.g[k] == _e.r && w.m[k].present && !w.m[k].freed && range_overlap(w.m[k].base, w.m[k].size, p, n)) fail("MPI-USAGE", "MPI_Free_mem: process %d releases memory of a live window", _e.r);
  mem_free(_e.r, Z_WIN, p, "MPI_Free_mem"); return 0;
}
static std::map<std::string, std::string> info_map(MPI_Info i, const char *fn) { return i == MPI_INFO_NULL ? std::map<std::string, std::string>() : infos.get((u64)i, fn)->kv; }
static int win_new(const char *fn, Fiber *f, void *base, MPI_Aint n, int unit, MPI_Info i, MPI_Comm c, MPI_Win *w, int flavor) {
  Comm *x = C(c, fn); auto kv = info_map(i, fn); if (x->inter) fail("MPI-USAGE", "%s on an inter-communicator", fn); if (n < 0 || unit <= 0) fail("MPI-USAGE", "%s: size %ld unit %d", fn, (long)n, unit); if (n) mem_assert(f->rank, base, n, fn);
  CollRun r(x, fn, {}, f->rank);
  if (!r.c.obj) { winss.push_back(WinS()); WinS *s = &winss.back(); s->id = (u32)winss.size(); s->g = x->g; s->m.resize(x->g.size()); s->locks.resize(x->g.size()); s->info.resize(x->g.size()); s->flavor = flavor; s->ctx = new_ctx(x->g); r.c.obj = s; }
  WinS *s = (WinS *)r.c.obj; WinS::M &m = s->m[r.me]; m.base = (u8 *)base; m.size = n; m.unit = unit; m.present = true; m.alloc = flavor == MPI_WIN_FLAVOR_ALLOCATE; if (K.cfg.separate) m.dirty.assign((size_t)n, 0); s->info[r.me] = kv;
  r.arrive(); r.wait_all(); *w = (MPI_Win)wins.add(Win{f->rank, s, r.me, std::vector<int>(x->g.size(), 0)}); r.leave(); return 0;
}
int MPI_Win_create(void *b, MPI_Aint n, int unit, MPI_Info i, MPI_Comm c, MPI_Win *w) { ENTER("Win_create"); return win_new("MPI_Win_create", _e.f, b, n, unit, i, c, w, MPI_WIN_FLAVOR_CREATE); }
int MPI_Win_allocate(MPI_Aint n, int unit, MPI_Info i, MPI_Comm c, void *b, MPI_Win *w) {
  ENTER("Win_allocate"); if (n < 0) fail("MPI-USAGE", "MPI_Win_allocate of %ld bytes", (long)n); if (n > win_limit() || maybe_fail_alloc()) fail("ABORT", "MPI_Win_allocate failed in process %d", _e.r);
  void *p = mem_alloc(_e.r, Z_WIN, n, M_WIN, true); if (!p) fail("SIMLIMIT", "window arena exhausted"); *(void **)b = p; return win_new("MPI_Win_allocate", _e.f, p, n, unit, i, c, w, MPI_WIN_FLAVOR_ALLOCATE);
}
int MPI_Win_allocate_shared(MPI_Aint, int, MPI_Info, MPI_Comm, void *, MPI_Win *) { fail("UNSUPPORTED", "MPI_Win_allocate_shared is not simulated"); }
int MPI_Win_shared_query(MPI_Win, int, MPI_Aint *, int *, void *) { fail("UNSUPPORTED", "MPI_Win_shared_query is not simulated"); }
int MPI_Win_free(MPI_Win *w) {
  ENTER("Win_free"); Win *x = W(*w, "MPI_Win_free"); WinS *s = x->s; if (x->lockall) fail("MPI-USAGE", "MPI_Win_free inside a lock-all epoch (process %d)", _e.r); for (int e : x->ep) if (e) fail("MPI-USAGE", "MPI_Win_free inside a lock epoch (process %d)", _e.r);
  Comm cm{_e.r, s->ctx, false, s->g, {}, x->me}; CollRun r(&cm, "MPI_Win_free", {}, _e.r); r.arrive(); r.wait_all(); r.leave();
  for (auto o : pend) if (o->w == s && o->tgt == x->me && !o->stored) fail("MPI-USAGE", "MPI_Win_free while a transfer is still outstanding");
  WinS::M &m = s->m[x->me]; m.freed = true; if (m.alloc) mem_free(_e.r, Z_WIN, m.base, "MPI_Win_free"); x->freed = true; s->nfreed++; *w = MPI_WIN_NULL; return 0;
}
int MPI_Win_get_group(MPI_Win w, MPI_Group *g) { ENTERQ("Win_get_group"); *g = mkgroup(W(w, "MPI_Win_get_group")->s->g); return 0; }
int MPI_Win_get_attr(MPI_Win w, int key, void *v, int *f) {
  ENTERQ("Win_get_attr"); Win *x = W(w, "MPI_Win_get_attr"); WinS::M &m = x->s->m[x->me]; static int model[2] = {MPI_WIN_UNIFIED, MPI_WIN_SEPARATE}; static MPI_Aint sz[64]; static int k = 0; *f = 1;
  switch (key) { case MPI_WIN_BASE: *(void **)v = m.base; break; case MPI_WIN_SIZE: k = (k + 1) % 64; sz[k] = m.size; *(MPI_Aint **)v = &sz[k]; break; case MPI_WIN_DISP_UNIT: *(int **)v = &m.unit; break; case MPI_WIN_CREATE_FLAVOR: *(int **)v = &x->s->flavor; break; case MPI_WIN_MODEL: *(int **)v = &model[K.cfg.separate ? 1 : 0]; break; default: *f = 0; } return 0;
}
int MPI_Win_set_info(MPI_Win w, MPI_Info i) { ENTER("Win_set_info"); Win *x = W(w, "MPI_Win_set_info"); for (auto &k : info_map(i, "MPI_Win_set_info")) x->s->info[x->me][k.first] = k.second; return 0; }
int MPI_Win_get_info(MPI_Win w, MPI_Info *i) { ENTERQ("Win_get_info"); Win *x = W(w, "MPI_Win_get_info"); *i = (MPI_Info)infos.add(Info{_e.r, x->s->info[x->me]}); return 0; }
int MPI_Win_set_errhandler(MPI_Win, MPI_Errhandler) { return 0; }
int MPI_Win_set_name(MPI_Win, const char *) { return 0; }
static void add_lock(WinS *s, int t, int rank, int type, bool nocheck, bool all) {
  LockReq l{rank, type, false, nocheck, K.step, all}; bool free = true;
  for (auto &o : s->locks[t]) if (o.granted && !(o.type == MPI_LOCK_SHARED && type == MPI_LOCK_SHARED)) { free = false; if (nocheck) fail("MPI-USAGE", "a lock asserted to be conflict-free conflicts at process %d", s->g[t]); }
  if (nocheck) l.granted = true; else if (!free) fire(F_lock_contended);
  s->locks[t].push_back(l);
}
static void drop_lock(WinS *s, int t, int rank, bool all) { auto &v = s->locks[t]; for (size_t i = 0; i < v.size(); i++) if (v[i].rank == rank && v[i].all == all) { v.erase(v.begin() + i); return; } }
static bool has_lock(WinS *s, int t, int rank) { for (auto &l : s->locks[t]) if (l.rank == rank && l.granted) return true; return false; }
int MPI_Win_fence(int as, MPI_Win w) {
  ENTER("Win_fence"); Win *x = W(w, "MPI_Win_fence"); WinS *s = x->s; if (x->fence) flush(x, -1, false, "MPI_Win_fence"); Comm cm{_e.r, s->ctx, false, s->g, {}, x->me}; CollRun r(&cm, "MPI_Win_fence", {}, _e.r); r.arrive(); r.wait_all(); r.leave(); sep_sync(s, x->me, 0);
  if (!x->fence && !(as & MPI_MODE_NOSUCCEED)) { x->fence = true; for (size_t t = 0; t < s->g.size(); t++) add_lock(s, (int)t, x->me, MPI_LOCK_SHARED, true, true); }
  else if (x->fence && (as & MPI_MODE_NOSUCCEED)) { x->fence = false; for (size_t t = 0; t < s->g.size(); t++) drop_lock(s, (int)t, x->me, true); } return 0;
}
int MPI_Win_lock(int type, int t, int as, MPI_Win w) {
  ENTER("Win_lock"); Win *x = W(w, "MPI_Win_lock"); WinS *s = x->s; if (t < 0 || t >= (int)s->g.size()) fail("MPI-USAGE", "MPI_Win_lock: rank %d is not in the window's group", t); if (type != MPI_LOCK_SHARED && type != MPI_LOCK_EXCLUSIVE) fail("MPI-USAGE", "MPI_Win_lock: bad lock type");
  if (x->lockall || x->ep[t] || x->fence) fail("MPI-USAGE", "MPI_Win_lock by process %d inside another epoch for rank %d", _e.r, t);
  sep_sync(s, x->me, 2); x->ep[t] = type; add_lock(s, t, x->me, type, as & MPI_MODE_NOCHECK, false); ev("lock win%u %d type %d", s->id, t, type);
  int me = x->me; if (s->g[t] == _e.r || !choose_pct(40)) wait_until([=] { return has_lock(s, t, me); }, "MPI_Win_lock"); else fire(F_lock_deferred); return 0;
}
int MPI_Win_unlock(int t, MPI_Win w) {
  ENTER("Win_unlock"); Win *x = W(w, "MPI_Win_unlock"); if (t < 0 || t >= (int)x->ep.size() || !x->ep[t]) fail("MPI-USAGE", "MPI_Win_unlock by process %d without a lock on rank %d", _e.r, t);
  WinS *s = x->s; int me = x->me; wait_until([=] { return has_lock(s, t, me); }, "MPI_Win_unlock"); flush(x, t, false, "MPI_Win_unlock"); sep_sync(s, me, 1); drop_lock(s, t, me, false); x->ep[t] = 0; ev("unlock win%u %d", s->id, t); return 0;
}
int MPI_Win_lock_all(int as, MPI_Win w) {
  ENTER("Win_lock_all"); Win *x = W(w, "MPI_Win_lock_all"); WinS *s = x->s; if (x->lockall || x->fence) fail("MPI-USAGE", "MPI_Win_lock_all inside another epoch (process %d)", _e.r); for (int e : x->ep) if (e) fail("MPI-USAGE", "MPI_Win_lock_all inside a lock epoch");
  sep_sync(s, x->me, 2); x->lockall = 1; x->lockall_assert = as; for (size_t t = 0; t < s->g.size(); t++) add_lock(s, (int)t, x->me, MPI_LOCK_SHARED, as & MPI_MODE_NOCHECK, true); return 0;
}
int MPI_Win_unlock_all(MPI_Win w) {
  ENTER("Win_unlock_all"); Win *x = W(w, "MPI_Win_unlock_all"); WinS *s = x->s; if (!x->lockall) fail("MPI-USAGE", "MPI_Win_unlock_all without MPI_Win_lock_all (process %d)", _e.r); int me = x->me;
  sep_sync(s, me, 1); flush(x, -1, false, "MPI_Win_unlock_all"); wait_until([=] { for (size_t t = 0; t < s->g.size(); t++) if (!has_lock(s, (int)t, me)) return false; return true; }, "MPI_Win_unlock_all");
  for (size_t t = 0; t < s->g.size(); t++) drop_lock(s, (int)t, me, true); x->lockall = 0; return 0;
}
static Win *passive(MPI_Win w, int t, const char *fn) { Win *x = W(w, fn); if (t >= (int)x->ep.size() || t < -1) fail("MPI-USAGE", "%s: rank %d is not in the window's group", fn, t); if (!x->lockall) { if (t >= 0 && !x->ep[t]) fail("MPI-USAGE", "%s by process %d outside a passive epoch", fn, K.cur->rank); if (t < 0) { bool any = false; for (int e : x->ep) any |= e != 0; if (!any) fail("MPI-USAGE", "%s by process %d outside a passive epoch", fn, K.cur->rank); } } return x; }
int MPI_Win_flush(int t, MPI_Win w) { ENTER("Win_flush"); if (t < 0) fail("MPI-USAGE", "MPI_Win_flush: rank %d", t); flush(passive(w, t, "MPI_Win_flush"), t, false, "MPI_Win_flush"); return 0; }
int MPI_Win_flush_all(MPI_Win w) { ENTER("Win_flush_all"); flush(passive(w, -1, "MPI_Win_flush_all"), -1, false, "MPI_Win_flush_all"); return 0; }
int MPI_Win_flush_local(int t, MPI_Win w) { ENTER("Win_flush_local"); if (t < 0) fail("MPI-USAGE", "MPI_Win_flush_local: rank %d", t); flush(passive(w, t, "MPI_Win_flush_local"), t, true, "MPI_Win_flush_local"); return 0; }
int MPI_Win_flush_local_all(MPI_Win w) { ENTER("Win_flush_local_all"); flush(passive(w, -1, "MPI_Win_flush_local_all"), -1, true, "MPI_Win_flush_local_all"); return 0; }
int MPI_Win_sync(MPI_Win w) { ENTER("Win_sync"); Win *x = W(w, "MPI_Win_sync"); if (!x->lockall) { bool any = x->fence; for (int e : x->ep) any |= e != 0; if (!any) fail("MPI-USAGE", "MPI_Win_sync outside a passive epoch"); } sep_sync(x->s, x->me, 0); return 0; }
}
static std::vector<Seg> segs_at(const void *b, long n, MPI_Datatype d, const char *fn) { const Type *t = T(d, fn); need_commit(t, fn); if (n < 0) fail("MPI-USAGE", "%s: negative count %ld", fn, n); std::vector<Seg> s; flatten(t, n, (long)b, s); return s; }
static int rma(const char *fn, RK k, const void *ob, long on, MPI_Datatype od, void *rb, long rn, MPI_Datatype rd, const void *cb, int tgt, MPI_Aint disp, long tn, MPI_Datatype td, MPI_Op op, MPI_Win w, MPI_Request *q) {
  Enter _e(fn); Win *x = W(w, fn); u64 h = 0; if (q) { h = new_req(3); reqs.find(h)->rma = true; *q = (MPI_Request)h; }
  std::vector<Seg> o, r, c; bool noop = is_acc(k) && op == MPI_NO_OP;
  if (k != R_GET && !noop) o = segs_at(ob, on, od, fn); if (fetches(k)) r = segs_at(rb, rn, rd, fn); if (k == R_CAS) c = segs_at(cb, 1, od, fn);
  if (is_acc(k) && k != R_CAS) need_op(op, fn);
  issue(fn, k, x, tgt, (long)disp, std::move(o), std::move(r), T(td, fn), tn, (u64)op, std::move(c), h); return 0;
}
extern "C" {
int MPI_Put(const void *o, int on, MPI_Datatype od, int t, MPI_Aint d, int tn, MPI_Datatype td, MPI_Win w) { return rma("MPI_Put", R_PUT, o, on, od, nullptr, 0, td, nullptr, t, d, tn, td, MPI_REPLACE, w, nullptr); }
int MPI_Get(void *o, int on, MPI_Datatype od, int t, MPI_Aint d, int tn, MPI_Datatype td, MPI_Win w) { return rma("MPI_Get", R_GET, nullptr, 0, od, o, on, od, nullptr, t, d, tn, td, MPI_NO_OP, w, nullptr); }
int MPI_Accumulate(const void *o, int on, MPI_Datatype od, int t, MPI_Aint d, int tn, MPI_Datatype td, MPI_Op op, MPI_Win w) { return rma("MPI_Accumulate", R_ACC, o, on, od, nullptr, 0, td, nullptr, t, d, tn, td, op, w, nullptr); }
int MPI_Get_accumulate(const void *o, int on, MPI_Datatype od, void *r, int rn, MPI_Datatype rd, int t, MPI_Aint d, int tn, MPI_Datatype td, MPI_Op op, MPI_Win w) { return rma("MPI_Get_accumulate", R_GACC, o, on, od, r, rn, rd, nullptr, t, d, tn, td, op, w, nullptr); }
int MPI_Fetch_and_op(const void *o, void *r, MPI_Datatype dt, int t, MPI_Aint d, MPI_Op op, MPI_Win w) { return rma("MPI_Fetch_and_op", R_GACC, o, 1, dt, r, 1, dt, nullptr, t, d, 1, dt, op, w, nullptr); }
int MPI_Compare_and_swap(const void *o, const void *c, void *r, MPI_Datatype dt, int t, MPI_Aint d, MPI_Win w) { return rma("MPI_Compare_and_swap", R_CAS, o, 1, dt, r, 1, dt, c, t, d, 1, dt, MPI_REPLACE, w, nullptr); }
int MPI_Rput(const void *o, int on, MPI_Datatype od, int t, MPI_Aint d, int tn, MPI_Datatype td, MPI_Win w, MPI_Request *q) { return rma("MPI_Rput", R_PUT, o, on, od, nullptr, 0, td, nullptr, t, d, tn, td, MPI_REPLACE, w, q); }
int MPI_Rget(void *o, int on, MPI_Datatype od, int t, MPI_Aint d, int tn, MPI_Datatype td, MPI_Win w, MPI_Request *q) { return rma("MPI_Rget", R_GET, nullptr, 0, od, o, on, od, nullptr, t, d, tn, td, MPI_NO_OP, w, q); }
int MPI_Raccumulate(const void *o, int on, MPI_Datatype od, int t, MPI_Aint d, int tn, MPI_Datatype td, MPI_Op op, MPI_Win w, MPI_Request *q) { return rma("MPI_Raccumulate", R_ACC, o, on, od, nullptr, 0, td, nullptr, t, d, tn, td, op, w, q); }
int MPI_Rget_accumulate(const void *o, int on, MPI_Datatype od, void *r, int rn, MPI_Datatype rd, int t, MPI_Aint d, int tn, MPI_Datatype td, MPI_Op op, MPI_Win w, MPI_Request *q) { return rma("MPI_Rget_accumulate", R_GACC, o, on, od, r, rn, rd, nullptr, t, d, tn, td, op, w, q); }

// ------------------------------------------------------------------ threads, time, environment, output
struct SimThr { void *(*fn)(void *); void *arg; int id; };
static std::deque<SimThr> thr_pool;
struct SyncObj { int n = 0, owner = 0; std::vector<int> wait; };
static std::map<std::pair<int, void *>, SyncObj> sync_objs;
}
namespace sim { static void thr_reset() { thr_pool.clear(); sync_objs.clear(); mmsg_live.clear(); } }
extern "C" {
static void thr_entry(void *a) { SimThr *t = (SimThr *)a; void *r = t->fn(t->arg); K.fib[t->id].retval = r; ev("thread ends"); }
int sim_pthread_create(unsigned long *t, const void *, void *(*fn)(void *), void *arg) {
  Fiber *f = K.cur; yield("pthread_create"); if (K.cfg.pt_fail) { fire(F_thread_create_failed); return 11; }
  int n = 0; for (int i = 0; i < K.nfib; i++) if (K.fib[i].rank == f->rank) n++;
  thr_pool.push_back(SimThr{fn, arg, 0}); int id = spawn(f->rank, n, thr_entry, &thr_pool.back()); if (id < 0) return 11; thr_pool.back().id = id; *t = 0x7000 + id; ev("thread %d created", id); return 0;
}
int sim_pthread_join(unsigned long t, void **r) {
  long id = (long)t - 0x7000; if (id < 0 || id >= K.nfib || K.fib[id].rank != K.cur->rank || K.fib[id].thr == 0) fail("PTHREAD", "process %d joins a thread that does not exist", K.cur->rank);
  Fiber *x = &K.fib[id]; if (x->joined || x->detached) fail("PTHREAD", "process %d joins a thread twice or a detached one", K.cur->rank);
  if (x == K.cur) fail("PTHREAD", "a thread joins itself"); wait_until([x] { return x->st == FS_DONE; }, "pthread_join"); x->joined = true; if (r) *r = x->retval; return 0;
}
int sim_pthread_detach(unsigned long t) { long id = (long)t - 0x7000; if (id >= 0 && id < K.nfib) K.fib[id].detached = true; return 0; }
void sim_pthread_exit(void *r) { Fiber *f = K.cur; f->retval = r; f->mpi_depth = 0; f->st = FS_DONE; ev("thread ends"); fiber_exit(); }
unsigned long sim_pthread_self(void) { return 0x7000 + K.cur->id; }
int sim_pthread_equal(unsigned long a, unsigned long b) { return a == b; }
// The state of a mutex lives in the simulator, keyed by process and address: the library's static data is swapped with the
// process that runs, so a predicate the scheduler evaluates must not read it there.
static SyncObj *so(void *m) { auto &o = sync_objs[{K.cur->rank, m}]; return &o; }
int sim_pthread_mutex_lock(int *m) { Fiber *f = K.cur; yield("pthread_mutex_lock"); SyncObj *o = so(m); if (m[4] == 1 && o->n && o->owner == f->id + 1) { o->n++; return 0; } wait_until([o] { return o->n == 0; }, "pthread_mutex_lock"); o->n = 1; o->owner = f->id + 1; return 0; }
int sim_pthread_mutex_trylock(int *m) { Fiber *f = K.cur; yield("pthread_mutex_trylock"); SyncObj *o = so(m); if (o->n) { if (m[4] == 1 && o->owner == f->id + 1) { o->n++; return 0; } f->spin = true; return 16; } o->n = 1; o->owner = f->id + 1; return 0; }
int sim_pthread_mutex_unlock(int *m) { Fiber *f = K.cur; SyncObj *o = so(m); if (!o->n || o->owner != f->id + 1) fail("PTHREAD", "process %d unlocks a mutex it does not hold", f->rank); if (--o->n == 0) o->owner = 0; yield("pthread_mutex_unlock"); return 0; }
int sim_pthread_mutex_init(int *m, const int *a) { memset(m, 0, 40); if (a) m[4] = a[0]; *so(m) = SyncObj(); return 0; }
int sim_pthread_mutex_destroy(int *m) { if (so(m)->n) fail("PTHREAD", "process %d destroys a held mutex", K.cur->rank); return 0; }
int sim_pthread_mutexattr_init(int *a) { a[0] = 0; return 0; }
int sim_pthread_mutexattr_settype(int *a, int t) { a[0] = t; return 0; }
int sim_pthread_mutexattr_destroy(int *) { return 0; }
int sim_pthread_cond_init(int *c, const void *) { *so(c) = SyncObj(); return 0; }
int sim_pthread_cond_destroy(int *) { return 0; }
int sim_pthread_cond_wait(int *c, int *m) {
  Fiber *f = K.cur; SyncObj *o = so(c), *q = so(m); int tok = ++o->n; o->wait.push_back(tok);
  if (!q->n || q->owner != f->id + 1) fail("PTHREAD", "process %d waits on a condition without holding the mutex", f->rank);
  sim_pthread_mutex_unlock(m);
  if (choose_pct(K.cfg.spurious_pct)) { fire(F_spurious_wake); o->wait.erase(std::remove(o->wait.begin(), o->wait.end(), tok), o->wait.end()); f->spin = true; return sim_pthread_mutex_lock(m); }
  wait_until([=] { return std::find(o->wait.begin(), o->wait.end(), tok) == o->wait.end(); }, "pthread_cond_wait"); return sim_pthread_mutex_lock(m);
}
int sim_pthread_cond_signal(int *c) { SyncObj *o = so(c); if (o->wait.empty()) return 0; u32 i = choose((u32)o->wait.size()); if (o->wait.size() > 1) fire(F_signal_choice); o->wait.erase(o->wait.begin() + i); return 0; }
int sim_pthread_cond_broadcast(int *c) { so(c)->wait.clear(); return 0; }
int sim_pthread_once(int *oc, void (*fn)(void)) { SyncObj *o = so(oc); if (o->n == 0) { o->n = 1; fn(); o->n = 2; } else wait_until([o] { return o->n == 2; }, "pthread_once"); return 0; }
int sim_pthread_cond_timedwait(int *c, int *m, const struct timespec *t) {   // may time out whenever the simulated clock has passed the limit
  Fiber *f = K.cur; SyncObj *o = so(c), *q = so(m); int tok = ++o->n; o->wait.push_back(tok); u64 lim = (u64)t->tv_sec * 1000000 + t->tv_nsec / 1000;
  if (!q->n || q->owner != f->id + 1) fail("PTHREAD", "process %d waits on a condition without holding the mutex", f->rank);
  sim_pthread_mutex_unlock(m); auto in = [=] { return std::find(o->wait.begin(), o->wait.end(), tok) != o->wait.end(); };
  while (in() && K.clock < lim) sleep_us(std::min<u64>(lim - K.clock, 50), "pthread_cond_timedwait");
  bool late = in(); if (late) o->wait.erase(std::remove(o->wait.begin(), o->wait.end(), tok), o->wait.end()); sim_pthread_mutex_lock(m); return late ? 110 : 0;
}
// read-write locks: n > 0 readers, n < 0 held for writing
int sim_pthread_rwlock_init(void *m, const void *) { *so(m) = SyncObj(); return 0; }
int sim_pthread_rwlock_destroy(void *m) { if (so(m)->n) fail("PTHREAD", "process %d destroys a held lock", K.cur->rank); return 0; }
int sim_pthread_rwlock_rdlock(void *m) { yield("pthread_rwlock_rdlock"); SyncObj *o = so(m); wait_until([o] { return o->n >= 0; }, "pthread_rwlock_rdlock"); o->n++; return 0; }
int sim_pthread_rwlock_wrlock(void *m) { Fiber *f = K.cur; yield("pthread_rwlock_wrlock"); SyncObj *o = so(m); wait_until([o] { return o->n == 0; }, "pthread_rwlock_wrlock"); o->n = -1; o->owner = f->id + 1; return 0; }
int sim_pthread_rwlock_tryrdlock(void *m) { yield("pthread_rwlock_tryrdlock"); SyncObj *o = so(m); if (o->n < 0) { K.cur->spin = true; return 16; } o->n++; return 0; }
int sim_pthread_rwlock_trywrlock(void *m) { Fiber *f = K.cur; yield("pthread_rwlock_trywrlock"); SyncObj *o = so(m); if (o->n) { f->spin = true; return 16; } o->n = -1; o->owner = f->id + 1; return 0; }
int sim_pthread_rwlock_unlock(void *m) { Fiber *f = K.cur; SyncObj *o = so(m); if (!o->n || (o->n < 0 && o->owner != f->id + 1)) fail("PTHREAD", "process %d unlocks a lock it does not hold", f->rank); if (o->n < 0) o->n = 0, o->owner = 0; else o->n--; yield("pthread_rwlock_unlock"); return 0; }
int sim_pthread_spin_init(void *m, int) { *so(m) = SyncObj(); return 0; }
int sim_pthread_spin_destroy(void *m) { return sim_pthread_rwlock_destroy(m); }
int sim_pthread_spin_lock(void *m) { return sim_pthread_rwlock_wrlock(m); }
int sim_pthread_spin_trylock(void *m) { return sim_pthread_rwlock_trywrlock(m); }
int sim_pthread_spin_unlock(void *m) { return sim_pthread_rwlock_unlock(m); }
int sim_nanosleep(const struct timespec *t, struct timespec *) { sleep_us((u64)t->tv_sec * 1000000 + t->tv_nsec / 1000 + 1, "nanosleep"); return 0; }
int sim_usleep(unsigned u) { sleep_us(u + 1, "usleep"); return 0; }
unsigned sim_sleep(unsigned s) { sleep_us((u64)s * 1000000, "sleep"); return 0; }
int sim_sched_yield(void) { K.cur->spin = true; yield("sched_yield"); return 0; }
int sim_clock_gettime(int, struct timespec *t) { t->tv_sec = K.clock / 1000000; t->tv_nsec = (K.clock % 1000000) * 1000; return 0; }
int sim_gettimeofday(struct timeval *t, void *) { t->tv_sec = K.clock / 1000000; t->tv_usec = K.clock % 1000000; return 0; }
long sim_time(long *t) { long v = K.clock / 1000000; if (t) *t = v; return v; }
static u32 libc_rand() { u64 h = (u64)K.step * 0x9E3779B97F4A7C15ull + K.cur->id * 77 + 1; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32; return (u32)h & 0x7fffffff; }   // follows from the schedule
int sim_rand(void) { return (int)libc_rand(); }
long sim_random(void) { return libc_rand(); }
double sim_drand48(void) { return libc_rand() / 2147483648.0; }
void sim_srand(unsigned) {}
void sim_srandom(unsigned) {}
void sim_srand48(long) {}
long sim_clock(void) { return (long)K.clock; }
int sim_vasprintf(char **o, const char *f, va_list ap) { char b[4000]; int n = std::min<int>(vsnprintf(b, sizeof b, f, ap), sizeof b - 1); *o = (char *)sim_malloc(n + 1); if (!*o) return -1; memcpy(*o, b, n + 1); return n; }
int sim_asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int n = sim_vasprintf(o, f, ap); va_end(ap); return n; }
char *sim_getenv(const char *n) { auto it = sim::env.find(n); return it == sim::env.end() ? nullptr : (char *)it->second.c_str(); }
char *sim_secure_getenv(const char *n) { return sim_getenv(n); }
static void out(const char *s, size_t n) { if (K.log.size() < 100000) K.log.append(s, n); }
int sim_vprintf(const char *f, va_list ap) { char b[2000]; int n = vsnprintf(b, sizeof b, f, ap); out(b, std::min<size_t>(n < 0 ? 0 : n, sizeof b - 1)); return n; }
int sim_printf(const char *f, ...) { va_list ap; va_start(ap, f); int n = sim_vprintf(f, ap); va_end(ap); return n; }
int sim_vfprintf(void *, const char *f, va_list ap) { return sim_vprintf(f, ap); }
int sim_fprintf(void *, const char *f, ...) { va_list ap; va_start(ap, f); int n = sim_vprintf(f, ap); va_end(ap); return n; }
int sim_puts(const char *s) { out(s, strlen(s)); out("\n", 1); return 1; }
int sim_putchar(int c) { char b = (char)c; out(&b, 1); return c; }
int sim_fputs(const char *s, void *) { out(s, strlen(s)); return 1; }
int sim_fputc(int c, void *) { return sim_putchar(c); }
size_t sim_fwrite(const void *p, size_t a, size_t b, void *) { out((const char *)p, a * b); return b; }
int sim_fflush(void *) { return 0; }
void sim_perror(const char *s) { out(s, strlen(s)); out("\n", 1); }
int sim_backtrace(void **, int) { return 0; }
char **sim_backtrace_symbols(void *const *, int) { return (char **)sim_malloc(8); }
void sim_backtrace_symbols_fd(void *const *, int, int) {}
void sim_exit(int c) { fail("ABORT", "process %d called exit(%d)", K.cur->rank, c); }
void sim__exit(int c) { sim_exit(c); }
void sim__Exit(int c) { sim_exit(c); }
void sim_quick_exit(int c) { sim_exit(c); }
int sim_putc(int c, void *) { return sim_putchar(c); }
void sim_abort(void) { fail("ABORT", "process %d called abort()", K.cur->rank); }
void sim_assert_fail(const char *e, const char *, unsigned, const char *) { fail("ABORT", "process %d: assertion failed: %s", K.cur->rank, e); }
int sim_gethostname(char *s, size_t n) { snprintf(s, n, "simulated"); return 0; }
int sim_getpid(void) { return 1000 + K.cur->rank; }
}

// ------------------------------------------------------------------ further forms of the calls above
int MPI_Group_range_incl(MPI_Group g, int n, int rg[][3], MPI_Group *o) { std::vector<int> l; for (int i = 0; i < n; i++) { if (!rg[i][2]) fail("MPI-USAGE", "MPI_Group_range_incl: stride 0"); for (int k = rg[i][0]; rg[i][2] > 0 ? k <= rg[i][1] : k >= rg[i][1]; k += rg[i][2]) l.push_back(k); } return MPI_Group_incl(g, (int)l.size(), l.data(), o); }
int MPI_Group_range_excl(MPI_Group g, int n, int rg[][3], MPI_Group *o) { std::vector<int> l; for (int i = 0; i < n; i++) { if (!rg[i][2]) fail("MPI-USAGE", "MPI_Group_range_excl: stride 0"); for (int k = rg[i][0]; rg[i][2] > 0 ? k <= rg[i][1] : k >= rg[i][1]; k += rg[i][2]) l.push_back(k); } return MPI_Group_excl(g, (int)l.size(), l.data(), o); }
int MPI_Type_get_extent_x(MPI_Datatype d, MPI_Count *lb, MPI_Count *e) { MPI_Aint a, b; MPI_Type_get_extent(d, &a, &b); *lb = a; *e = b; return 0; }
int MPI_Type_get_true_extent_x(MPI_Datatype d, MPI_Count *lb, MPI_Count *e) { MPI_Aint a, b; MPI_Type_get_true_extent(d, &a, &b); *lb = a; *e = b; return 0; }
int MPI_Imrecv(void *b, int n, MPI_Datatype d, MPI_Message *o, MPI_Request *q) { int rc = MPI_Mrecv(b, n, d, o, MPI_STATUS_IGNORE); *q = MPI_REQUEST_NULL; return rc; }
// non-blocking collectives: carried out at once (a legal, synchronising implementation of them)
int MPI_Ibcast(void *b, int n, MPI_Datatype d, int root, MPI_Comm c, MPI_Request *q) { *q = MPI_REQUEST_NULL; return MPI_Bcast(b, n, d, root, c); }
int MPI_Iallreduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op o, MPI_Comm c, MPI_Request *q) { *q = MPI_REQUEST_NULL; return MPI_Allreduce(s, r, n, d, o, c); }
int MPI_Ireduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op o, int root, MPI_Comm c, MPI_Request *q) { *q = MPI_REQUEST_NULL; return MPI_Reduce(s, r, n, d, o, root, c); }
int MPI_Iallgather(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd, MPI_Comm c, MPI_Request *q) { *q = MPI_REQUEST_NULL; return MPI_Allgather(s, sn, sd, r, rn, rd, c); }
int MPI_Igather(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd, int root, MPI_Comm c, MPI_Request *q) { *q = MPI_REQUEST_NULL; return MPI_Gather(s, sn, sd, r, rn, rd, root, c); }
int MPI_Comm_idup(MPI_Comm c, MPI_Comm *o, MPI_Request *q) { *q = MPI_REQUEST_NULL; return MPI_Comm_dup(c, o); }
int MPI_Info_get_nthkey(MPI_Info i, int n, char *k) { auto &kv = infos.get((u64)i, "MPI_Info_get_nthkey")->kv; if (n < 0 || n >= (int)kv.size()) fail("MPI-USAGE", "MPI_Info_get_nthkey %d of %zu", n, kv.size()); auto it = kv.begin(); std::advance(it, n); strcpy(k, it->first.c_str()); return 0; }
int MPI_Info_get_valuelen(MPI_Info i, const char *k, int *n, int *f) { auto &kv = infos.get((u64)i, "MPI_Info_get_valuelen")->kv; auto it = kv.find(k); *f = it != kv.end(); if (*f) *n = (int)it->second.size(); return 0; }
