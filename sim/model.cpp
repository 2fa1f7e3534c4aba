// The reference model: decides whether a step is legal at its place in the program and what it must produce.
#include "prog.h"
#include <cmath>
#include <sstream>
namespace sim {
const char *kind_name[S_COUNT] = {
#define X(n) #n,
  STEP_KINDS(X)
#undef X
};
const int tsize[6] = {4, 8, 4, 8, 8, 16};
const int vsize[4] = {4, 8, 4, 8};
const int gsize[5] = {4, 8, 8, 4, 8};

// ------------------------------------------------------------------ transfer expansion
bool expand(const Step &s, Xfer &x) {
  const auto &p = s.p; x.segs.clear(); x.span = 0; if ((int)p.size() < X_HEAD + 1) return false;
  const long *t = p.data() + X_HEAD; long n = (long)p.size() - X_HEAD; long rid = p[X_RID], ro = p[X_ROFF];
  switch (p[X_SHAPE]) {
    case SH_CONTIG: x.segs.push_back({rid, ro, 0, t[0]}); x.span = t[0]; break;
    case SH_VALUE: if (t[0] < 0 || t[0] > 3) return false; x.segs.push_back({rid, ro, 0, vsize[t[0]]}); x.span = vsize[t[0]]; break;
    case SH_STRIDED: {
      int L = (int)t[0]; if (L < 0 || L > 7 || n < 1 + (L + 1) + 2 * L) return false; const long *c = t + 1, *ls = t + 2 + L, *rs = ls + L;
      long tot = 1; for (int i = 1; i <= L; i++) tot *= c[i]; if (tot < 0 || tot > 4096) return false; long idx[9] = {0};
      for (long k = 0; k < tot; k++) {
        long l = 0, r = 0; for (int i = 0; i < L; i++) { l += idx[i] * ls[i]; r += idx[i] * rs[i]; }
        if (c[0] > 0) x.segs.push_back({rid, ro + r, l, c[0]});
        x.span = std::max(x.span, l + c[0]);
        for (int i = 0; i < L; i++) { if (++idx[i] < c[i + 1]) break; idx[i] = 0; }
      }
      break; }
    case SH_VECTOR: {
      int v = (int)t[0]; long q = 1;
      for (int i = 0; i < v; i++) { if (q + 2 > n) return false; long b = t[q], m = t[q + 1]; q += 2; for (long j = 0; j < m; j++) { if (q + 3 > n) return false; if (b > 0) x.segs.push_back({t[q], t[q + 1], t[q + 2], b}); x.span = std::max(x.span, t[q + 2] + b); q += 3; } }
      break; }
    default: return false;
  }
  for (auto &g : x.segs) if (g.len < 0 || g.loff < 0) return false;
  return true;
}

// ------------------------------------------------------------------ data
static u64 h2(u64 a, u64 b) { u64 z = a * 0x9E3779B97F4A7C15ULL + b * 0xBF58476D1CE4E5B9ULL + 0x1234567; z ^= z >> 29; z *= 0x94D049BB133111EBULL; z ^= z >> 32; return z; }
u8 data_byte(long uid, long i) { return (u8)(h2(uid, i) >> 17); }
void acc_value(long uid, int type, long i, u8 *o) {
  u64 h = h2(uid + 77, i); long small = (long)(h % 41) - 20; if (small == 0) small = 7;
  switch (type) {
    case 0: { int v = h % 5 == 0 ? (int)(h >> 40) - (1 << 22) : (int)((h >> 8) % 2001) - 1000; memcpy(o, &v, 4); break; }
    case 1: { long v = h % 5 == 0 ? (long)(h >> 20) - (1L << 42) : (long)((h >> 8) % 2001) - 1000; memcpy(o, &v, 8); break; }
    case 2: { float v = (float)small; memcpy(o, &v, 4); break; }
    case 3: { double v = (double)small * 3; memcpy(o, &v, 8); break; }
    case 4: { float v[2] = {(float)small, (float)((long)((h >> 30) % 31) - 15)}; memcpy(o, v, 8); break; }
    case 5: { double v[2] = {(double)small, (double)((long)((h >> 30) % 31) - 15)}; memcpy(o, v, 16); break; }
  }
}
void gen_data(long uid, int ht, long roff, u8 *out, long n, long pos) {
  long lo = 0, hi = 0; if (ht >= 0) { int z = tsize[ht]; lo = ((-roff) % z + z) % z; hi = lo > n ? lo : lo + (n - lo) / z * z; for (long i = lo; i < hi; i += z) acc_value(uid, ht, pos + i, out + i); }   // whole elements get values, the rest bytes
  for (long i = 0; i < n; i++) if (i < lo || i >= hi) out[i] = data_byte(uid, pos + i);
}
void scale_value(int type, int code, u8 *o) {
  static const int S[] = {1, 2, -1, 3, 0, -2}; int k = S[code % 6]; int im = code >= 6 ? 1 : 0;
  if (code >= 12) { // wide integers, fractions, values next to one
    static const int I[] = {70000, -40000, 65536, 1 << 30, 33000, 257}; static const long L[] = {1L << 32, (1L << 32) + 1, -(1L << 40), 70000, 1L << 62, -((1L << 33) + 5)}; static const float F[] = {1.5f, 0.5f, -0.25f, 1.0f + 1.0f / 1024, 1.0f - 1.0f / 1024, 2.5f}; static const double D[] = {1.5, 0.5, -0.25, 1.0 + 1.0 / (1 << 26), 1.0 - 1.0 / (1 << 26), 2.5};
    int i = code % 6, j = code / 6 % 3; static const float IF[] = {0.5f, 0, -1.0f / 1024}; static const double ID[] = {0.5, 0, -1.0 / (1 << 26)};
    switch (type) { case 0: memcpy(o, &I[i], 4); break; case 1: memcpy(o, &L[i], 8); break; case 2: memcpy(o, &F[i], 4); break; case 3: memcpy(o, &D[i], 8); break; case 4: { float v[2] = {F[i], IF[j]}; memcpy(o, v, 8); break; } case 5: { double v[2] = {D[i], ID[j]}; memcpy(o, v, 16); break; } }
    return; }
  switch (type) {
    case 0: memcpy(o, &k, 4); break; case 1: { long v = k; memcpy(o, &v, 8); break; } case 2: { float v = k; memcpy(o, &v, 4); break; } case 3: { double v = k; memcpy(o, &v, 8); break; }
    case 4: { float v[2] = {(float)k, (float)im}; memcpy(o, v, 8); break; } case 5: { double v[2] = {(double)k, (double)im}; memcpy(o, v, 16); break; }
  }
}
// values for which every order of additions gives the same sum: multiples of a small power of two, of bounded size
static bool nice(float v) { return std::isfinite(v) && v * 1024 == std::floor(v * 1024) && !(v == 0 && std::signbit(v)) && std::fabs(v) < 4096; }
static bool nice(double v) { return std::isfinite(v) && v * (1 << 26) == std::floor(v * (1 << 26)) && !(v == 0 && std::signbit(v)) && std::fabs(v) < 200000; }
static bool frac_ok(float c) { return std::isfinite(c) && c * 1024 == std::floor(c * 1024) && std::fabs(c) < 700; }
static bool frac_ok(double c) { return std::isfinite(c) && c * (1 << 26) == std::floor(c * (1 << 26)) && std::fabs(c) < 200000; }
static bool prod(float a, float b, float &r) { double d = (double)a * b; r = (float)d; return (double)r == d; }
static bool prod(double a, double b, double &r) { r = a * b; return std::fma(a, b, -r) == 0; }
template <class F, int N> static bool fadd(u8 *t, const u8 *s, const u8 *sc, bool exact) {
  F a[N], b[N], k[N], c[N]; memcpy(a, t, sizeof a); memcpy(b, s, sizeof b); memcpy(k, sc, sizeof k); for (int i = 0; i < N; i++) if (exact && (!nice(a[i]) || !nice(b[i]))) return false;
  bool ok = true; if (N == 1) ok = prod(b[0], k[0], c[0]); else { F x, y, z, w; ok = prod(b[0], k[0], x) & prod(b[N - 1], k[N - 1], y) & prod(b[0], k[N - 1], z) & prod(b[N - 1], k[0], w); c[0] = x - y; c[N - 1] = z + w; for (F v : {x, y, z, w}) ok &= frac_ok(v); }
  for (int i = 0; i < N; i++) { if (exact && (!ok || !frac_ok(c[i]))) return false; a[i] += c[i]; if (a[i] == 0) a[i] = 0; } memcpy(t, a, sizeof a); return true;
}
bool scaled_add(int type, int code, u8 *t, const u8 *s, bool exact) {   // t += scale * s; exact: refuse values for which the order of additions matters
  u8 sc[16]; scale_value(type, code, sc);
  switch (type) {
    case 0: { unsigned a, b, k; memcpy(&a, t, 4); memcpy(&b, s, 4); memcpy(&k, sc, 4); a += b * k; memcpy(t, &a, 4); return true; }
    case 1: { unsigned long a, b, k; memcpy(&a, t, 8); memcpy(&b, s, 8); memcpy(&k, sc, 8); a += b * k; memcpy(t, &a, 8); return true; }
    case 2: return fadd<float, 1>(t, s, sc, exact); case 3: return fadd<double, 1>(t, s, sc, exact);
    case 4: return fadd<float, 2>(t, s, sc, exact); case 5: return fadd<double, 2>(t, s, sc, exact);
  }
  return false;
}
// a floating-point zero may carry either sign
bool num_equal(int type, const u8 *a, const u8 *b) {
  switch (type) {
    case 2: case 4: { int n = type == 2 ? 1 : 2; for (int i = 0; i < n; i++) { float x, y; memcpy(&x, a + 4 * i, 4); memcpy(&y, b + 4 * i, 4); if (!(x == y)) return false; } return true; }
    case 3: case 5: { int n = type == 3 ? 1 : 2; for (int i = 0; i < n; i++) { double x, y; memcpy(&x, a + 8 * i, 8); memcpy(&y, b + 8 * i, 8); if (!(x == y)) return false; } return true; }
  }
  return !memcmp(a, b, tsize[type]);
}

// ------------------------------------------------------------------ text form
std::string step_text(const Step &s) { std::ostringstream o; o << kind_name[s.k] << ' ' << s.rank << ' ' << s.thr; for (long v : s.p) o << ' ' << v; return o.str(); }
#define ENVF(X) X(nranks) X(policy) X(net_pct) X(net_order) X(fifo_net) X(lazy) X(lazy_age) X(eager_pct) X(capture_pct) X(tear_pct) X(late_pct) X(latevis_pct) X(stall_pct) X(rendezvous_pct) X(spurious_pct) X(heap_fill) X(far) X(far_c) X(reuse_pct) X(adjacent_pct) X(segment_pct) X(permute_pct) X(weak_progress) X(preempt) X(thread_level) X(pt_fail) X(alloc_fail_at) X(alloc_fail_n) X(separate) X(fill) X(max_steps)
std::string prog_text(const Program &p) {
  std::ostringstream o; o << "profile " << p.profile << "\nthreads " << p.nthreads << "\nlc " << p.lc << "\nexpect_stop " << p.expect_stop << "\nalloc_mode " << p.alloc_mode << "\nrreq_limit " << p.rreq_limit << "\n";
#define X(f) o << "env " #f " " << p.env.f << "\n";
  ENVF(X)
#undef X
  for (auto &v : p.vars) o << "var " << v.first << " " << v.second << "\n";
  for (auto &s : p.steps) o << "step " << step_text(s) << "\n";
  return o.str();
}
bool prog_parse(const std::string &t, Program &p) {
  std::istringstream in(t); std::string line; p = Program();
  while (std::getline(in, line)) {
    std::istringstream l(line); std::string k; if (!(l >> k)) continue;
    if (k == "profile") l >> p.profile; else if (k == "threads") l >> p.nthreads; else if (k == "lc") l >> p.lc; else if (k == "expect_stop") l >> p.expect_stop; else if (k == "alloc_mode") l >> p.alloc_mode; else if (k == "rreq_limit") l >> p.rreq_limit;
    else if (k == "env") { std::string f; long v; l >> f >> v;
#define X(n) if (f == #n) p.env.n = v;
      ENVF(X)
#undef X
    } else if (k == "var") { std::string a, b; l >> a; std::getline(l, b); if (!b.empty()) b = b.substr(1); p.vars[a] = b; }
    else if (k == "step") { std::string kn; Step s; l >> kn >> s.rank >> s.thr; s.k = -1; for (int i = 0; i < S_COUNT; i++) if (kn == kind_name[i]) s.k = i; if (s.k < 0) return false; long v; while (l >> v) s.p.push_back(v); p.steps.push_back(s); }
  }
  return true;
}

// ------------------------------------------------------------------ model
void Model::begin(const Program *p, std::map<int, Expect> *e) { *this = Model(); P = p; E = e; if (E) E->clear(); }
Cell *Model::cell(long rid, int m, long off) {
  auto it = regions.find(rid); if (it == regions.end() || !it->second.alive) return nullptr; if (m < 0 || m >= (int)it->second.sh.size()) return nullptr; Share &s = it->second.sh[m]; if (off < 0 || off >= (long)s.c.size()) return nullptr; return &s.c[off];
}
bool Model::member(long rid, int me) { auto it = regions.find(rid); if (it == regions.end()) return false; auto &g = groups[it->second.gid].mem; return std::find(g.begin(), g.end(), me) != g.end(); }
bool Model::can_read(const CellKey &k, int a, bool bl) {
  Cell *c = cell(k.rid, k.mem, k.off); if (!c) return no("no such byte"); if (!member(k.rid, abs_of(a / 4))) return no("not part of the allocation\'s group"); if (c->wbusy) return no("destination of a transfer in flight");
  switch (c->mode) { case CM_NONE: case CM_R: return true; case CM_W: if (c->who != a) return no("written by another"); return c->pend == 0 || (P->lc && c->pend == 1 && bl) ? true : no("own write not fenced"); } return no("byte in use otherwise");
}
bool Model::can_write(const CellKey &k, int a, bool bl) {
  Cell *c = cell(k.rid, k.mem, k.off); if (!c) return no("no such byte"); if (!member(k.rid, abs_of(a / 4))) return no("not part of the allocation\'s group"); if (c->wbusy || c->rbusy) return no("part of a transfer in flight");
  switch (c->mode) { case CM_NONE: return true; case CM_R: return c->who == a ? true : no("read by another"); case CM_W: if (c->who != a) return no("written by another"); return c->pend == 0 || (P->lc && c->pend == 1 && bl) ? true : no("own write not fenced"); } return no("byte in use otherwise");
}
bool Model::can_acc(const CellKey &k, int a, bool bl, int type) {
  Cell *c = cell(k.rid, k.mem, k.off); if (!c) return no("no such byte"); if (!member(k.rid, abs_of(a / 4))) return no("not part of the allocation\'s group"); if (c->wbusy || c->rbusy) return no("part of a transfer in flight");
  if (c->mode == CM_NONE) return true; if (c->mode == CM_A) return c->who == type ? true : no("accumulated with another type");
  return can_write(k, a, bl);
}
void Model::do_read(const CellKey &k, int a) { Cell *c = cell(k.rid, k.mem, k.off); if (c->mode == CM_NONE) { c->mode = CM_R; c->who = a; } else if (c->mode == CM_R && c->who != a) c->who = -2; }
void Model::do_write(const CellKey &k, int a, int pend) { Cell *c = cell(k.rid, k.mem, k.off); c->mode = CM_W; c->who = a; c->unk = 0; if (pend) { if (!c->pend) pendcells[a].push_back(k); c->pend = pend; } else c->pend = 0; }
static u8 &byte(Model &m, const CellKey &k) { return m.regions[k.rid].sh[k.mem].b[k.off]; }
bool Model::outstanding() const { for (auto &h : handles) if (!h.second.ops.empty()) return true; for (auto &i : implicit) if (!i.second.empty()) return true; return false; }
void Model::complete(int st) {
  auto it = busy.find(st); if (it != busy.end()) { for (auto &b : it->second) { Cell *c = cell(b.first.rid, b.first.mem, b.first.off); if (c) { if (b.second == 1) c->rbusy--; else c->wbusy--; } } busy.erase(it); }
}
void Model::fence(int a, int tgt, Expect &e, int i) {
  auto &v = pendcells[a]; std::vector<CellKey> keep;
  for (auto &k : v) {
    Cell *c = cell(k.rid, k.mem, k.off); if (!c || c->mode != CM_W || c->who != a || !c->pend) continue;
    if (tgt >= 0 && k.mem != tgt) { keep.push_back(k); continue; }
    c->pend = 0; if (!c->unk && !c->wbusy) e.bytes.push_back({k.rid, k.mem, k.off, byte(*this, k)});
  }
  v = keep;
  std::map<CellKey, int> own; for (auto &r : accs) if (r.agent == a && (tgt < 0 || r.k.mem == tgt)) own[r.k] = r.type;
  int n = 0; for (auto &o : own) {
    if (++n > 48) break; ElemChk c; c.rid = o.first.rid; c.mem = o.first.mem; c.off = o.first.off; c.type = o.second; c.init = ainit[o.first];
    for (auto &r : accs) if (r.k.rid == c.rid && r.k.mem == c.mem && r.k.off == c.off && r.agent == a) c.own.push_back(r.v);
    e.elems.push_back(c);
  }
  if (!e.elems.empty()) openfences.push_back({i, a});
  for (auto &x : vc) if ((tgt < 0 || x.first.mem == tgt) && x.second.agents.count(a)) e.mono.push_back({x.first, a});
}
void Model::snapshot(Expect &e) {
  e.snap = std::make_shared<Snap>();
  for (auto &r : regions) if (r.second.alive) {
    auto &v = e.snap->val[r.first]; auto &m = e.snap->mask[r.first]; v.resize(r.second.sh.size()); m.resize(v.size());
    for (size_t i = 0; i < r.second.sh.size(); i++) { v[i] = r.second.sh[i].b; m[i].resize(v[i].size()); for (size_t j = 0; j < v[i].size(); j++) { Cell &c = r.second.sh[i].c[j]; m[i][j] = !c.unk && !c.wbusy; } }
  }
}
void Model::close_phase(Expect &e, int) {
  if (E) for (auto &of : openfences) { Expect &f = (*E)[of.first]; for (auto &c : f.elems) for (auto &r : accs) if (r.k.rid == c.rid && r.k.mem == c.mem && r.k.off == c.off && r.agent != of.second) c.oth.push_back(r.v); }
  openfences.clear();
  for (auto &x : vc) if (x.second.agents.size() > 1 && !x.second.addsonly) for (int i = 0; i < x.second.width; i++) { Cell *c = cell(x.first.rid, x.first.mem, x.first.off + i); if (c) c->unk = 1; }
  e.vcells = vc; vc.clear(); accs.clear(); ainit.clear(); pendcells.clear(); flagsteps.clear(); fanins.clear();
  for (auto &r : regions) if (r.second.alive) for (auto &s : r.second.sh) for (auto &c : s.c) { c.pend = 0; if (!c.rbusy && !c.wbusy) { c.mode = CM_NONE; c.who = -1; } }
}
static long rd(Model &m, CellKey k, int w) { u8 b[8] = {0}; for (int i = 0; i < w; i++) { CellKey q = k; q.off += i; b[i] = byte(m, q); } if (w == 4) { int v; memcpy(&v, b, 4); return v; } long v; memcpy(&v, b, 8); return v; }
static void wr(Model &m, CellKey k, int w, long v) { u8 b[8]; if (w == 4) { int x = (int)v; memcpy(b, &x, 4); } else memcpy(b, &v, 8); for (int i = 0; i < w; i++) { CellKey q = k; q.off += i; byte(m, q) = b[i]; } }

bool Model::xfer(const Step &s, int i) {
  const auto &p = s.p; Xfer x; if (!expand(s, x)) return no("malformed");
  int a = s.rank * 4 + s.thr, me = abs_of(s.rank), tgt = (int)p[X_TGT]; if (me < 0 || tgt < 0 || tgt >= (int)members.size()) return no("not a member");
  bool get = p[X_OP] == OP_GET, acc = p[X_OP] == OP_ACC; int md = (int)p[X_MODE]; bool bl = md == MD_BLOCK || md == MD_FLAG; int type = (int)p[X_TYPE];
  if (p[X_SHAPE] == SH_VALUE && acc) return no("no value accumulate"); if (p[X_SHAPE] == SH_VALUE && get && !bl) return no("no nonblocking value get");
  if (p[X_SHAPE] == SH_VALUE && p[X_LKIND] != 0) return no("value has no buffer"); if (md == MD_FLAG && (get || acc || p[X_SHAPE] > SH_STRIDED)) return no("no flag for this");
  if (md == MD_NB) { HandleM &h = handles[{a, (int)p[X_HDL]}]; if (!h.ops.empty() && (!h.agg || !p[X_AGG])) return no("handle in use"); if (h.ops.size() >= 200) return no("too many"); }
  if (x.span == 0 && p[X_LKIND] == 1 && !cell(p[X_LRID], me, p[X_LOFF])) return no("empty transfer at the end of a share");
  if (p[X_SHAPE] == SH_CONTIG && x.span <= 0 && (x.span < 0 || !cell(p[X_RID], tgt, p[X_ROFF]) || !member(p[X_RID], me))) return no("empty transfer needs a valid address");
  if (p[X_SHAPE] == SH_STRIDED) { // documented: strides increase from level to level
    const long *t = p.data() + X_HEAD; int L = (int)t[0], E = L; while (E > 0 && t[1 + E] == 1) E--; const long *ls = t + 2 + L, *rs = ls + L;
    for (int j = 1; j < E; j++) if (ls[j] < ls[j - 1] || rs[j] < rs[j - 1]) return no("strides decrease");
  }
  if (acc) { if (type < 0 || type > 5) return no("type"); for (auto &g : x.segs) if (g.len % tsize[type] || (g.roff - hphase(g.rid, type)) % tsize[type]) return no("misaligned"); }
  bool checks = false; { auto it = P->vars.find("ARMCI_IOV_CHECKS"); checks = it != P->vars.end() && it->second == "1"; it = P->vars.find("ARMCI_IOV_METHOD"); if (it != P->vars.end() && it->second == "CONSRV" && P->rreq_limit == 0 && !strcmp(sim_variant, "mpich")) checks = checks; }
  // several allocations in one vector descriptor need the checks
  if (p[X_SHAPE] == SH_VECTOR && !checks) { const long *t = p.data() + X_HEAD; long q = 1; for (int v = 0; v < t[0]; v++) { long n = t[q + 1]; q += 2; for (long j = 0; j < n; j++) { if (t[q] != t[q - 3 * j]) return no("vector over several allocations without checks"); q += 3; } } }
  if (far_on(P->env)) { // shares spread over gigabytes: every piece lies in one part, and the strides describe the spread pieces
    for (auto &g : x.segs) if (!far_one(P->env, g.roff, g.len) || (p[X_LKIND] == 1 && !far_one(P->env, p[X_LOFF] + g.loff, g.len))) return no("piece across parts");
    if (p[X_SHAPE] == SH_STRIDED) { const long *t = p.data() + X_HEAD; int L = (int)t[0], E = L; while (E > 0 && t[1 + E] == 1) E--;
      for (int side = 0; side < 2; side++) { if (side && p[X_LKIND] != 1) continue; const long *st = t + 2 + L + (side ? 0 : L); long idx[9] = {0}, o0 = side ? p[X_LOFF] : p[X_ROFF], prev = 0;
        for (int j = 0; j < L; j++) { long f = far_stride(P->env, st[j]); if (f > 2147483647L || (j < E && f < prev)) return no("stride across parts"); prev = f; }
        long tot = 1; for (int j = 1; j <= L; j++) tot *= t[1 + j]; for (long k = 0; k < tot; k++) { long l = o0, f = far_off(P->env, o0); for (int j = 0; j < L; j++) { l += idx[j] * st[j]; f += idx[j] * far_stride(P->env, st[j]); } if (far_off(P->env, l) != f) return no("stride across parts"); for (int j = 0; j < L; j++) { if (++idx[j] < t[2 + j]) break; idx[j] = 0; } } } }
  }
  // remote side
  std::set<CellKey> seen; bool self_overlap = false;
  if (acc) { for (auto &g : x.segs) for (long o = 0; o < g.len; o++) { CellKey k{g.rid, tgt, g.roff + o}; if (!can_acc(k, a, bl, type)) return false; if (!seen.insert(k).second) self_overlap = true; } }
  else for (auto &g : x.segs) for (long o = 0; o < g.len; o++) {
    CellKey k{g.rid, tgt, g.roff + o}; if (get ? !can_read(k, a, bl) : !can_write(k, a, bl)) return false;
    if (!get) { if (!seen.insert(k).second) { if (!(P->lc && checks && bl && p[X_SHAPE] == SH_VECTOR)) return no("overlapping put"); } }
  }
  if (self_overlap && !(p[X_SHAPE] == SH_VECTOR)) return no("overlapping accumulate");
  if (self_overlap && !checks) return no("overlapping accumulate without checks");
  if (get && P->lc == 0) {}
  // acc: elements must be uniformly claimed
  if (acc) for (auto &g : x.segs) for (long o = 0; o < g.len; o += tsize[type]) { Cell *c0 = cell(g.rid, tgt, g.roff + o); for (int b = 1; b < tsize[type]; b++) { Cell *c = cell(g.rid, tgt, g.roff + o + b); if (c->mode != c0->mode || c->who != c0->who || c->pend != c0->pend) return no("mixed element"); if (c->unk) return no("unknown element"); } if (c0->unk) return no("unknown element"); }
  // local side
  bool win = p[X_LKIND] == 1; long lr = p[X_LRID], lo = p[X_LOFF]; std::set<CellKey> lset;
  if (win) {
    for (auto &g : x.segs) for (long o = 0; o < g.len; o++) {
      CellKey k{lr, me, lo + g.loff + o}; if (get ? !can_write(k, a, bl) : !can_read(k, a, bl)) return false; if (!get) { Cell *c = cell(lr, me, k.off); if (c->unk) return no("unknown source"); if (P->lc && c->pend) return no("own write not fenced"); }
      if (get) { Cell *c = cell(lr, me, k.off); if (c->pend) return no("own write not fenced"); if (!lset.insert(k).second) return no("overlapping destination"); }
      else lset.insert(k);
    }
    // local and remote side of one operation must not meet
    if (tgt == me) for (auto &g : x.segs) for (long o = 0; o < g.len; o++) if (lset.count(CellKey{g.rid, tgt, g.roff + o})) return no("source and destination meet");
  } else if (get) { std::set<long> d; for (auto &g : x.segs) for (long o = 0; o < g.len; o++) if (!d.insert(g.loff + o).second) return no("overlapping destination"); }
  // flag
  CellKey fk{p[X_FRID], tgt, p[X_FOFF]};
  if (md == MD_FLAG) {
    if (fk.off % 4) return no("flag alignment");
    for (int b = 0; b < 4; b++) { CellKey k = fk; k.off += b; if (!can_write(k, a, true)) return false; Cell *c = cell(k.rid, tgt, k.off); if (c->pend || c->unk) return no("flag not settled"); if (seen.count(k) || lset.count(k)) return no("flag inside the data"); }
    if ((int)rd(*this, fk, 4) == (int)p[X_FVAL]) return no("flag already set"); if (win) return no("flag with window buffer");
  }
  // ---- values
  std::vector<u8> src((size_t)x.span, 0);   // local image of the described data
  if (!get) {
    long pos = 0;
    if (win) for (auto &g : x.segs) for (long o = 0; o < g.len; o++) src[g.loff + o] = byte(*this, CellKey{lr, me, lo + g.loff + o});
    else if (acc) { std::map<long, int> d; for (auto &g : x.segs) { for (long o = 0; o < g.len; o += tsize[type]) acc_value(p[X_UID], type, (g.loff + o), &src[g.loff + o]); pos += g.len; } }
    else for (auto &g : x.segs) { static std::vector<u8> tmp; auto it = regions.find(g.rid); tmp.resize(g.len); gen_data(p[X_UID], it->second.htype, g.roff - hphase(g.rid, it->second.htype), tmp.data(), g.len, pos); for (long o = 0; o < g.len; o++) src[g.loff + o] = tmp[o]; pos += g.len; }
  }
  if (acc) { // try first: values must stay exact
    std::map<CellKey, std::vector<u8>> tmp; int ts = tsize[type];
    for (auto &g : x.segs) for (long o = 0; o < g.len; o += ts) {
      CellKey k{g.rid, tgt, g.roff + o}; auto &v = tmp[k]; if (v.empty()) for (int b = 0; b < ts; b++) v.push_back(byte(*this, CellKey{k.rid, tgt, k.off + b}));
      if (!scaled_add(type, (int)p[X_SCALE], v.data(), &src[g.loff + o])) return no("inexact");
    }
  }
  // ---- apply
  Expect e; e.img = src;
  if (get) {
    e.data.resize(x.span); e.mask.assign(x.span, 0);
    for (auto &g : x.segs) for (long o = 0; o < g.len; o++) { CellKey k{g.rid, tgt, g.roff + o}; e.data[g.loff + o] = byte(*this, k); Cell *c = cell(k.rid, k.mem, k.off); e.mask[g.loff + o] = c->unk ? 2 : 1; do_read(k, a); if (!bl) { c->rbusy++; busy[i].push_back({k, 1}); } }
    if (win) for (auto &g : x.segs) for (long o = 0; o < g.len; o++) { CellKey k{lr, me, lo + g.loff + o}; do_write(k, a, 0); Cell *c = cell(lr, me, k.off); c->unk = e.mask[g.loff + o] == 2; byte(*this, k) = e.data[g.loff + o]; if (!bl) { c->wbusy++; busy[i].push_back({k, 2}); } }
  } else {
    if (win) for (auto &k : lset) { do_read(k, a); if (!bl) { cell(k.rid, k.mem, k.off)->rbusy++; busy[i].push_back({k, 1}); } }
    if (acc) {
      int ts = tsize[type];
      for (auto &g : x.segs) for (long o = 0; o < g.len; o += ts) {
        CellKey k{g.rid, tgt, g.roff + o}; Cell *c = cell(k.rid, tgt, k.off); std::vector<u8> v(ts, 0), cur; for (int b = 0; b < ts; b++) cur.push_back(byte(*this, CellKey{k.rid, tgt, k.off + b}));
        bool shared = c->mode == CM_NONE || c->mode == CM_A;
        if (shared && !ainit.count(k)) ainit[k] = cur;
        scaled_add(type, (int)p[X_SCALE], v.data(), &src[g.loff + o]); scaled_add(type, (int)p[X_SCALE], cur.data(), &src[g.loff + o]);
        for (int b = 0; b < ts; b++) { CellKey kb{k.rid, tgt, k.off + b}; byte(*this, kb) = cur[b]; Cell *cb = cell(kb.rid, tgt, kb.off); if (shared) { cb->mode = CM_A; cb->who = type; } else do_write(kb, a, bl ? 1 : 2); }
        if (shared) accs.push_back({a, k, type, v, i});
      }
    } else for (auto &g : x.segs) for (long o = 0; o < g.len; o++) { CellKey k{g.rid, tgt, g.roff + o}; do_write(k, a, bl ? 1 : 2); byte(*this, k) = src[g.loff + o]; }
  }
  if (md == MD_FLAG) {
    for (auto &g : x.segs) for (long o = 0; o < g.len; o++) { CellKey k{g.rid, tgt, g.roff + o}; e.bytes.push_back({k.rid, tgt, k.off, byte(*this, k)}); cell(k.rid, tgt, k.off)->mode = CM_F; }
    wr(*this, fk, 4, p[X_FVAL]); for (int b = 0; b < 4; b++) { Cell *c = cell(fk.rid, tgt, fk.off + b); c->mode = CM_F; c->who = a; }
    flagsteps[p[X_UID]] = s; flagidx[p[X_UID]] = i;
  }
  if (md == MD_NB) { HandleM &h = handles[{a, (int)p[X_HDL]}]; if (h.ops.empty()) h.agg = p[X_AGG]; h.active = true; h.ops.push_back(i); }
  else if (md == MD_IMPL) implicit[a].push_back(i);
  if (!bl) nbsteps[i] = s;
  if (E) (*E)[i] = e;
  return true;
}

// reduction operators: 0 + 1 * 2 max 3 min 4 absmax 5 absmin 6 or 7 && 8 || 9 & 10 |
template <class T> static T absv(T x) { return x > 0 ? x : (T)-x; }
template <class T> static bool fold(int op, T &a, T b) {
  switch (op) { case 2: a = std::max(a, b); return true; case 3: a = std::min(a, b); return true; case 4: a = std::max(absv(a), absv(b)); return true; case 5: a = std::min(absv(a), absv(b)); return true; case 7: a = (a && b); return true; case 8: a = (a || b); return true; } return false;
}
template <class T> static bool foldi(int op, T &a, T b) { typedef std::make_unsigned_t<T> U; switch (op) { case 0: a = (T)((U)a + (U)b); return true; case 1: a = (T)((U)a * (U)b); return true; case 6: case 10: a |= b; return true; case 9: a &= b; return true; } return fold(op, a, b); }
template <class T> static bool foldf(int op, T &a, T b) { switch (op) { case 0: a += b; return true; case 1: a *= b; return true; case 7: case 8: case 6: case 9: case 10: return false; } return fold(op, a, b); }
static bool fold_at(int op, int type, u8 *a, const u8 *b) {
#define F(T, fn) { T x, y; memcpy(&x, a, sizeof x); memcpy(&y, b, sizeof y); if (!fn(op, x, y)) return false; memcpy(a, &x, sizeof x); return true; }
  switch (type) { case 0: F(int, foldi) case 1: F(long, foldi) case 2: F(long long, foldi) case 3: F(float, foldf) case 4: F(double, foldf) } return false;
}
static void gop_value(long uid, int r, int type, int op, long i, u8 *o) {
  u64 h = h2(uid * 64 + r, i); long v;
  if (op == 1) v = (long)(h % 5) - 2; else if (op == 7 || op == 8) v = (h % 3) != 0; else if (type <= 2 && h % 4 == 0) v = type == 0 ? (long)(int)(h >> 33) - (1 << 30) : (long)(h >> 3) - (1L << 60); else v = (long)((h >> 8) % 2001) - 1000;
  if ((op == 4 || op == 5 || op == 2 || op == 3) && v == 0) v = 5;
  switch (type) { case 0: { int x = (int)v; memcpy(o, &x, 4); break; } case 1: case 2: memcpy(o, &v, 8); break; case 3: { float x = (float)(v % 100000); memcpy(o, &x, 4); break; } case 4: { double x = (double)(v % 1000000); memcpy(o, &x, 8); break; } }
}
static long key_of(int type, const u8 *b) { switch (type) { case 0: { int x; memcpy(&x, b, 4); return x; } case 1: case 2: { long x; memcpy(&x, b, 8); return x; } case 3: { float x; memcpy(&x, b, 4); return (long)x; } default: { double x; memcpy(&x, b, 8); return (long)x; } } }

bool Model::admit(const Step &s, int i) {
  const auto &p = s.p; int np = (int)members.size(); why.clear(); idx = i;
  auto need = [&](size_t n) { return p.size() >= n; };
  if (stopped) { if (fatal && (s.k == S_BARRIER || s.k == S_MSGBAR || s.k == S_IDLE || s.k == S_PROGRESS)) return true; return no("after the stop"); }   // where the others are
  if (s.k == S_INIT) {
    if (live || !need(3) || (long)p.size() != 3 + p[2] || p[2] < 1) return no("cannot initialise"); std::set<long> u(p.begin() + 3, p.end()); if ((long)u.size() != p[2] || *u.begin() < 0 || *u.rbegin() >= P->env.nranks) return no("members");
    if (p[0] <= 2 && p[2] != P->env.nranks) return no("needs all"); if (p[0] <= 2) for (long j = 0; j < p[2]; j++) if (p[3 + j] != j) return no("order");
    live = true; nested = (int)p[1]; members.clear(); for (long j = 0; j < p[2]; j++) members.push_back((int)p[3 + j]);
    groups.clear(); regions.clear(); mutexes.clear(); handles.clear(); implicit.clear(); deflt = 0; freedrids.clear(); deadregions.clear();
    GroupM g; for (int j = 0; j < (int)members.size(); j++) g.mem.push_back(j); groups[0] = g; return true;
  }
  if (!live) return no("not initialised");
  if (s.rank >= 0 && abs_of(s.rank) < 0) return no("not a member");
  int a = s.rank * 4 + s.thr, me = s.rank >= 0 ? abs_of(s.rank) : -1; Expect e;
  auto put_e = [&] { if (E) (*E)[i] = e; };
  // claims on collective buffers in the callers' own shares
  auto share_ok = [&](long lk, long rid, long off, long n, const std::vector<int> &who, bool write) { if (lk == 2) return true; if (lk != 1) return true; if (!far_one(P->env, off, n)) return no("piece across parts"); for (int m : who) for (long o = 0; o < n; o++) { CellKey k{rid, m, off + o}; int ag = members[m] * 4; if (!(write ? can_write(k, ag, true) : can_read(k, ag, true))) return false; if (cell(rid, m, off + o)->pend) return no("own write not fenced"); if (!write && cell(rid, m, off + o)->unk) return no("unknown"); } return true; };
  auto share_write = [&](long lk, long rid, long off, int m, const std::vector<u8> &v) { if (lk != 1) return; for (size_t o = 0; o < v.size(); o++) { CellKey k{rid, m, off + (long)o}; do_write(k, members[m] * 4, 0); byte(*this, k) = v[o]; } };
  switch (s.k) {
    case S_FINI: {
      if (outstanding()) return no("operations outstanding"); for (auto &g : groups) if (g.first && g.second.alive) { bool used = false; for (auto &r : regions) if (r.second.alive && r.second.gid == g.first) used = true; if (!used) return no("groups live"); e.has_val = true; } for (auto &m : mutexes) if (m.second.alive) return no("mutexes live");
      if (deflt) return no("default group changed");
      live = false; snapshot(e); close_phase(e, i); e.snap.reset(); put_e(); regions.clear(); groups.clear(); members.clear(); return true; }
    case S_MALLOC: {
      if (!need(4)) return no("malformed"); auto g = groups.find(p[1]); if (g == groups.end() || !g->second.alive || (long)p.size() != 4 + (long)g->second.mem.size() || regions.count(p[0]) || deadregions.count(p[0])) return no("cannot allocate");
      if (p[2] == 0 && p[1] != 0) return no("group"); RegionM r; r.gid = p[1]; r.htype = (int)p[3]; r.api = (int)p[2]; r.sh.resize(np);
      for (size_t j = 0; j < g->second.mem.size(); j++) { long n = p[4 + j]; if (n < 0 || n > 600000) return no("size"); Share &h = r.sh[g->second.mem[j]]; h.b.assign(n, (u8)P->env.fill); Cell u; u.unk = 1; h.c.assign(n, u); }
      regions[p[0]] = r; return true; }
    case S_FREE: {
      if (!need(1)) return no("malformed"); auto r = regions.find(p[0]); if (r == regions.end() || !r->second.alive) return no("no region"); if (!groups[r->second.gid].alive) return no("group gone");
      for (auto &sh : r->second.sh) for (auto &c : sh.c) if (c.rbusy || c.wbusy || c.mode == CM_L || c.pend == 2) return no("in use");
      for (auto it = vc.begin(); it != vc.end();) if (it->first.rid == p[0]) return no("in use"); else ++it;
      for (auto &x : flagsteps) if (x.second.p[X_RID] == p[0] || x.second.p[X_FRID] == p[0]) return no("in use");
      // accumulates into a region that goes away: nothing left to check
      for (size_t j = 0; j < accs.size();) if (accs[j].k.rid == p[0]) return no("in use"); else j++;
      for (auto &x : pendcells) { std::vector<CellKey> k; for (auto &c : x.second) if (c.rid != p[0]) k.push_back(c); x.second = k; }
      deadregions[p[0]] = r->second; regions.erase(r); return true; }
    case S_XFER: return xfer(s, i);
    case S_WAIT: case S_TEST: {
      if (!need(1)) return no("malformed"); HandleM &h = handles[{a, (int)p[0]}]; if (!h.active && h.ops.empty() && s.k == S_WAIT && !need(2)) return no("idle handle");
      e.covers = h.ops; for (int o : h.ops) complete(o); h.ops.clear(); h.active = false; put_e(); return true; }
    case S_WAITPROC: case S_WAITALL: {
      if (s.k == S_WAITPROC && (!need(1) || p[0] < 0 || p[0] >= np)) return no("target"); auto &v = implicit[a]; std::vector<int> keep;
      for (int o : v) if (s.k == S_WAITALL || nbsteps[o].p[X_TGT] == p[0]) { e.covers.push_back(o); complete(o); } else keep.push_back(o);
      v = keep; put_e(); return true; }
    case S_FENCE: if (!need(1) || p[0] < 0 || p[0] >= np) return no("target"); fence(a, (int)p[0], e, i); put_e(); return true;
    case S_ALLFENCE: fence(a, -1, e, i); put_e(); return true;
    case S_BARRIER: snapshot(e); { Expect e2; close_phase(e2, i); e.vcells = e2.vcells; } // masks of volatile cells are taken after they are known
      { auto keep = e.vcells; snapshot(e); e.vcells = keep; } put_e(); return true;
    case S_MSGBAR: return true;
    case S_GBAR: { auto g = groups.find(need(1) ? p[0] : -1); return g != groups.end() && g->second.alive ? true : no("group"); }
    case S_LSTORE: case S_LLOAD: {
      if (!need(4)) return no("malformed"); bool st = s.k == S_LSTORE; for (long o = 0; o < p[2]; o++) { CellKey k{p[0], me, p[1] + o}; if (!(st ? can_write(k, a, true) : can_read(k, a, true))) return false; if (cell(p[0], me, p[1] + o)->pend) return no("own write not fenced"); }
      if (p[2] <= 0 || p[2] > 600000) return no("length"); std::vector<u8> d(p[2]);
      if (st) { gen_data(p[3], regions[p[0]].htype, p[1] - hphase(p[0], regions[p[0]].htype), d.data(), p[2], 0); for (long o = 0; o < p[2]; o++) { CellKey k{p[0], me, p[1] + o}; do_write(k, a, 0); byte(*this, k) = d[o]; } e.data = d; }
      else { e.mask.assign(p[2], 1); for (long o = 0; o < p[2]; o++) { CellKey k{p[0], me, p[1] + o}; do_read(k, a); d[o] = byte(*this, k); if (cell(p[0], me, p[1] + o)->unk) e.mask[o] = 0; } e.data = d; }
      put_e(); return true; }
    case S_RMW: {
      if (!need(6) || p[0] < 0 || p[0] > 3) return no("malformed"); int w = (p[0] & 1) ? 8 : 4; CellKey k{p[1], (int)p[2], p[3]}; if (k.off % w || k.mem < 0 || k.mem >= np) return no("alignment"); bool swap = p[0] >= 2; if (!member(k.rid, me)) return no("not part of the allocation's group");
      for (int b = 0; b < w; b++) { Cell *c = cell(k.rid, k.mem, k.off + b); if (!c) return no("no such byte"); if (c->mode == CM_V) continue; if (c->mode != CM_NONE && !(c->mode == CM_W && c->who == a && (c->pend == 0 || (P->lc && c->pend == 1)))) return no("byte in use"); if (c->rbusy || c->wbusy) return no("busy"); }
      { Cell *c = cell(k.rid, k.mem, k.off); auto it = vc.find(k); if (c->mode == CM_V ? it == vc.end() : it != vc.end()) return no("overlapping counter"); if (it != vc.end() && it->second.width != w) return no("overlapping counter"); for (int b = 1; b < w; b++) if (cell(k.rid, k.mem, k.off + b)->mode != c->mode) return no("overlapping counter");
        if (c->mode == CM_W) return no("written in this phase"); }
      VCell &v = vc[k]; if (v.steps.empty()) { v.width = w; v.init = rd(*this, k, w); for (int b = 0; b < w; b++) if (cell(k.rid, k.mem, k.off + b)->unk) v.unk_init = true; }
      if (v.steps.size() >= 14) return no("enough on one counter");
      long old = rd(*this, k, w); v.steps.push_back(i); v.agents.insert(a); if (swap) v.addsonly = false; else if (p[4] <= 0 || p[4] > 100000) v.positive = false;
      wr(*this, k, w, swap ? p[4] : (w == 4 ? (long)(int)((unsigned)old + (unsigned)p[4]) : (long)((unsigned long)old + (unsigned long)p[4])));
      bool part = false; for (int b = 0; b < w; b++) part |= cell(k.rid, k.mem, k.off + b)->unk != 0;   // adding to a number some bytes of which are unknown: carries reach the others
      for (int b = 0; b < w; b++) { Cell *c = cell(k.rid, k.mem, k.off + b); c->mode = CM_V; c->who = a; if (swap && v.agents.size() == 1) c->unk = 0; else if (part) c->unk = 1; }
      put_e(); return true; }
    case S_MXCREATE: {
      if (!need(2)) return no("malformed"); auto g = groups.find(p[1]); if (g == groups.end() || !g->second.alive || p.size() != 2 + g->second.mem.size() || (mutexes.count(p[0]) && mutexes[p[0]].alive)) return no("cannot create"); if (p[0] == 0 && p[1] != 0) return no("world set");
      MutexM m; m.gid = p[1]; long mx = 0; for (size_t j = 2; j < p.size(); j++) { if (p[j] < 0 || p[j] > 70) return no("count"); m.counts.push_back((int)p[j]); mx = std::max(mx, p[j]); } if (!mx) return no("none"); mutexes[p[0]] = m; return true; }
    case S_MXDESTROY: { auto m = mutexes.find(need(1) ? p[0] : -1); if (m == mutexes.end() || !m->second.alive) return no("no mutexes"); m->second.alive = false; return true; }
    case S_CS: {
      if (!need(6) || (long)p.size() != 6 + 4 * p[3]) return no("malformed"); auto m = mutexes.find(p[0]); if (m == mutexes.end() || !m->second.alive) return no("no mutexes"); GroupM &g = groups[m->second.gid]; int gr = -1, gh = -1; for (size_t j = 0; j < g.mem.size(); j++) { if (g.mem[j] == me) gr = (int)j; if (g.mem[j] == p[2]) gh = (int)j; } if (gr < 0 || gh < 0 || p[1] < 0 || p[1] >= m->second.counts[gh]) return no("no such mutex");
      if (p[5] >= 100) { long in = p[5] / 100 - 1, h2 = in / 100, q2 = in % 100; int g2 = -1; for (size_t j = 0; j < g.mem.size(); j++) if (g.mem[j] == h2) g2 = (int)j; if (g2 < 0 || q2 >= m->second.counts[g2] || h2 < p[2] || (h2 == p[2] && q2 <= p[1])) return no("no such inner mutex"); }   // nested in ascending order
      long mkey = 1000 + p[0] * 1000 + p[2] * 100 + p[1];
      for (long j = 0; j < p[3]; j++) { const long *q = &p[6 + 4 * j]; if (!member(q[0], me)) return no("not part of the allocation's group"); if (q[2] % 4 || q[1] < 0 || q[1] >= np) return no("alignment"); for (int b = 0; b < 4; b++) { Cell *c = cell(q[0], (int)q[1], q[2] + b); if (!c || c->rbusy || c->wbusy || c->unk) return no("busy"); if (c->mode != CM_NONE && !(c->mode == CM_L && c->who == mkey % 32000)) return no("in use"); } for (long l = 0; l < j; l++) if (p[6 + 4 * l] == q[0] && p[6 + 4 * l + 1] == q[1] && labs(p[6 + 4 * l + 2] - q[2]) < 4) return no("twice"); if (cell(q[0], (int)q[1], q[2])->mode == CM_L) for (int b = 1; b < 4; b++) if (cell(q[0], (int)q[1], q[2] + b)->mode != CM_L) return no("overlap"); }
      for (long j = 0; j < p[3]; j++) { const long *q = &p[6 + 4 * j]; CellKey k{q[0], (int)q[1], q[2]}; wr(*this, k, 4, (int)((unsigned)rd(*this, k, 4) + (unsigned)q[3])); for (int b = 0; b < 4; b++) { Cell *c = cell(q[0], (int)q[1], q[2] + b); c->mode = CM_L; c->who = mkey % 32000; } }
      put_e(); return true; }
    case S_GCREATE: {
      if (!need(4)) return no("malformed"); auto g = groups.find(p[2]); if (g == groups.end() || !g->second.alive) return no("no parent"); auto par = g->second.mem; int n = (int)par.size(); bool noncoll = false; { auto it = P->vars.find("ARMCI_NONCOLLECTIVE_GROUPS"); noncoll = it != P->vars.end() && it->second == "1"; }
      if (p[1] == 0 && p[2] != deflt) return no("default group");
      if (p[1] <= 1) { long c = p[3]; if (c < 1 || c > n || (long)p.size() != 4 + c || groups.count(p[0])) return no("list"); GroupM q; std::set<long> u; for (long j = 0; j < c; j++) { long r = p[4 + j]; if (r < 0 || r >= n || !u.insert(r).second) return no("list"); q.mem.push_back(par[r]); } q.coll = !noncoll; q.parent = par; groups[p[0]] = q; return true; }
      if (p[1] == 2) { if ((long)p.size() != 4 + 2 * n) return no("list"); for (int c = 0; c < 3; c++) if (groups.count(p[0] + c)) return no("id"); for (int c = 0; c < 3; c++) { std::vector<std::pair<long, int>> v; for (int j = 0; j < n; j++) if (p[4 + j] == c) v.push_back({p[4 + n + j], j}); if (v.empty()) continue; std::sort(v.begin(), v.end()); GroupM q; for (auto &x : v) q.mem.push_back(par[x.second]); q.parent = q.mem; groups[p[0] + c] = q; } for (int j = 0; j < n; j++) if (p[4 + j] < -1 || p[4 + j] > 2) { return no("colour"); } return true; }
      if (p[1] == 3) { if (groups.count(p[0])) return no("id"); GroupM q; q.mem = par; q.parent = par; groups[p[0]] = q; return true; }
      return no("how"); }
    case S_GFREE: { auto g = groups.find(need(1) ? p[0] : -1); if (g == groups.end() || p[0] == 0 || !g->second.alive || deflt == p[0]) return no("no group"); for (auto &r : regions) if (r.second.alive && r.second.gid == p[0]) return no("allocation lives"); for (auto &m : mutexes) if (m.second.alive && m.second.gid == p[0]) return no("mutexes live"); g->second.alive = false; return true; }
    case S_SETDEF: { auto g = groups.find(need(1) ? p[0] : -1); if (g == groups.end() || !g->second.alive) return no("no group"); if (p[0] != 0 && deflt != 0) return no("nested"); deflt = p[0]; return true; }
    case S_GOP: { // gid scope op type n lkind lrid loff api uid
      if (!need(10)) return no("malformed"); auto g = groups.find(p[0]); if (g == groups.end() || !g->second.alive || p[4] < 1 || p[4] > 8000) return no("group"); auto &mem = g->second.mem; int sz = gsize[p[3]];
      if (p[5] == 1 && p[7] % sz) return no("alignment"); if (!share_ok(p[5], p[6], p[7], p[4] * sz, mem, true)) return false;
      e.parts.clear(); for (size_t j = 0; j < mem.size(); j++) { std::vector<u8> v(p[4] * sz); for (long q = 0; q < p[4]; q++) gop_value(p[9], (int)j, (int)p[3], (int)p[2], q, &v[q * sz]); e.parts.push_back(v); }
      for (size_t j = 0; j < mem.size(); j++) { std::vector<u8> v = p[1] == 1 ? e.parts[j] : e.parts[0]; for (long q = 0; q < p[4]; q++) { if ((p[1] == 1 || mem.size() == 1)) { if (p[2] == 4 || p[2] == 5) fold_at((int)p[2], (int)p[3], &v[q * sz], &v[q * sz]); else { std::vector<u8> t(v.begin() + q * sz, v.begin() + (q + 1) * sz); if (!fold_at((int)p[2], (int)p[3], t.data(), t.data())) return no("operation not defined"); } } else for (size_t r = 1; r < mem.size(); r++) if (!fold_at((int)p[2], (int)p[3], &v[q * sz], &e.parts[r][q * sz])) return no("operation not defined"); } e.outs.push_back(v); }
      e.who = mem; for (size_t j = 0; j < mem.size(); j++) share_write(p[5], p[6], p[7], mem[j], e.outs[j]); put_e(); return true; }
    case S_SEL: { // scope op type n contribmask lkind lrid loff uid
      if (!need(9) || p[2] < 0 || p[2] > 4 || p[3] < gsize[p[2]] || p[3] > 30000) return no("malformed"); auto &mem = groups[0].mem; long mask = p[4]; int n = (int)mem.size(); if (!(mask & ((1 << n) - 1))) return no("nobody contributes"); if (p[0] == 1 && (mask & ((1 << n) - 1)) != (1 << n) - 1) return no("nobody contributes");
      if (!share_ok(p[5], p[6], p[7], p[3], mem, true)) return false; if (p[5] == 1 && p[7] % 8) return no("alignment"); if (p[5] == 1) { }
      for (int j = 0; j < n; j++) { std::vector<u8> v(p[3]); for (long q = 0; q < p[3]; q++) v[q] = data_byte(p[8] * 64 + j, q); gop_value(p[8], j, (int)p[2], 2, 0, v.data()); e.parts.push_back(v); }
      for (int j = 0; j < n; j++) for (int q = 0; q < j; q++) if (key_of((int)p[2], e.parts[j].data()) == key_of((int)p[2], e.parts[q].data())) return no("tie");
      for (int j = 0; j < n; j++) { if (p[0] == 1) { e.outs.push_back(e.parts[j]); continue; } int best = -1; for (int q = 0; q < n; q++) if (mask >> q & 1) { if (best < 0) best = q; else { long x = key_of((int)p[2], e.parts[q].data()), y = key_of((int)p[2], e.parts[best].data()); if (p[1] == 0 ? x < y : x > y) best = q; } } e.outs.push_back(e.parts[best]); }
      e.who = mem; for (int j = 0; j < n; j++) share_write(p[5], p[6], p[7], mem[j], e.outs[j]); put_e(); return true; }
    case S_BCAST: { // api gid root len lkind lrid loff uid scope
      if (!need(9)) return no("malformed"); auto g = groups.find(p[1]); if (g == groups.end() || !g->second.alive || p[3] < 1 || p[3] > 60000) return no("group"); if (p[0] <= 2 && p[1] != 0) return no("group"); auto &mem = g->second.mem; if (std::find(mem.begin(), mem.end(), (int)p[2]) == mem.end()) return no("root");
      if (p[8] == 1 && p[0] < 2) return no("scope"); if (!share_ok(p[4], p[5], p[6], p[3], mem, true)) return false;
      for (size_t j = 0; j < mem.size(); j++) { std::vector<u8> v(p[3]); for (long q = 0; q < p[3]; q++) v[q] = data_byte(p[7] * 64 + mem[j], q); e.parts.push_back(v); }
      for (size_t j = 0; j < mem.size(); j++) { size_t r = 0; while (mem[r] != p[2]) r++; e.outs.push_back(p[8] == 1 ? e.parts[j] : e.parts[r]); }
      e.who = mem; for (size_t j = 0; j < mem.size(); j++) share_write(p[4], p[5], p[6], mem[j], e.outs[j]); put_e(); return true; }
    case S_MSG: { // from to tag len buflen lkS ridS offS lkR ridR offR uid     (absolute ids)
      if (!need(12) || p[0] == p[1] || p[0] < 0 || p[1] < 0 || p[0] >= np || p[1] >= np || p[3] < 0 || p[3] > p[4] || p[4] > 60000) return no("malformed"); if (fanins.count({p[1], p[2]})) return no("tag in use");
      if (!share_ok(p[5], p[6], p[7], p[3], {(int)p[0]}, false)) return false; if (!share_ok(p[8], p[9], p[10], p[4], {(int)p[1]}, true)) return false;
      std::vector<u8> v(p[3]); for (long q = 0; q < p[3]; q++) v[q] = p[5] == 1 ? byte(*this, CellKey{p[6], (int)p[0], p[7] + q}) : data_byte(p[11], q);
      if (p[5] == 1) for (long q = 0; q < p[3]; q++) do_read(CellKey{p[6], (int)p[0], p[7] + q}, members[p[0]] * 4);
      e.data = v; if (p[8] == 1) for (long q = 0; q < p[4]; q++) { CellKey k{p[9], (int)p[1], p[10] + q}; u8 old = byte(*this, k), unk = cell(k.rid, k.mem, k.off)->unk; e.img.push_back(old); do_write(k, members[p[1]] * 4, 0); if (q < p[3]) byte(*this, k) = v[q]; else cell(k.rid, k.mem, k.off)->unk = unk; }
      put_e(); return true; }
    case S_FANIN: { // to tag nmsg maxlen uid lk rid off senders...   (absolute ids)
      if (!need(9) || p[0] < 0 || p[0] >= np || p[2] < 1 || p[2] > 6 || p[3] < 4 || p[3] > 20000) return no("malformed"); std::set<long> u(p.begin() + 8, p.end()); if (u.size() != p.size() - 8 || u.count(p[0]) || *u.begin() < 0 || *u.rbegin() >= np) return no("senders"); if (!share_ok(p[5], p[6], p[7], p[3], {(int)p[0]}, true)) return false; if (!fanins.insert({p[0], p[1]}).second) return no("tag in use");
      if (p[5] == 1) for (long q = 0; q < p[3]; q++) { CellKey k{p[6], (int)p[0], p[7] + q}; do_write(k, members[p[0]] * 4, 0); cell(k.rid, k.mem, k.off)->unk = 1; }
      put_e(); return true; }
    case S_POLL: { auto f = flagsteps.find(need(1) ? p[0] : -1); if (f == flagsteps.end() || f->second.p[X_TGT] != me || f->second.rank == s.rank) return no("no flag"); e.bytes = E ? (*E)[flagidx[p[0]]].bytes : std::vector<ByteChk>(); put_e(); return true; }
    case S_PROGRESS: case S_IDLE: return true;
    case S_MLOCAL: return need(1) && p[0] > 0 && p[0] < 5000 ? true : no("size");
    case S_TREE: return need(3) && p[0] >= 0 && p[0] <= 2 && p[1] > 30000 && p[1] < 32760 ? true : no("malformed");   // scope tag uid
    case S_FATAL: if (!need(3) || p[0] < 0 || p[0] > 1 || p[1] < 1 || p[1] > 255) return no("malformed"); if (!P->expect_stop) return no("not wanted"); stopped = fatal = true; return true;   // how code message
    case S_BAD: { // what rid tgt off len shape uid   the access must be refused
      if (!need(7)) return no("malformed"); if (p[2] < 0 || p[2] >= np) return no("target"); if (!P->expect_stop) return no("not wanted"); if (outstanding()) return no("outstanding"); long len = p[4]; if (len < 1 || len > 4096) return no("length");
      auto r = regions.find(p[1]); auto d = deadregions.find(p[1]);
      switch (p[0]) {
        case 0: { if (r == regions.end()) return no("region"); long n = (long)r->second.sh[p[2]].b.size(); if (n <= 0 || p[3] < 0 || p[3] >= n || p[3] + len <= n) return no("inside"); break; }      // starts inside, ends outside
        case 1: if (d == deadregions.end() || (long)d->second.sh[p[2]].b.size() < p[3] + len || p[3] < 0) return no("region"); break;                                                       // released
        case 2: break;                                                                                                                                                                  // private memory
        case 3: { if (r == regions.end()) return no("region"); long n = (long)r->second.sh[p[2]].b.size(); if (n <= 0 || p[3] < 0) return no("empty"); break; }                                  // right behind the end
        case 4: { if (r == regions.end()) return no("region"); if (!r->second.sh[p[2]].b.empty()) return no("not empty"); break; }                                                            // share of size zero (address of another's share)
        default: return no("kind"); }
      stopped = true; put_e(); return true; }
  }
  return no("unknown step");
}
}
