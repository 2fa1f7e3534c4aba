// Seeded generator: proposes steps and keeps those the reference model admits.
#include "prog.h"
#include "exec.h"
namespace sim {
enum Act1 { A_PUT, A_GET, A_ACC, A_RMW, A_CS, A_LSTORE, A_LLOAD, A_FENCE, A_ALLFENCE, A_COMPLETE, A_WAITPROC, A_WAITALL, A_IDLE, A_PROGRESS, A_MLOCAL, A_FLAG, A_POLL, A_GBAR, A_GOP, A_SEL, A_BCAST, A_MSG, A_FANIN, A_MSGBAR, A_BARRIER, A_MALLOC, A_FREE, A_GCREATE, A_GFREE, A_SETDEF, A_EMPTYWAIT, A_TREE, A_N };
struct Prof {
  int w[A_N] = {0}; int nb = 30, impl = 25, lwin = 8, lmal = 8, shape[4] = {40, 25, 25, 10}, hot = 30, slice = 30, test = 30, agg = 40, maxn = 6;
  int phases_lo = 1, phases_hi = 4, ops_lo = 5, ops_hi = 26, groups = 20, mutexes = 0, htyped = 50, threads = 1, sessions = 1; int zero = 15; bool bigvec = false, gfree_early = true; int regions_lo = 1, regions_hi = 3; long rsize_hi = 384; int leave_out = 10; int empty = 6;
  // scale: some runs go far beyond the usual sizes in one direction
  int cshot = 60, nestcs = 12; int big = 0, huge = 0, deep = 0, handles = 4, mxhi = 3, regcap = 6, grpcap = 7;
};
struct Gen {
  Program &P; Rng r; Model m; Prof f; std::string prof, variant; long uid = 10, rid = 1, gid = 1, mid = 1; int idx = 0; bool lc = false, sep = false;
  std::map<std::pair<int, int>, bool> open; std::vector<long> flags;
  Gen(Program &p, u64 s) : P(p), r(s) {}
  bool push(Step s) { if (!m.admit(s, idx)) return false; P.steps.push_back(s); idx++; return true; }
  bool pct(int p) { return r.below(100) < (u32)p; }
  template <class T> T pick(const std::vector<T> &v) { return v[r.below((u32)v.size())]; }
  std::vector<long> live_regions(int me = -1) { std::vector<long> v; for (auto &x : m.regions) if (x.second.alive) { if (me >= 0 && x.second.sh[me].b.empty()) continue; v.push_back(x.first); } return v; }
  std::vector<long> live_groups() { std::vector<long> v; for (auto &g : m.groups) if (g.second.alive) v.push_back(g.first); return v; }
  int np() { return (int)m.members.size(); }
  // offset of a piece of n bytes in a share of z bytes
  long off(long z, long n, long al, int agent) {
    if (n > z) return -1; long lo = 0, hi = z - n; int k = r.below(100);
    if (k < f.hot) hi = std::min(hi, 24L); else if (k < f.hot + f.slice) { int na = np() * P.nthreads; int me = (agent / 4) * P.nthreads + agent % 4; lo = z * me / na; hi = std::min(hi, std::max(lo, z * (me + 1) / na - n)); if (lo > hi) lo = hi; }
    long o = lo + (long)r.below((u32)(hi - lo + 1)); o = o / al * al; return o + n <= z ? o : -1;
  }
  bool xfer(int rank, int thr, int op, bool flag) {
    Step s; s.k = S_XFER; s.rank = rank; s.thr = thr; s.p.assign(X_HEAD, 0); auto &p = s.p; int me = m.abs_of(rank), a = rank * 4 + thr;
    p[X_OP] = op; p[X_UID] = uid++; p[X_TYPE] = -1; p[X_FRID] = -1;
    int k = r.below(f.shape[0] + f.shape[1] + f.shape[2] + f.shape[3]), sh = 0; while (k >= f.shape[sh]) k -= f.shape[sh++]; p[X_SHAPE] = sh;
    if (sh == SH_VALUE && op == OP_ACC) p[X_SHAPE] = sh = SH_CONTIG; if (flag && sh > 1) p[X_SHAPE] = sh = SH_CONTIG;
    int md = MD_BLOCK; if (pct(f.nb)) md = MD_NB; else if (pct(f.impl)) md = MD_IMPL; if (sh == SH_VALUE && op == OP_GET) md = MD_BLOCK; if (flag) md = MD_FLAG; p[X_MODE] = md;
    // target
    int tgt = (int)r.below(np()); if (np() > 1 && tgt == me && pct(sep ? 30 : 70)) tgt = (me + 1 + (int)r.below(np() - 1)) % np(); p[X_TGT] = tgt;
    std::vector<long> rs = live_regions(tgt); if (op == OP_ACC) { std::vector<long> t; for (long x : rs) if (m.regions[x].htype >= 0) t.push_back(x); rs = t; } if (rs.empty()) return false;
    long rid_ = pick(rs); RegionM &R = m.regions[rid_]; long z = (long)R.sh[tgt].b.size(); p[X_RID] = rid_;
    long el = 1; if (op == OP_ACC) { p[X_TYPE] = R.htype; el = tsize[R.htype]; p[X_SCALE] = pct(40) ? 0 : pct(30) ? 12 + (int)r.below(18) : (int)r.below(R.htype >= 4 ? 12 : 6); } else if (R.htype >= 0 && pct(75)) el = tsize[R.htype]; else if (pct(30)) el = 4;
    if (md == MD_NB) { p[X_HDL] = (int)r.below(f.handles); bool agg = pct(f.agg); auto it = m.handles.find({a, (int)p[X_HDL]}); if (it != m.handles.end() && !it->second.ops.empty()) agg = it->second.agg; p[X_AGG] = agg; }
    int kb = r.below(100); p[X_LKIND] = kb < f.lwin ? 1 : kb < f.lwin + f.lmal ? 2 : 0; if (sh == SH_VALUE) p[X_LKIND] = 0;
    long span = 0; long al = std::max(el, 1L), ph = R.htype >= 0 && el == tsize[R.htype] ? hphase(rid_, R.htype) : 0, hel = op == OP_ACC && R.htype >= 4 && pct(30) ? el / 2 : el;
    auto offp = [&](long zz, long n, long p_) { if (!p_) return off(zz, n, al, a); if (zz - p_ < n) return -1L; long o = off(zz - p_, n, al, a); return o < 0 ? o : o + p_; };
    switch (sh) {
      case SH_CONTIG: { long n = f.big && pct(f.huge ? 20 : 60) ? el * r.range(1, (int)(z / el) + 1) : el * r.range(1, f.maxn * (pct(10) ? 4 : 1)); if (n > z) n = z / el * el; if (n <= 0) return false; long o = offp(z, n, ph); if (o < 0) return false; if (pct(2) && !flag) n = 0; p[X_ROFF] = o; p.push_back(n); span = n; break; }
      case SH_VALUE: { int vt = (int)r.below(4); long o = off(z, vsize[vt], pct(60) ? vsize[vt] : 1, a); if (o < 0) return false; p[X_ROFF] = o; p.push_back(vt); break; }
      case SH_STRIDED: {
        int L = pct(15) ? 0 : pct(70) ? r.range(1, 2) : r.range(1, 4); std::vector<long> c, ls, rs2; if (f.deep && pct(60)) L = r.range(3, 7); c.push_back(el * r.range(1, f.big && pct(50) ? 400 : 4)); long le = c[0], re = c[0];
        bool nested = pct(70);   // strides are multiples of the inner strides, as array sections are
        for (int i = 0; i < L; i++) {
          long cnt = r.range(1, 3); if (i == 0 && pct(20)) cnt = r.range(3, 6); if (f.deep && pct(50)) cnt = r.range(1, 2); if (f.big && i == 0 && pct(40)) cnt = r.range(6, 60);
          auto st = [&](long ext, long prev, long el) { long v = ext + (pct(40) ? 0 : f.huge && pct(60) ? el * r.range(0, (int)(z / el / (cnt + 1))) : el * r.range(0, 4)); if (nested && i > 0 && prev > 0) v = (v + prev - 1) / prev * prev; if (P.env.far && (i == L - 1 ? pct(55) : pct(10))) v = (v + P.env.far_c - 1) / P.env.far_c * P.env.far_c; return std::max(v, prev); };
          long a1 = st(le, i ? ls[i - 1] : 0, hel), b1 = st(re, i ? rs2[i - 1] : 0, el); ls.push_back(a1); rs2.push_back(b1); c.push_back(cnt); le = a1 * (cnt - 1) + le; re = b1 * (cnt - 1) + re;
        }
        if (re > z) return false; long o = offp(z, re, ph); if (o < 0) return false; p[X_ROFF] = o; p.push_back(L); for (long v : c) p.push_back(v); for (long v : ls) p.push_back(v); for (long v : rs2) p.push_back(v); span = le; break; }
      case SH_VECTOR: {
        int niov = pct(f.empty) ? 0 : f.deep && pct(50) ? r.range(3, 12) : r.range(1, 3); p.push_back(niov); long l = 0; bool checks = P.vars.count("ARMCI_IOV_CHECKS") && P.vars["ARMCI_IOV_CHECKS"] == "1";
        bool lcover = (lc && checks && pct(40)) || (op == OP_ACC && checks && pct(35)); int lperm = pct(25) ? r.range(1, 2) : 0;
        std::set<long> used;
        for (int v = 0; v < niov; v++) {
          long b = el * r.range(1, f.big && pct(40) ? 150 : 4); int n = pct(f.empty) ? 0 : f.big && pct(50) ? r.range(4, 150) : f.bigvec ? r.range(1, pct(30) ? 130 : 60) : r.range(1, pct(15) ? 9 : 4); if (f.bigvec) b = el; if (pct(f.empty) && !f.bigvec) b = 0; size_t at = p.size(); p.push_back(b); p.push_back(n); long cnt = 0; bool seq = pct(35); long so = -1; std::vector<long> lp;
          for (int j = 0; j < n; j++) {
            long rr = rid_, zz = z; if (checks && cnt == 0 && pct(25)) { rr = pick(rs); zz = (long)m.regions[rr].sh[tgt].b.size(); if (op == OP_ACC && m.regions[rr].htype != R.htype) { rr = rid_; zz = z; } else if (op != OP_ACC && pct(50)) ; } else if (checks && pct(30)) { long q = pick(rs); if (op != OP_ACC || m.regions[q].htype == R.htype) { rr = q; zz = (long)m.regions[q].sh[tgt].b.size(); } } else if (cnt) rr = p[p.size() - 3], zz = (long)m.regions[rr].sh[tgt].b.size();
            long o = -1; for (int t = 0; t < 6; t++) { o = seq && so >= 0 ? so : f.bigvec ? (long)r.below((u32)std::max(1L, zz - b + 1)) / al * al : offp(zz, b, R.htype >= 0 && el == tsize[R.htype] ? hphase(rr, m.regions[rr].htype) : 0); if (f.bigvec && !(seq && so >= 0) && ph && o + b + ph <= zz) o += ph; if (o < 0 || o + b > zz) { o = -1; seq = false; continue; } if (lcover) break; bool ov = false; for (long q = o; q < o + b; q++) if (used.count(rr * 1000000 + q)) { ov = true; break; } if (!ov || op == OP_GET) break; o = -1; seq = false; so = -1; }
            if (o < 0) continue; for (long q = o; q < o + b; q++) used.insert(rr * 1000000 + q); so = o + b; if (pct(35)) l += hel * r.range(0, 2); p.push_back(rr); p.push_back(o); p.push_back(l); l += b; cnt++; (void)lp;
          }
          p[at + 1] = cnt; if (lperm && cnt > 1) for (long j = cnt - 1; j > 0; j--) { long q = lperm == 1 ? cnt - 1 - j : (long)r.below((u32)(j + 1)); if (lperm == 2 || q < j) std::swap(p[at + 4 + 3 * q], p[at + 4 + 3 * j]); }
        }
        span = l; p[X_ROFF] = 0; break; }
    }
    if (p[X_LKIND] != 1 && span > 1000000) return false;
    if (p[X_LKIND] == 1) { auto own = live_regions(me); if (own.empty()) return false; long lr = pick(own); long lz = (long)m.regions[lr].sh[me].b.size(); long lal = op == OP_ACC ? hel : 1; long o = off(lz, span, lal, a); if (o < 0) { p[X_LKIND] = 0; } else { p[X_LRID] = lr; p[X_LOFF] = o; } }
    if (p[X_LKIND] == 0 || p[X_LKIND] == 2) p[X_LOFF] = op == OP_ACC ? (hel < el && pct(50) ? hel : 0) : (long)r.below(8);
    if (flag) { long fr = pick(rs); long fz = (long)m.regions[fr].sh[tgt].b.size(); if (fz < 4) return false; p[X_FRID] = fr; p[X_FOFF] = (long)r.below((u32)(fz / 4)) * 4; p[X_FVAL] = (long)r.range(1, 1000000); if (p[X_LKIND] == 1) p[X_LKIND] = 0, p[X_LRID] = 0; }
    if (!push(s)) return false; if (md == MD_NB) open[{a, (int)p[X_HDL]}] = true; if (flag) flags.push_back(p[X_UID]); return true;
  }
  void step(int k, int rank, int thr, std::vector<long> p) { Step s; s.k = k; s.rank = rank; s.thr = thr; s.p = std::move(p); push(s); }
  bool try_step(int k, int rank, int thr, std::vector<long> p) { Step s; s.k = k; s.rank = rank; s.thr = thr; s.p = std::move(p); return push(s); }
  void complete_one(int a) {
    std::vector<int> hs; for (auto &h : m.handles) if (h.first.first == a && !h.second.ops.empty()) hs.push_back(h.first.second); if (hs.empty()) return; int h = pick(hs);
    if (pct(f.test)) step(S_TEST, a / 4, a % 4, {h}); else step(S_WAIT, a / 4, a % 4, {h});
  }
  bool has_out(int a) { for (auto &h : m.handles) if (h.first.first == a && !h.second.ops.empty()) return true; return !m.implicit[a].empty(); }
  std::vector<int> agents() { std::vector<int> v; for (int mm : m.members) for (int t = 0; t < P.nthreads; t++) v.push_back(mm * 4 + t); return v; }
  void complete_all() {
    std::vector<int> ag = agents(); for (size_t i = ag.size(); i > 1; i--) std::swap(ag[i - 1], ag[r.below((u32)i)]);
    for (int a : ag) { int guard = 0; while (has_out(a) && guard++ < 40) { bool im = !m.implicit[a].empty(); bool hd = false; for (auto &h : m.handles) if (h.first.first == a && !h.second.ops.empty()) hd = true; if (im && (!hd || pct(50))) { if (pct(40)) step(S_WAITPROC, a / 4, a % 4, {(long)r.below(np())}); else step(S_WAITALL, a / 4, a % 4, {}); } else complete_one(a); } }
  }
  void wait_everything() { for (int a : agents()) { while (true) { std::vector<int> hs; for (auto &h : m.handles) if (h.first.first == a && !h.second.ops.empty()) hs.push_back(h.first.second); if (hs.empty()) break; step(S_WAIT, a / 4, a % 4, {hs[0]}); } if (!m.implicit[a].empty()) step(S_WAITALL, a / 4, a % 4, {}); } }
  bool alloc(long g, bool init = true) {
    auto &mem = m.groups[g].mem; int api = g ? (pct(25) ? 2 : 1) : (pct(60) ? 0 : pct(60) ? 1 : 2); int ht = pct(f.htyped) ? (int)r.below(6) : -1; std::vector<long> p{rid, g, api, ht};
    long base = pct(15) ? r.range(1, 40) : r.range(32, (int)f.rsize_hi); bool even = pct(50);
    for (size_t j = 0; j < mem.size(); j++) { long n = pct(f.zero) && pct(50) ? 0 : even ? base : r.range(1, (int)f.rsize_hi); if (ht >= 0) n = n / tsize[ht] * tsize[ht]; if (n > 8 && pct(70)) n = n / 8 * 8; p.push_back(n); }
    if (pct(3)) for (size_t j = 4; j < p.size(); j++) p[j] = 0;
    long id = rid++; if (!try_step(S_MALLOC, -1, 0, p)) return false; if (!init) return true;
    for (size_t j = 0; j < mem.size(); j++) if (p[4 + j] && !(sep && pct(30))) step(S_LSTORE, m.members[mem[j]], 0, {id, 0, p[4 + j], (uid++) * 2 + (sep || pct(15) ? 1 : 0)});
    return true;
  }
  bool make_group() {
    auto gs = live_groups(); long par = pick(gs); auto pm = m.groups[par].mem; int n = (int)pm.size(); int how = r.below(100); bool noncoll = P.vars.count("ARMCI_NONCOLLECTIVE_GROUPS") && P.vars["ARMCI_NONCOLLECTIVE_GROUPS"] == "1";
    (void)noncoll; long id = gid; gid += 3;
    if (how < 60) { std::vector<long> l; for (int j = 0; j < n; j++) l.push_back(j); for (int j = n - 1; j > 0; j--) std::swap(l[j], l[r.below(j + 1)]); int c = r.range(1, n); l.resize(c); if (pct(50)) std::sort(l.begin(), l.end()); std::vector<long> p{id, par == m.deflt && pct(60) ? 0 : 1, par, (long)c}; for (long v : l) p.push_back(v); return try_step(S_GCREATE, -1, 0, p); }
    if (how < 80) { std::vector<long> p{id, 2, par, 0}; for (int j = 0; j < n; j++) p.push_back((long)r.below(4) - 1 > 2 ? 2 : (pct(15) ? -1 : (long)r.below(pct(50) ? 2 : 3))); for (int j = 0; j < n; j++) p.push_back((long)r.below(9) - 3); return try_step(S_GCREATE, -1, 0, p); }
    return try_step(S_GCREATE, -1, 0, {id, 3, par, 0});
  }
  bool act(int k, int a) {
    int rank = a / 4, thr = a % 4, me = m.abs_of(rank);
    switch (k) {
      case A_PUT: return xfer(rank, thr, OP_PUT, false); case A_GET: return xfer(rank, thr, OP_GET, false); case A_ACC: return xfer(rank, thr, OP_ACC, false); case A_FLAG: return xfer(rank, thr, OP_PUT, true);
      case A_POLL: { if (flags.empty()) return false; long u = pick(flags); auto it = m.flagsteps.find(u); if (it == m.flagsteps.end()) return false; return try_step(S_POLL, m.members[it->second.p[X_TGT]], 0, {u}); }
      case A_RMW: { auto rs = live_regions(); if (rs.empty()) return false; int slot = r.below(3); long rg = rs[(slot * 7) % rs.size()]; int t = (slot * 5 + 1) % np(); long z = (long)m.regions[rg].sh[t].b.size(); int op = (int)r.below(4); if (!pct(35)) op &= 1; if (pct(70)) op = (op & 2) | ((slot + (int)rg) & 1); long w = (op & 1) ? 8 : 4; if (z < w) return false; long o = (long)(((slot * 3 + 1) * w) % (z - w + 1)) / w * w; long arg = op == 3 && pct(60) ? (long)r.next() : op >= 2 ? (pct(30) ? (long)(int)r.next() : (long)r.range(-100000, 100000)) : pct(6) ? (long)(int)r.next() : pct(70) ? r.range(1, 9) : r.range(-1000, 1000); return try_step(S_RMW, rank, thr, {op, rg, t, o, arg, uid++}); }
      case A_CS: {
        std::vector<std::pair<long, MutexM *>> ms; for (auto &x : m.mutexes) if (x.second.alive) { auto &g = m.groups[x.second.gid].mem; if (std::find(g.begin(), g.end(), me) != g.end()) ms.push_back({x.first, &x.second}); } if (ms.empty()) return false;
        auto pr = pick(ms); auto &g = m.groups[pr.second->gid].mem; std::vector<std::pair<int, int>> c; for (size_t j = 0; j < g.size(); j++) for (int q = 0; q < pr.second->counts[j]; q++) c.push_back({g[j], q}); if (c.empty()) return false; auto mx = pct(f.cshot) ? c[0] : pick(c); long inner = 0; if (c.size() > 1 && pct(f.nestcs)) { auto y = pick(c); if (y > mx) inner = 100 * (1 + y.first * 100 + y.second); }
        std::vector<long> p{pr.first, mx.second, mx.first, 0, (long)r.below(3) + (pct(20) && pr.first ? 4 : 0) + (pct(30) ? 8 : 0), inner + (pct(40) ? (long)r.below(f.cshot < 60 ? 40 : 12) : 0)}; auto rs = live_regions(); int cells = r.range(0, 2); long key = pr.first * 31 + mx.first * 5 + mx.second;
        for (int q = 0; q < cells && !rs.empty(); q++) { long rg = rs[(key + q) % rs.size()]; int t = (int)((key * 3 + q) % np()); long z = (long)m.regions[rg].sh[t].b.size(); if (z < 4) continue; long o = ((key * 13 + q * 5) % (z / 4)) * 4; p.push_back(rg); p.push_back(t); p.push_back(o); p.push_back(r.range(-50, 50)); p[3]++; }
        if (try_step(S_CS, rank, thr, p)) return true; p.resize(6); p[3] = 0; return try_step(S_CS, rank, thr, p); }
      case A_LSTORE: case A_LLOAD: { if (thr) return false; auto rs = live_regions(me); if (rs.empty()) return false; long rg = pick(rs); long z = (long)m.regions[rg].sh[me].b.size(); long el = m.regions[rg].htype >= 0 ? tsize[m.regions[rg].htype] : 1; long n = std::min(z, el * r.range(1, k == A_LLOAD && pct(40) ? 64 : 6)); long o = off(z, n, el, a); if (o < 0) return false; { long ph = hphase(rg, m.regions[rg].htype); if (ph && o + ph + n <= z) o += ph; } return try_step(k == A_LSTORE ? S_LSTORE : S_LLOAD, rank, thr, {rg, o, n, (uid++) * 2 + (sep || pct(15) ? 1 : 0)}); }
      case A_FENCE: return try_step(S_FENCE, rank, thr, {(long)r.below(np())}); case A_ALLFENCE: return try_step(S_ALLFENCE, rank, thr, {});
      case A_COMPLETE: { size_t n = P.steps.size(); complete_one(a); return P.steps.size() > n; }
      case A_EMPTYWAIT: if (pct(50)) return try_step(S_TEST, rank, thr, {(long)r.below(f.handles)}); return try_step(S_WAIT, rank, thr, {(long)r.below(f.handles), 1});
      case A_WAITPROC: return try_step(S_WAITPROC, rank, thr, {(long)r.below(np())}); case A_WAITALL: return try_step(S_WAITALL, rank, thr, {});
      case A_IDLE: return try_step(S_IDLE, rank, thr, {r.range(1, pct(15) ? 60 : 10)}); case A_PROGRESS: return try_step(S_PROGRESS, rank, thr, {}); case A_MLOCAL: return try_step(S_MLOCAL, rank, thr, {r.range(1, 300)});
      case A_GBAR: return try_step(S_GBAR, -1, 0, {pick(live_groups())}); case A_TREE: return try_step(S_TREE, -1, 0, {pct(60) ? 0 : (long)r.range(0, 2), 30001 + (long)r.below(2000), uid++}); case A_MSGBAR: return try_step(S_MSGBAR, -1, 0, {}); case A_BARRIER: return try_step(S_BARRIER, -1, 0, {});
      case A_GOP: { long g = pct(55) ? 0 : pick(live_groups()); int ty = (int)r.below(5), op = (int)r.below(ty <= 2 ? 11 : 6), n = f.big && pct(50) ? r.range(100, 4000) : pct(15) ? r.range(20, 120) : r.range(1, 9); auto lk = local(g, n * gsize[ty], gsize[ty]); return try_step(S_GOP, -1, 0, {g, pct(85) ? 0 : (long)r.range(0, 2), op, ty, n, lk[0], lk[1], lk[2], (long)r.below(2), uid++}); }
      case A_SEL: { int ty = (int)r.below(5); long n = gsize[ty] + (pct(30) ? 0 : r.range(0, f.big && pct(50) ? 12000 : 90)); auto lk = local(0, n, 8); long mask = (1 << np()) - 1; long sc = pct(85) ? 0 : r.range(0, 2); if (sc != 1 && pct(50)) mask &= 1 + (long)r.below(np() > 6 ? 511 : 63); return try_step(S_SEL, -1, 0, {sc, (long)r.below(2), ty, n, mask, lk[0], lk[1], lk[2], uid++}); }
      case A_BCAST: { int api = (int)r.below(4); long g = api == 3 ? pick(live_groups()) : 0; long n = r.range(1, f.big && pct(50) ? 20000 : pct(20) ? 250 : 30); auto lk = local(g, n, 1); auto &mem = m.groups[g].mem; return try_step(S_BCAST, -1, 0, {api, g, pick(mem), n, lk[0], lk[1], lk[2], uid++, api < 2 || pct(80) ? 0 : (long)r.range(0, 2)}); }
      case A_MSG: { if (np() < 2) return false; long from = r.below(np()), to = (from + 1 + r.below(np() - 1)) % np(); long n = pct(6) ? 0 : r.range(1, f.big && pct(50) ? 20000 : pct(20) ? 200 : 30), bl = n + (pct(50) ? 0 : r.range(0, 40)); if (!bl) bl = 1;
        auto ls = local1(from, n, 1), lr = local1(to, bl, 1); return try_step(S_MSG, -1, 0, {from, to, pct(70) ? (long)r.below(3) : r.range(0, 30000), n, bl, ls[0], ls[1], ls[2], lr[0], lr[1], lr[2], uid++}); }
      case A_FANIN: { if (np() < 2) return false; long to = r.below(np()); std::vector<long> p{to, pct(50) ? (long)r.below(3) : r.range(0, 30000), (long)r.range(1, 4), (long)r.range(4, f.big && pct(50) ? 2000 : 60), uid++}; auto lk = local1(to, p[3], 1); p.insert(p.end(), lk.begin(), lk.end()); std::vector<long> sn; for (int j = 0; j < np(); j++) if (j != to && pct(80)) sn.push_back(j); if (sn.empty()) return false; p.insert(p.end(), sn.begin(), sn.end()); return try_step(S_FANIN, -1, 0, p); }
      case A_MALLOC: if ((int)m.regions.size() >= f.regcap) return false; if (!alloc(pick(live_groups()))) return false; if (pct(70)) try_step(S_BARRIER, -1, 0, {}); return true;
      case A_FREE: { std::vector<long> v; for (auto &x : m.regions) if (x.second.alive) v.push_back(x.first); if (v.empty()) return false; long rg = pick(v); return try_step(S_FREE, -1, 0, {rg}); }
      case A_GCREATE: return (int)m.groups.size() < f.grpcap && make_group();
      case A_GFREE: { auto gs = live_groups(); long g = pick(gs); return g && try_step(S_GFREE, -1, 0, {g}); }
      case A_SETDEF: { auto gs = live_groups(); long g = pick(gs); if (m.deflt && pct(70)) return try_step(S_SETDEF, -1, 0, {0}); if (!g || !try_step(S_SETDEF, -1, 0, {g})) return false; auto mem = m.groups[g].mem; int n = (int)mem.size(); std::vector<long> l; for (int j = 0; j < n; j++) l.push_back(j); for (int j = n - 1; j > 0; j--) std::swap(l[j], l[r.below(j + 1)]); l.resize(r.range(1, n)); std::vector<long> p{gid, 0, g, (long)l.size()}; gid += 3; p.insert(p.end(), l.begin(), l.end()); try_step(S_GCREATE, -1, 0, p); if (pct(50)) try_step(S_SETDEF, -1, 0, {0}); return true; }
    }
    return false;
  }
  std::vector<long> local(long g, long n, long al) { int k = r.below(100); if (k < f.lmal) return {2, 0, 0}; if (k >= f.lmal + f.lwin) return {0, 0, 0}; std::vector<long> rs; for (auto &x : m.regions) if (x.second.alive) { bool ok = true; for (int mm : m.groups[g].mem) if ((long)x.second.sh[mm].b.size() < n) ok = false; if (ok) rs.push_back(x.first); } if (rs.empty()) return {0, 0, 0}; long rg = pick(rs), z = 1 << 30; for (int mm : m.groups[g].mem) z = std::min(z, (long)m.regions[rg].sh[mm].b.size()); return {1, rg, (long)r.below((u32)(z - n + 1)) / al * al}; }
  std::vector<long> local1(int who, long n, long al) { int k = r.below(100); if (k < f.lmal) return {2, 0, 0}; if (k >= f.lmal + f.lwin) return {0, 0, 0}; std::vector<long> rs; for (auto &x : m.regions) if (x.second.alive && (long)x.second.sh[who].b.size() >= std::max(n, 1L)) rs.push_back(x.first); if (rs.empty()) return {0, 0, 0}; long rg = pick(rs), z = (long)m.regions[rg].sh[who].b.size(); return {1, rg, (long)r.below((u32)(z - n + 1)) / al * al}; }
  // direct accesses next to a barrier, which alone must bring the two copies of the window together
  void edge(int kind) {
    for (int q = 0; q < np(); q++) if (pct(45)) { int me = m.members[q]; auto rs = live_regions(q); if (rs.empty()) continue; long rg = pick(rs); long z = (long)m.regions[rg].sh[q].b.size(); if (!z) continue; long n = std::min(z, (long)r.range(1, kind == S_LLOAD ? 64 : 8)), o = (long)r.below((u32)(z - n + 1)); try_step(kind, me, 0, {rg, o, n, (uid++) * 2}); }
  }
  void phase() {
    if (sep) edge(S_LLOAD);
    int n = r.range(f.ops_lo, f.ops_hi), tot = 0; for (int i = 0; i < A_N; i++) tot += f.w[i]; int tries = 0, done = 0; auto ag = agents(); flags.clear();
    while (done < n && tries++ < n * 8) { int k = (int)r.below(tot), c = 0; while (k >= f.w[c]) k -= f.w[c++]; if (act(c, pick(ag))) done++; }
    if (!flags.empty() && f.w[A_POLL]) for (long u : flags) if (pct(60)) { auto it = m.flagsteps.find(u); if (it != m.flagsteps.end()) try_step(S_POLL, m.members[it->second.p[X_TGT]], 0, {u}); }
    if (!pct(f.leave_out)) complete_all();
    if (sep) edge(S_LSTORE);
  }
  bool init(std::vector<int> mem, int fn, int nested) { std::vector<long> p{fn, nested, (long)mem.size()}; for (int x : mem) p.push_back(x); return try_step(S_INIT, -1, 0, p); }
  void session() {
    // groups first, then allocations over them, then mutexes
    if (pct(f.groups)) { int n = r.range(1, f.grpcap > 7 ? 6 : 3); for (int i = 0; i < n; i++) make_group(); }
    int n = r.range(f.regions_lo, f.regions_hi); int z = pct(50) ? 0 : (int)r.below((u32)n); for (int i = 0; i < n; i++) alloc(i == z || pct(55) ? 0 : pick(live_groups()));
    if (pct(f.mutexes)) { if (pct(75)) { std::vector<long> p{0, 0}; for (int j = 0; j < np(); j++) p.push_back(r.range(0, f.mxhi)); try_step(S_MXCREATE, -1, 0, p); } int k = r.below(3); for (int i = 0; i < k; i++) { long g = pick(live_groups()); std::vector<long> p{mid++, g}; for (size_t j = 0; j < m.groups[g].mem.size(); j++) p.push_back(r.range(0, f.mxhi)); try_step(S_MXCREATE, -1, 0, p); } }
    step(S_BARRIER, -1, 0, {});
    int ph = r.range(f.phases_lo, f.phases_hi); for (int i = 0; i < ph; i++) { phase(); step(S_BARRIER, -1, 0, {}); }
  }
  void close(bool all) {
    if (m.deflt) try_step(S_SETDEF, -1, 0, {0});
    wait_everything(); step(S_BARRIER, -1, 0, {});
    { std::vector<long> v; for (auto &x : m.mutexes) if (x.second.alive) v.push_back(x.first); for (long q : v) step(S_MXDESTROY, -1, 0, {q}); }
    { std::vector<long> v; for (auto &x : m.regions) if (x.second.alive) v.push_back(x.first); for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below((u32)i)]); for (long q : v) if (all || pct(m.regions[q].gid ? 75 : 60)) step(S_FREE, -1, 0, {q}); }
    { std::vector<long> v; for (auto &g : m.groups) if (g.first && g.second.alive) v.push_back(g.first); for (long q : v) step(S_GFREE, -1, 0, {q}); }
    step(S_FINI, -1, 0, {});
  }
  void fatal() {
    std::vector<int> ag = agents(); int a = pick(ag); static const int codes[] = {1, 2, 13, 100, 137, 255}; phase();
    try_step(S_FATAL, a / 4, a % 4, {(long)r.below(2), codes[r.below(6)], uid++}); for (int j = r.range(0, 3); j > 0; j--) { int b = pick(ag); if (b != a) try_step(S_IDLE, b / 4, b % 4, {r.range(1, 30)}); } if (pct(60)) try_step(pct(70) ? S_BARRIER : S_MSGBAR, -1, 0, {});
  }
  void bad() {
    auto rs = live_regions(); std::vector<int> ag = agents();
    for (int t = 0; t < 60; t++) {
      int a = pick(ag), tgt = (int)r.below(np()), what = (int)r.below(5); long len = pct(50) ? 8 : r.range(1, 64); long ro = 0, rg = 0; int shape = (int)r.below(14);
      if (np() > 1 && tgt == m.abs_of(a / 4) && pct(60)) continue;
      if (what == 1) { if (m.deadregions.empty()) continue; std::vector<long> d; for (auto &x : m.deadregions) d.push_back(x.first); rg = pick(d); long z = (long)m.deadregions[rg].sh[tgt].b.size(); if (z < 8) continue; len = std::min(len, z); ro = (long)r.below((u32)(z - len + 1)); }
      else if (what != 2) { if (rs.empty()) continue; rg = pick(rs); long z = (long)m.regions[rg].sh[tgt].b.size(); if (what == 0) { if (z < 4) continue; ro = z - 1 - (long)r.below((u32)std::min(z, 8L)); if (shape == 6 || shape == 12 || shape == 2 || shape == 9 || shape == 10) ro = ro / 4 * 4; } else if (what == 3) ro = (long)r.below(24) / 8 * 8; }
      // element sizes of the call
      if (shape == 6 || shape == 12) len = pct(50) ? 8 : 4; if (shape == 11 || shape == 13) len = 8; if (shape == 9 || shape == 10) len = std::max(8L, len / 8 * 8); if (shape == 2) len = std::max(4L, len / 4 * 4); if ((shape == 3 || shape == 4 || shape == 5) && (len & 1)) len++;
      if (try_step(S_BAD, a / 4, a % 4, {what, rg, tgt, ro, len, shape, uid++})) return;
    }
  }
};

static void env_swarm(Gen &g) {
  Rng &r = g.r; EnvCfg &c = g.P.env; auto pick = [&](std::vector<int> v) { return v[r.below((u32)v.size())]; };
  c.nranks = pick({2, 2, 3, 3, 3, 4, 4, 5}); c.policy = pick({0, 0, 1, 1, 2, 3}); c.net_pct = pick({5, 20, 40, 70}); c.net_order = pick({0, 0, 1, 2}); c.fifo_net = pick({0, 0, 1}); c.lazy = pick({0, 0, 0, 1}); c.lazy_age = pick({60, 300, 2000});
  c.eager_pct = pick({0, 10, 40, 90}); c.capture_pct = pick({0, 30, 80}); c.tear_pct = pick({0, 20, 60}); c.late_pct = pick({0, 30, 70}); c.latevis_pct = pick({0, 0, 30, 60}); c.stall_pct = pick({0, 0, 3, 10}); c.rendezvous_pct = pick({0, 30, 100}); c.spurious_pct = pick({0, 0, 20, 50});
  c.reuse_pct = pick({0, 30, 100}); c.adjacent_pct = pick({0, 30, 100}); c.segment_pct = pick({0, 30, 80}); c.permute_pct = pick({0, 50, 100}); c.weak_progress = pick({0, 0, 0, 1}); c.fill = pick({0, 0, 0xAA, 0xFF}); c.thread_level = pick({0, 1, 2, 3, 3}); c.separate = 0; c.heap_fill = pick({0xCD, 0xCD, 0, 1, 0x3C, 0x7F, 0xFF});
}
static void var_swarm(Gen &g, int pct) {
  Rng &r = g.r; auto set = [&](const char *n, std::vector<const char *> v) { if (r.below(100) < (u32)pct) g.P.vars[n] = v[r.below((u32)v.size())]; };
  set("ARMCI_IOV_METHOD", {"AUTO", "CONSRV", "BATCHED", "DIRECT"}); set("ARMCI_STRIDED_METHOD", {"IOV", "DIRECT"}); set("ARMCI_IOV_BATCHED_LIMIT", {"0", "1", "2", "3", "7"}); set("ARMCI_IOV_DTYPE_CHUNK", {"0", "1", "2", "3", "256"}); set("ARMCI_IOV_CHECKS", {"0", "1"});
  set("ARMCI_SHR_BUF_METHOD", {"COPY", "NOGUARD"}); set("ARMCI_USE_WIN_ALLOCATE", {"0", "1"}); set("ARMCI_MSG_BARRIER_SYNCS", {"0", "1"}); set("ARMCI_EXPLICIT_NB_PROGRESS", {"0", "1"}); set("ARMCI_RMA_ATOMICITY", {"0", "1"}); set("ARMCI_RMA_NOCHECK", {"0", "1"}); set("ARMCI_USE_REQUEST_ATOMICS", {"0", "1"}); set("ARMCI_FLUSH_REQUEST_ATOMICS", {"0", "1"});
  set("ARMCI_CACHE_RANK_TRANSLATION", {"0", "1"}); set("ARMCI_NO_FLUSH_LOCAL", {"0", "0", "1"}); set("ARMCI_DEBUG_ALLOC", {"0", "1"}); set("ARMCI_USE_ALLOC_SHM", {"0", "1"}); set("ARMCI_DISABLE_SHM_ACC", {"0", "1"}); set("ARMCI_USE_SAME_OP", {"0", "1"}); set("ARMCI_SHM_LIMIT", {"1000000"}); set("ARMCI_ACCUMULATE_GRANULARITY", {"0", "1", "8", "1048576"}); set("ARMCI_FLUSH_BARRIERS", {"0", "1"}); set("ARMCI_VERBOSE", {"0", "1", "2"}); if (!g.lc) set("ARMCI_RMA_ORDERING", {"none", "rar,raw,war,waw", "waw"});
  if (r.below(100) < 5) { // other spellings of yes and no, and values to be ignored
    pct = 25; std::vector<const char *> yn{"yes", "no", "true", "false", "T", "F", "Y", "n", ""}; for (auto n : {"ARMCI_USE_WIN_ALLOCATE", "ARMCI_MSG_BARRIER_SYNCS", "ARMCI_EXPLICIT_NB_PROGRESS", "ARMCI_RMA_ATOMICITY", "ARMCI_RMA_NOCHECK", "ARMCI_CACHE_RANK_TRANSLATION", "ARMCI_DEBUG_ALLOC", "ARMCI_USE_ALLOC_SHM", "ARMCI_DISABLE_SHM_ACC", "ARMCI_USE_SAME_OP"}) set(n, yn);
    set("ARMCI_STRIDED_METHOD", {"iov", "", "DATATYPE"}); set("ARMCI_IOV_BATCHED_LIMIT", {"-1", "-100", "none", "2147483647"}); set("ARMCI_IOV_DTYPE_CHUNK", {"-1", "2147483647", "x"}); set("ARMCI_ACCUMULATE_GRANULARITY", {"-1", "2147483647"}); set("ARMCI_VERBOSE", {"-1", "3"}); }
}
const char *const profiles[] = {"P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P21", "P22", "P23", "P24", "P27", "P28", nullptr};

bool generate(const std::string &prof, const std::string &variant, u64 seed, Program &P) {
  P = Program(); u64 h = 7; for (char c : prof + "/" + variant) h = mix(h, (u8)c); Gen g(P, mix(h, seed)); g.prof = prof; g.variant = variant; P.profile = prof; Prof &f = g.f; Rng &r = g.r;
  env_swarm(g); int vars = 22; int n = prof.size() > 1 ? atoi(prof.c_str() + 1) : 0; auto &w = f.w;
  auto base = [&] { w[A_PUT] = 10; w[A_GET] = 8; w[A_ACC] = 6; w[A_COMPLETE] = 4; w[A_WAITPROC] = 1; w[A_WAITALL] = 1; w[A_IDLE] = 1; w[A_PROGRESS] = 1; w[A_LSTORE] = 1; w[A_LLOAD] = 1; w[A_FENCE] = 2; w[A_ALLFENCE] = 1; };
  base(); bool sub = r.below(100) < 12; int nsess = 1, nested_hi = 1;
  switch (n) {
    case 1: w[A_SETDEF] = 1; w[A_PUT] = 12; w[A_ACC] = 9; w[A_GET] = 2; w[A_FENCE] = 9; w[A_ALLFENCE] = 4; w[A_RMW] = 3; f.groups = 45; f.nb = 25; break;
    case 2: w[A_PUT] = 12; w[A_ACC] = 8; w[A_GET] = 4; w[A_LLOAD] = 4; w[A_RMW] = 2; f.phases_lo = 2; f.phases_hi = 6; f.ops_lo = 2; f.ops_hi = 14; w[A_IDLE] = 3; f.groups = 30; f.leave_out = 25; break;
    case 3: w[A_ACC] = 0; w[A_PUT] = 12; w[A_GET] = 12; f.shape[0] = 15; f.shape[1] = 40; f.shape[2] = 35; f.shape[3] = 10; vars = 45; f.nb = 20; f.impl = 15; f.regions_hi = 4; break;
    case 4: w[A_ACC] = 22; w[A_PUT] = 4; w[A_GET] = 2; f.htyped = 90; f.shape[0] = 30; f.shape[1] = 35; f.shape[2] = 35; f.hot = 60; f.slice = 15; vars = 40; f.nb = 30; break;
    case 5: w[A_RMW] = 30; w[A_PUT] = 3; w[A_ACC] = 2; w[A_GET] = 2; w[A_IDLE] = 3; P.env.latevis_pct = r.below(2) ? 50 : 0; break;
    case 6: case 7: for (auto &x : f.w) x = 0; w[A_CS] = 30; w[A_IDLE] = 6; w[A_PROGRESS] = 1; w[A_PUT] = 1; w[A_FENCE] = 1; w[A_RMW] = 1; f.mutexes = 100; f.groups = 40; f.ops_lo = 8; f.ops_hi = 34; f.phases_hi = 3; f.htyped = 20; if (r.below(3) == 0) f.cshot = 20, f.nestcs = r.below(2) ? 12 : 40; if (n == 7) P.env.stall_pct = r.below(2) ? 8 : 0; break;
    case 8: f.nb = 65; f.impl = 70; w[A_COMPLETE] = 10; w[A_WAITPROC] = 6; f.groups = std::max(f.groups, 50); f.regions_lo = 2; w[A_WAITALL] = 3; w[A_PUT] = 12; w[A_GET] = 10; w[A_ACC] = 10; f.htyped = 70; f.test = 35; f.lmal = 15; vars = 30; break;
    case 9: f.nb = 5; f.impl = 10; w[A_PUT] = 14; w[A_GET] = 10; w[A_ACC] = 12; f.lmal = 20; f.htyped = 70; vars = 35; break;
    case 10: f.nb = 90; f.test = 100; w[A_COMPLETE] = 16; w[A_EMPTYWAIT] = 4; f.empty = 15; f.shape[3] = 20; P.env.spurious_pct = r.below(2) ? 50 : 0; break;
    case 11: for (auto &x : f.w) x = 0; w[A_FLAG] = 20; w[A_POLL] = 6; w[A_PUT] = 3; w[A_GET] = 2; w[A_ACC] = 2; w[A_IDLE] = 3; w[A_FENCE] = 1; w[A_COMPLETE] = 2; f.shape[1] = 45; f.shape[2] = 5; break;
    case 12: g.lc = true; P.lc = 1; f.nb = 6; f.impl = 3; w[A_PUT] = 16; w[A_GET] = 14; w[A_ACC] = 9; w[A_FENCE] = 1; f.hot = 0; f.slice = 92; f.htyped = 60; f.rsize_hi = 120; f.lwin = 4; P.env.fifo_net = r.below(4) == 0; break;
    case 13: w[A_MALLOC] = 8; w[A_FREE] = 7; f.groups = 50; w[A_GCREATE] = 1; w[A_MLOCAL] = 3; w[A_BARRIER] = 3; f.zero = 35; P.env.reuse_pct = r.below(2) ? 100 : 20; P.env.adjacent_pct = r.below(2) ? 100 : 20; f.regions_hi = 4; w[A_LLOAD] = 4; break;
    case 14: w[A_GCREATE] = 9; w[A_GFREE] = 5; w[A_SETDEF] = 3; w[A_GBAR] = 4; w[A_GOP] = 4; w[A_BCAST] = 3; w[A_MALLOC] = 4; w[A_FREE] = 3; w[A_PUT] = 5; w[A_GET] = 4; w[A_ACC] = 3; w[A_FENCE] = 2; f.groups = 100; P.env.nranks = std::max(3, P.env.nranks); f.ops_hi = 22; break;
    case 15: for (auto &x : f.w) x = 0; w[A_GOP] = 14; w[A_SEL] = 6; w[A_BCAST] = 6; w[A_IDLE] = 3; w[A_GCREATE] = 1; w[A_PUT] = 1; w[A_BARRIER] = 1; f.groups = 60; f.lwin = 30; f.lmal = 20; break;
    case 16: for (auto &x : f.w) x = 0; w[A_MSG] = 14; w[A_FANIN] = 6; w[A_TREE] = 1; w[A_IDLE] = 4; w[A_MSGBAR] = 1; w[A_BARRIER] = 1; w[A_PUT] = 1; w[A_GOP] = 1; f.lwin = 30; f.lmal = 15; f.groups = 10; break;
    case 17: nsess = r.range(1, 4); nested_hi = 3; sub = r.below(100) < 60; w[A_MALLOC] = 2; w[A_FREE] = 1; w[A_GCREATE] = 1; w[A_GOP] = 2; w[A_RMW] = 1; w[A_CS] = 2; w[A_MSGBAR] = 1; w[A_BCAST] = 1; w[A_SEL] = 1; f.mutexes = 40; f.groups = 40; f.ops_lo = 0; f.ops_hi = 9; f.phases_lo = 0; f.phases_hi = 2; f.regions_lo = 0; break;
    case 18: w[A_SETDEF] = 1; f.lwin = 70; f.shape[3] = 4; w[A_GET] = 10; w[A_PUT] = 10; w[A_ACC] = 7; w[A_GOP] = 2; w[A_SEL] = 1; w[A_BCAST] = 2; w[A_MSG] = 3; f.htyped = 60; f.groups = 30; f.regions_hi = 4; vars = 35; break;
    case 19: f.ops_hi = 12; f.phases_lo = 0; f.phases_hi = 2; w[A_FREE] = 2; w[A_MALLOC] = 1; f.groups = 30; f.zero = 40; vars = 50; f.regions_hi = 4; P.expect_stop = 1; break;
    case 20: P.alloc_mode = 1; f.mutexes = 40; f.groups = 40; w[A_MALLOC] = 2; w[A_FREE] = 1; w[A_GCREATE] = 1; w[A_MLOCAL] = 3; w[A_GOP] = 2; w[A_SEL] = 2; w[A_BCAST] = 1; w[A_MSG] = 2; w[A_CS] = 2; w[A_ACC] = 10; f.htyped = 70; f.lwin = 30; f.lmal = 15; f.ops_hi = 16; f.phases_hi = 2; vars = 30; break;
    case 21: w[A_RMW] = 4; w[A_CS] = 3; w[A_GOP] = 1; f.mutexes = 40; w[A_MLOCAL] = 1; w[A_MALLOC] = 1; f.phases_hi = 3; f.ops_hi = 18; nsess = r.range(1, 2); f.groups = 15; break;
    case 22: f.nb = 80; f.agg = 90; f.shape[0] = 25; f.shape[1] = 5; f.shape[2] = 70; f.bigvec = true; f.rsize_hi = 6000; w[A_PUT] = 14; w[A_GET] = 14; w[A_ACC] = 10; w[A_COMPLETE] = 2; w[A_WAITPROC] = 0; w[A_WAITALL] = 0; w[A_FENCE] = 1; f.regions_lo = 2; f.ops_lo = 10; f.ops_hi = 30; f.phases_hi = 4; P.env.max_steps = 200000; f.hot = 0; f.slice = 60; P.env.lazy = r.below(3) > 0; P.env.lazy_age = r.below(2) ? 2000 : 300; P.env.eager_pct = r.below(2) ? 0 : 30; f.empty = 2; break;
    case 23: w[A_TREE] = 1; w[A_RMW] = 3; w[A_CS] = 2; w[A_GOP] = 1; w[A_SEL] = 1; w[A_BCAST] = 1; w[A_MSG] = 1; w[A_FANIN] = 1; w[A_MALLOC] = 2; w[A_FREE] = 1; w[A_GCREATE] = 1; w[A_GFREE] = 1; w[A_SETDEF] = 1; w[A_GBAR] = 1; w[A_FLAG] = 1; w[A_MLOCAL] = 1; w[A_EMPTYWAIT] = 1; f.mutexes = 40; f.groups = 40; f.nb = 40; f.impl = 40; f.htyped = 70; vars = 40; f.zero = 25; break;
    case 24: w[A_RMW] = 5; w[A_CS] = 3; f.mutexes = 50; w[A_MLOCAL] = 1; f.ops_lo = 10; f.phases_hi = 3; P.nthreads = r.range(2, 3); P.env.preempt = 1; if (r.below(4) == 0) P.env.spurious_pct = 30; P.env.thread_level = 3; P.env.nranks = std::min(3, P.env.nranks); f.groups = 15; vars = 15; f.lwin = 3; if (r.below(5) == 0) { for (auto &x : f.w) x = 0; w[A_CS] = 30; w[A_IDLE] = 5; w[A_PUT] = 1; w[A_FENCE] = 1; w[A_RMW] = 1; f.mutexes = 100; f.cshot = 20; P.nthreads = 3; f.nestcs = r.below(2) ? 12 : 50; f.mxhi = r.range(1, 3); P.env.nranks = r.range(1, 3); } break;
    case 27: f.ops_hi = 12; f.phases_lo = 0; f.phases_hi = 2; f.groups = 50; w[A_SETDEF] = 2; w[A_MSG] = 2; w[A_GOP] = 1; w[A_CS] = 3; w[A_RMW] = 2; w[A_GBAR] = 1; w[A_TREE] = 1; f.mutexes = 30; P.expect_stop = 1; sub = r.below(100) < 40; if (r.below(6) == 0) P.nthreads = 2, P.env.preempt = 1, P.env.thread_level = 3; break;
    case 28: g.sep = true; w[A_LSTORE] = 9; w[A_LLOAD] = 9; w[A_RMW] = 3; w[A_ACC] = 8; f.phases_lo = 1; f.phases_hi = 5; f.groups = 40; f.leave_out = 10; w[A_GOP] = 1; w[A_GBAR] = 1; w[A_MALLOC] = 1; w[A_FREE] = 1; f.lwin = 0; P.env.separate = 1; vars = 40; f.mutexes = 20; break;
    default: return false;
  }
  if (n != 22 && r.below(100) < 9) switch (r.below(5)) {
    case 0: f.big = 1; f.huge = r.below(3) == 0; f.rsize_hi = f.huge ? 70000 << r.below(3) : 12000 << r.below(3); if (f.huge) { P.env.nranks = std::min(3, P.env.nranks); f.regions_hi = f.regions_lo = 1; nsess = 1; f.zero = 0; } f.regions_hi = 2; f.maxn = 60; f.ops_lo = std::min(f.ops_lo, 3); f.ops_hi = std::min(f.ops_hi, 8); f.phases_hi = std::min(f.phases_hi, 2); nsess = 1; P.env.max_steps = 400000; break;
    case 1: P.env.nranks = r.range(6, n == 24 ? 6 : MAXR); f.ops_hi += f.ops_hi / 2; P.env.max_steps = 200000; break;
    case 2: f.ops_lo = f.ops_hi * 2; f.ops_hi *= 6; f.phases_hi = std::min(f.phases_hi, 2); P.env.max_steps = 400000; break;
    case 3: f.regions_hi = 14; f.regcap = 20; f.handles = 40; f.mxhi = 30; f.grpcap = 16; f.ops_hi *= 2; P.env.max_steps = 200000; break;
    default: f.deep = 1; f.rsize_hi = 1500; f.shape[1] += 30; f.shape[2] += 15; P.env.max_steps = 200000; }
  var_swarm(g, vars);
  if (g.lc) { P.vars["ARMCI_NO_FLUSH_LOCAL"] = "1"; if (r.below(2)) P.vars["ARMCI_IOV_CHECKS"] = "1"; }
  if (n == 14) { P.vars["ARMCI_NONCOLLECTIVE_GROUPS"] = r.below(2) ? "1" : "0"; } else if (r.below(100) < 8) P.vars["ARMCI_NONCOLLECTIVE_GROUPS"] = "1";
  if (n == 28 && r.below(5) == 0) P.vars["ARMCI_MSG_BARRIER_SYNCS"] = P.vars["SIM_MSGBAR"] = "1";
  if (n == 18 || n == 28) P.vars["ARMCI_SHR_BUF_METHOD"] = "COPY";
  if (n == 21) { P.vars["ARMCI_PROGRESS_THREAD"] = "1"; P.env.thread_level = r.below(10) ? 3 : 1; P.vars["ARMCI_PROGRESS_USLEEP"] = r.below(3) == 0 ? "0" : r.below(2) ? "5" : "40"; P.env.preempt = r.below(3) == 0; P.env.pt_fail = r.below(12) == 0; }
  if (n == 22 || variant == "ompi5") if (variant == "ompi5") P.rreq_limit = 254;
  if (n == 20 && r.below(2)) P.vars["SIM_ALLOC_FATAL"] = "1";
  if (r.below(100) < 30 && P.nthreads == 1 && !P.vars.count("SIM_ARMCI_LEVEL")) P.vars["SIM_ARMCI_LEVEL"] = std::to_string(r.below(4));
  if (n == 24 && r.below(100) < 2) { P.nthreads = 1; P.env.preempt = 0; P.env.thread_level = r.range(0, 2); P.vars.erase("SIM_ARMCI_LEVEL"); P.vars["SIM_OVERLEVEL"] = std::to_string(r.below(3)); P.expect_stop = 1; }
  if (r.below(100) < 4 && !f.big && n != 22 && n != 28 && !(P.vars.count("ARMCI_DEBUG_ALLOC") && P.vars["ARMCI_DEBUG_ALLOC"] != "0")) { P.env.far_c = 16 << r.below(4); P.env.far = std::vector<int>{600, 1024, 1024, 1536, 2047}[r.below(5)]; f.rsize_hi = std::min(f.rsize_hi, (long)P.env.far_c * 6); }   // shares of several gigabytes
  g.m.begin(&P, nullptr);
  for (int s = 0; s < nsess; s++) {
    std::vector<int> mem; for (int i = 0; i < P.env.nranks; i++) mem.push_back(i); int fn = (int)r.below(3);
    if (P.nthreads > 1) fn = 2;
    if (sub && (nsess == 1 || r.below(3))) { for (size_t i = mem.size(); i > 1; i--) std::swap(mem[i - 1], mem[r.below((u32)i)]); int lo = n == 17 ? 1 : std::min(2, P.env.nranks); mem.resize(r.range(lo, P.env.nranks)); fn = P.nthreads > 1 ? 3 : 3 + (int)r.below(2); }
    if (!g.init(mem, fn, r.range(1, nested_hi))) return false;
    if (P.vars.count("SIM_OVERLEVEL")) return true;
    g.session();
    if (n == 19) { g.wait_everything(); g.step(S_BARRIER, -1, 0, {}); g.bad(); return !P.steps.empty() && P.steps.back().k == S_BAD; }
    if (n == 27) { if (r.below(4) == 0) { g.wait_everything(); g.step(S_BARRIER, -1, 0, {}); g.bad(); return !P.steps.empty() && P.steps.back().k == S_BAD; } g.fatal(); return !P.steps.empty() && g.m.stopped; }
    g.close(n != 17 && r.below(3));
  }
  return true;
}
}
