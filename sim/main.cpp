// Command line: run seed ranges, minimise violations, write and reproduce replay files.
#include "prog.h"
#include "exec.h"
#include <sstream>
#include <fstream>
#include <ctime>
#include <unordered_set>
#include <unistd.h>
#include <sys/wait.h>
using namespace sim;
namespace {
struct Result { bool viol = false; std::string cat, msg; u64 hash = 0; std::vector<u32> dec; bool prep = true; std::string why; bool machine = false; };
double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
Result run_one(const Program &P, u64 seed, const std::vector<u32> *dec) {
  Result r; if (!prepare(P, &r.why)) { r.prep = false; return r; }
  run_begin(P.env, seed, dec); exec_program(P); run_loop(); run_end();
  r.viol = violation(P, r.cat, r.msg); r.hash = K.hash; r.dec = K.out; if (K.outc.cat == "UNSUPPORTED" || K.outc.cat == "SIMLIMIT") { r.viol = false; r.machine = true; r.cat = K.outc.cat; r.msg = K.outc.msg; }
  return r;
}
u64 sched_seed(u64 s) { return mix(s, 0x5eed); }
// the failing allocation is chosen among those the program makes without failures
void choose_alloc(Program &P, u64 s) {
  if (!P.alloc_mode) return; Program Q = P; Q.env.alloc_fail_at = -1; Result r = run_one(Q, sched_seed(s), nullptr); (void)r; long n = K.nalloc; if (n <= 0) return; Rng g(mix(s, 0xa110c)); P.env.alloc_fail_at = g.below((u32)n); P.env.alloc_fail_n = g.below(4) ? 1 : 1000000;
}
std::vector<u32> trimmed(std::vector<u32> d) { while (!d.empty() && d.back() == 0) d.pop_back(); return d; }
struct Min { Program P; std::vector<u32> dec; Result r; int tries = 0; double limit; };
bool same(const Result &a, const std::string &cat) { return a.prep && a.viol && a.cat == cat; }
void minimise(Min &m, u64 seed, const std::string &cat, double budget) {
  double end = now() + budget; auto left = [&] { return now() < end; }; u64 s0 = seed; Rng g(mix(seed, 99));
  auto probe = [&](const Program &Q, int extra) { m.tries++; Result r = run_one(Q, s0, nullptr); if (!r.prep) return false; if (same(r, cat)) { m.P = Q; m.r = r; return true; } for (int i = 0; i < extra && left(); i++) { u64 s = g.next(); m.tries++; r = run_one(Q, s, nullptr); if (same(r, cat)) { m.P = Q; m.r = r; s0 = s; return true; } } return false; };
  // everything behind the failure is not needed: try short prefixes, then drop pieces
  bool progress = true; int extra = 6;
  while (progress && left()) {
    progress = false;
    for (size_t ch = std::max<size_t>(1, m.P.steps.size() / 2); ch >= 1 && left(); ch /= 2) {
      for (long i = (long)m.P.steps.size() - (long)ch; i >= 0 && left(); i -= (long)ch) { if (i + ch > m.P.steps.size()) continue; Program Q = m.P; Q.steps.erase(Q.steps.begin() + i, Q.steps.begin() + i + ch); std::string why; if (!prepare(Q, &why)) continue; if (probe(Q, ch == 1 ? extra : 2)) progress = true; }
      if (ch == 1) break;
    }
    // pairs that belong together (create/destroy, malloc/free)
    for (size_t i = 0; i < m.P.steps.size() && left(); i++) { int k = m.P.steps[i].k; if (k != S_MALLOC && k != S_GCREATE && k != S_MXCREATE && k != S_XFER) continue; for (size_t j = i + 1; j < m.P.steps.size(); j++) { int q = m.P.steps[j].k; bool pr = (k == S_MALLOC && (q == S_FREE || q == S_LSTORE)) || (k == S_GCREATE && q == S_GFREE) || (k == S_MXCREATE && q == S_MXDESTROY) || (k == S_XFER && (q == S_WAIT || q == S_TEST || q == S_WAITALL || q == S_POLL) && m.P.steps[i].rank == m.P.steps[j].rank); if (!pr) continue; if (k != S_XFER && m.P.steps[i].p[0] != m.P.steps[j].p[0]) continue;
        Program Q = m.P; Q.steps.erase(Q.steps.begin() + j); if (k == S_MALLOC) { for (size_t l = Q.steps.size(); l-- > i + 1;) if ((Q.steps[l].k == S_LSTORE || Q.steps[l].k == S_FREE) && Q.steps[l].p[0] == m.P.steps[i].p[0]) Q.steps.erase(Q.steps.begin() + l); } Q.steps.erase(Q.steps.begin() + i); std::string why; if (prepare(Q, &why) && probe(Q, 3)) { progress = true; break; } } }
    extra = 3;
  }
  // fewer knobs
  { auto vars = m.P.vars; for (auto &v : vars) { if (!left()) break; Program Q = m.P; Q.vars.erase(v.first); probe(Q, 3); } }
#define KN(f, v) if (left() && m.P.env.f != (v)) { Program Q = m.P; Q.env.f = (v); probe(Q, 3); }
  KN(stall_pct, 0) KN(spurious_pct, 0) KN(weak_progress, 0) KN(latevis_pct, 0) KN(segment_pct, 0) KN(permute_pct, 0) KN(reuse_pct, 0) KN(adjacent_pct, 0) KN(tear_pct, 0) KN(late_pct, 0) KN(capture_pct, 0) KN(rendezvous_pct, 0) KN(lazy, 0) KN(eager_pct, 100) KN(policy, 3) KN(fill, 0)
#undef KN
  // schedule
  m.dec = trimmed(m.r.dec); Result c = run_one(m.P, 1, &m.dec); if (!same(c, cat)) { m.dec = m.r.dec; c = run_one(m.P, 1, &m.dec); if (!same(c, cat)) return; } m.r = c;
  auto rep = [&](std::vector<u32> d) { m.tries++; Result r = run_one(m.P, 1, &d); if (!same(r, cat)) return false; m.r = r; m.dec = trimmed(r.dec); return true; };
  rep({});
  for (size_t n = m.dec.size() / 2; n >= 1 && left(); n /= 2) { while (m.dec.size() > n && left()) { std::vector<u32> d(m.dec.begin(), m.dec.end() - n); size_t before = m.dec.size(); if (!rep(d) || m.dec.size() >= before) break; } if (n == 1) break; }
  for (size_t ch = std::max<size_t>(1, m.dec.size() / 2); ch >= 1 && left(); ch /= 2) {
    for (size_t i = 0; i + ch <= m.dec.size() && left(); i += ch) { bool nz = false; for (size_t j = i; j < i + ch; j++) nz |= m.dec[j] != 0; if (!nz) continue; std::vector<u32> d = m.dec; for (size_t j = i; j < i + ch; j++) d[j] = 0; size_t cnt = 0, c2 = 0; for (u32 x : m.dec) cnt += x != 0; auto keep = m.dec; auto kr = m.r; if (rep(d)) { for (u32 x : m.dec) c2 += x != 0; if (c2 >= cnt) { m.dec = keep; m.r = kr; } } }
    if (ch == 1) break;
  }
  Result f = run_one(m.P, 1, &m.dec); if (same(f, cat)) m.r = f;
}
std::string replay_text(const Program &P, const Result &r, const std::vector<u32> &dec, u64 seed, u64 seedno) {
  std::ostringstream o; o << "# armci-mpi simulation replay; variant " << sim_variant << "; run it with: check.py replay <this file>\nvariant " << sim_variant << "\nseed " << seedno << "\n" << prog_text(P) << "expect " << r.cat << " " << std::hex << r.hash << std::dec << "\nmessage " << r.msg << "\n";
  (void)seed; size_t i = 0; while (i < dec.size()) { size_t j = i; while (j < dec.size() && dec[j] == dec[i]) j++; o << "d " << dec[i] << " " << j - i << "\n"; i = j; } return o.str();
}
bool load_replay(const std::string &f, Program &P, std::vector<u32> &dec, std::string &cat, u64 &hash, bool &byseed, u64 &seed) {
  std::ifstream in(f); if (!in) return false; std::stringstream b; b << in.rdbuf(); std::string t = b.str(); if (!prog_parse(t, P)) return false; std::istringstream l(t); std::string line; byseed = false;
  while (std::getline(l, line)) { std::istringstream q(line); std::string k; q >> k; if (k == "d") { u32 v; size_t n; q >> v >> n; dec.insert(dec.end(), n, v); } else if (k == "expect") { std::string h; q >> cat >> h; hash = strtoull(h.c_str(), nullptr, 16); } else if (k == "sched") { byseed = true; q >> seed; } }
  return true;
}
std::string jesc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o; }
}
int main(int argc, char **argv) {
  std::map<std::string, std::string> a; std::vector<std::string> pos; for (int i = 1; i < argc; i++) { std::string s = argv[i]; if (s.compare(0, 2, "--") == 0) { auto e = s.find('='); if (e == std::string::npos) a[s.substr(2)] = "1"; else a[s.substr(2, e - 2)] = s.substr(e + 1); } else pos.push_back(s); }
  if (pos.empty()) { fprintf(stderr, "usage: armcisim run|gen|one|replay ...\n"); return 2; } std::string cmd = pos[0];
  auto num = [&](const char *k, long d) { auto it = a.find(k); return it == a.end() ? d : strtol(it->second.c_str(), nullptr, 0); };
  std::string prof = a.count("profile") ? a["profile"] : "P23";
  if (cmd == "gen" || cmd == "one") {
    Program P; u64 s = num("seed", 1); if (!generate(prof, sim_variant, s, P)) { printf("rejected\n"); return 3; } choose_alloc(P, s);
    if (cmd == "gen") { fputs(prog_text(P).c_str(), stdout); std::string why; printf("prepare: %s\n", prepare(P, &why) ? "ok" : why.c_str()); return 0; }
    K.tracing = a.count("trace"); Result r = run_one(P, sched_seed(s), nullptr); if (a.count("trace")) fputs(K.trace.c_str(), stdout); if (!r.prep) { printf("not prepared: %s\n", r.why.c_str()); return 2; }
    printf("steps %llu allocs %ld hash %llx %s %s: %s\n", (unsigned long long)K.step, K.nalloc, (unsigned long long)r.hash, r.viol ? "VIOLATION" : "ok", r.cat.c_str(), r.msg.c_str()); return r.viol;
  }
  if (cmd == "replay") {
    Program P; std::vector<u32> dec; std::string cat; u64 hash = 0, seed = 0; bool bys; if (pos.size() < 2 || !load_replay(pos[1], P, dec, cat, hash, bys, seed)) { fprintf(stderr, "cannot read replay file\n"); return 2; }
    K.tracing = a.count("trace");
    if (bys) { fflush(stdout); pid_t p = fork(); if (!p) { alarm(60); Result r = run_one(P, seed, nullptr); _exit(r.viol ? 1 : 0); } int st; waitpid(p, &st, 0); bool v = WIFSIGNALED(st) || WEXITSTATUS(st) == 1 || WEXITSTATUS(st) == 3; printf("%s\n", v ? "violation reproduced (simulator process ended by the library)" : "no violation"); return v; }
    Result r = run_one(P, 1, &dec); if (a.count("trace")) fputs(K.trace.c_str(), stdout); if (!r.prep) { printf("program not admissible: %s\n", r.why.c_str()); return 2; }
    printf("%s %s: %s\nhash %llx, %s\n", r.viol ? "VIOLATION" : r.machine ? "INCONCLUSIVE" : "no violation", r.cat.c_str(), r.msg.c_str(), (unsigned long long)r.hash, r.hash == hash ? "identical to the recorded run" : "differs from the recorded run"); return r.viol ? 1 : r.machine ? 2 : 0;
  }
  if (cmd == "run") {
    u64 s0 = num("seed0", 1); long count = num("count", 100), maxv = num("maxviol", 2), stride = num("stride", 1); double t0 = now(), lim = num("time", 600); std::string out = a.count("out") ? a["out"] : "."; double mint = num("mintime", 20);
    std::set<std::string> ign; { std::istringstream q(a["ignore"]); std::string c; while (std::getline(q, c, ',')) ign.insert(c); }
    long runs = 0, rejected = 0, machine = 0, ignored = 0, stops = 0, allocf = 0; u64 steps = 0, simtime = 0, ops = 0, psteps = 0, switches = 0, ndec = 0; u64 fired[F_COUNT] = {0}, fruns[F_COUNT] = {0}; std::unordered_set<u64> hashes, states; std::string viol, mmsg; std::set<std::string> sigs; long nv = 0, detchk = 0, detbad = 0; u64 kinds[S_COUNT] = {0}; long catn = 0; std::map<std::string, long> cats; u64 maxpend = 0, maxrreq = 0, rmaops = 0;
    int pfd = -1; if (a.count("progress")) pfd = fileno(fopen(a["progress"].c_str(), "w"));
    for (long i = 0; i < count; i++) {
      if (now() - t0 > lim) break; u64 s = s0 + (u64)i * stride; if (pfd >= 0) { char b[64]; int n = snprintf(b, sizeof b, "%-30llu\n", (unsigned long long)s); (void)!pwrite(pfd, b, n, 0); }
      Program P; if (!generate(prof, sim_variant, s, P)) { rejected++; continue; } choose_alloc(P, s);
      Result r = run_one(P, sched_seed(s), nullptr); if (!r.prep) { machine++; if (mmsg.empty()) mmsg = "seed " + std::to_string(s) + " not admissible: " + r.why; continue; }
      runs++; steps += K.step; simtime += K.clock; switches += K.switches; ndec += K.out.size(); auto st = run_stats(); ops += st.ops; psteps += st.steps; for (auto &q : P.steps) kinds[q.k]++; rmaops += rma_stats.ops; maxpend = std::max(maxpend, (u64)rma_stats.max_pending); maxrreq = std::max(maxrreq, (u64)rma_stats.max_rreq);
      for (int f = 0; f < F_COUNT; f++) { fired[f] += K.fired[f]; fruns[f] += K.fired[f] > 0; } hashes.insert(r.hash); states.insert(mem_hash()); if (P.expect_stop && K.outc.cat == "ABORT") stops++; if (K.nalloc_failed) allocf++;
      if (i % 257 == 3) { detchk++; Result r2 = run_one(P, sched_seed(s), nullptr); Result r3 = run_one(P, 1, &r.dec); if (r2.hash != r.hash || r3.hash != r.hash) { detbad++; if (mmsg.empty()) mmsg = "seed " + std::to_string(s) + " is not repeatable"; } }
      if (r.machine) { machine++; if (mmsg.empty()) mmsg = "seed " + std::to_string(s) + ": " + r.cat + " " + r.msg; continue; }
      if (!r.viol) continue;
      cats[r.cat]++;
      if (ign.count(r.cat)) { ignored++; continue; }
      std::string sig = r.cat; if (sigs.count(sig) || nv >= maxv) { catn++; continue; }
      Result again = run_one(P, sched_seed(s), nullptr); if (again.hash != r.hash || again.cat != r.cat) { machine++; if (mmsg.empty()) mmsg = "seed " + std::to_string(s) + " gave " + r.cat + " once and " + again.cat + " the second time"; continue; }
      sigs.insert(sig); nv++;
      Min m; m.P = P; m.r = r; m.dec = r.dec; if (a.count("nomin")) { } else minimise(m, sched_seed(s), r.cat, mint);
      std::string f = out + "/" + prof + "-" + sim_variant + "-" + std::to_string(s) + ".replay"; std::ofstream(f) << replay_text(m.P, m.r, m.dec, 1, s);
      if (!viol.empty()) viol += ","; std::set<std::string> ks; for (auto &q : m.P.steps) ks.insert(kind_name[q.k]); std::string kl; for (auto &k : ks) kl += (kl.empty() ? "" : " ") + k;
      size_t nz = 0; for (u32 x : m.dec) nz += x != 0;
      viol += "{\"seed\":" + std::to_string(s) + ",\"cat\":\"" + jesc(m.r.cat) + "\",\"msg\":\"" + jesc(m.r.msg) + "\",\"first_msg\":\"" + jesc(r.msg) + "\",\"replay\":\"" + jesc(f) + "\",\"steps\":" + std::to_string(m.P.steps.size()) + ",\"decisions\":" + std::to_string(m.dec.size()) + ",\"nondefault\":" + std::to_string(nz) + ",\"kinds\":\"" + kl + "\",\"tries\":" + std::to_string(m.tries) + "}";
      if (nv >= maxv && a.count("stop")) break;
    }
    long cov = 0; for (u8 c : covmap) cov += c;
    if (a.count("covdump")) { std::ofstream o(a["covdump"], std::ios::app); for (size_t q = 0; q < sizeof covmap; q++) if (covmap[q]) o << q << "\n"; }
    printf("{\"variant\":\"%s\",\"runs\":%ld,\"rejected\":%ld,\"machine\":%ld,\"machine_msg\":\"%s\",\"ignored\":%ld,\"steps\":%llu,\"simtime\":%llu,\"ops\":%llu,\"program_steps\":%llu,\"switches\":%llu,\"decisions\":%llu,\"distinct\":%zu,\"states\":%zu,\"cov\":%ld,\"cov_points\":%d,\"stops\":%ld,\"allocf\":%ld,\"detchk\":%ld,\"detbad\":%ld,\"rma_ops\":%llu,\"max_pending\":%llu,\"max_rreq\":%llu,\"wall\":%.2f,\"faults\":{", sim_variant, runs, rejected, machine, jesc(mmsg).c_str(), ignored, (unsigned long long)steps, (unsigned long long)simtime, (unsigned long long)ops, (unsigned long long)psteps, (unsigned long long)switches, (unsigned long long)ndec, hashes.size(), states.size(), cov, cov_points, stops, allocf, detchk, detbad, (unsigned long long)rmaops, (unsigned long long)maxpend, (unsigned long long)maxrreq, now() - t0);
    for (int f = 0; f < F_COUNT; f++) printf("%s\"%s\":[%llu,%llu]", f ? "," : "", fault_name[f], (unsigned long long)fired[f], (unsigned long long)fruns[f]);
    printf("},\"kinds\":{"); for (int k = 0; k < S_COUNT; k++) printf("%s\"%s\":%llu", k ? "," : "", kind_name[k], (unsigned long long)kinds[k]);
    printf("},\"cats\":{"); bool fst = true; for (auto &c : cats) { printf("%s\"%s\":%ld", fst ? "" : ",", c.first.c_str(), c.second); fst = false; } printf("},\"violations\":[%s]}\n", viol.c_str());
    return nv ? 1 : 0;
  }
  return 2;
}
