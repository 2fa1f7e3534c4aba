#!/usr/bin/env python3
"""Deterministic simulation of ARMCI-MPI: run the check of one property, or replay a recorded failure.

  check.py P01 [--tier quick|thorough] [--runs N] [--time SECONDS] [--jobs N]
  check.py replay FILE [--trace]
  check.py selftest            determinism: same seeds in many processes, in different orders
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import build as B

VERIF = os.path.dirname(os.path.abspath(__file__))
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known-findings.txt")
VARIANTS = list(B.VARIANTS)
PROPS = ["P%02d" % i for i in range(1, 25)] + ["P27", "P28"]
# Failures that are the subject of a property of their own are reported by the checks that own them only; everything
# else (wrong data, illegal use of MPI, a crash, a hang ...) means that the run did not deliver what any property promises.
OWNED = {
    "LEAK": {"P13", "P14", "P17", "P20", "P21", "P23"}, "INITFINI": {"P17", "P21", "P23"}, "THREADLEFT": {"P17", "P21", "P23"},
    "BYPASS": {"P07"}, "ALLOC": {"P13", "P14", "P17", "P20", "P23"}, "GROUP": {"P13", "P14", "P15", "P17", "P20"},
    "COLL": {"P15", "P14", "P02", "P21"}, "MSG": {"P16", "P21"}, "REQLIMIT": {"P22", "P24", "P08"}, "NOTSTOPPED": {"P19", "P24", "P27"},
}
# runs per quick check (all variants together) and the wall-clock cap in seconds
QUICK_RUNS = 90000
QUICK = {"P22": 12000, "P19": 200000}
WEIGHT = {"P22": {"ompi4": 0.2, "mpich": 0.2, "ompi5": 2.6}}   # only one build throttles requests
QUICK_CAP, THOROUGH_CAP = 75.0, 780.0
CHUNK = 600
REAL = ["every src/*.c file of libarmci (Makefile.am libarmci_la_SOURCES), compiled unmodified from /repo's working tree, one copy of its globals per simulated process"]
STUB = ["MPI library (simulated in sim/mpi.cpp: one-sided, two-sided, collectives, groups, datatypes, requests; three vendor variants)",
        "pthread threads, mutexes, condition variables (simulated fibers)", "clock and sleeps (simulated time)", "malloc/free (tracked arenas)",
        "environment variables, standard output, abort/exit"]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) cat=(\S+) match=/(.*)/ :: (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4).strip()))
    return out


def ignore_for(prop):
    return ",".join(sorted(c for c, o in OWNED.items() if prop not in o))


class Worker:
    def __init__(self, exe, variant, prop, seed0, count, tmp, n, tlimit, mint):
        self.exe, self.variant, self.seed0, self.count, self.start, self.limit = exe, variant, seed0, count, time.time(), tlimit + mint + 60
        self.prog = os.path.join(tmp, "prog%d" % n); self.outf = os.path.join(tmp, "out%d" % n)
        cmd = [exe, "run", "--profile=" + prop, "--seed0=%d" % seed0, "--count=%d" % count, "--time=%g" % tlimit, "--maxviol=2", "--stop",
               "--mintime=%g" % mint, "--progress=" + self.prog, "--out=" + REPLAYS, "--ignore=" + ignore_for(prop)]
        self.p = subprocess.Popen(cmd, stdout=open(self.outf, "w"), stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)

    def poll(self):
        if self.p.poll() is None:
            if time.time() - self.start < self.limit:
                return None
            self.p.kill(); self.p.wait()
            return ("hang", self.lastseed())
        txt = open(self.outf, errors="replace").read()
        i = txt.find('{"variant"')
        if self.p.returncode in (0, 1) and i >= 0:
            try:
                return ("ok", json.loads(txt[i:], strict=False))
            except ValueError:
                pass
        return ("crash", self.lastseed(), txt[-800:])

    def lastseed(self):
        try:
            return int(open(self.prog).read().split()[0])
        except (OSError, IndexError, ValueError):
            return None


def replay_once(exe, f, extra=()):
    try:
        p = subprocess.run([exe, "replay", f] + list(extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=200)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -99, "timeout"


def seed_replay(exe, variant, prop, seed, what):
    """the simulator process itself died or hung at this seed: a replay file that runs it by seed"""
    try:
        g = subprocess.run([exe, "gen", "--profile=" + prop, "--seed=%d" % seed], stdout=subprocess.PIPE, text=True, timeout=60)
    except subprocess.TimeoutExpired:
        return None
    if g.returncode:
        return None
    f = os.path.join(REPLAYS, "%s-%s-%d.replay" % (prop, variant, seed))
    prog = "".join(l + "\n" for l in g.stdout.splitlines() if not l.startswith("prepare:"))
    open(f, "w").write("# armci-mpi simulation replay; variant %s; run it with: check.py replay <this file>\nvariant %s\nseed %d\n%sexpect CRASH 0\nmessage %s\nsched %d\n" % (variant, variant, seed, prog, what, sched_seed(seed)))
    n = sum(replay_once(exe, f)[0] == 1 for _ in range(2))
    return f if n == 2 else None


def sched_seed(a, b=0x5eed):
    M = (1 << 64) - 1
    a ^= (b + 0x9E3779B97F4A7C15 + ((a << 6) & M) + (a >> 2)) & M
    a = (a * 0xff51afd7ed558ccd) & M
    return a ^ (a >> 33)


def check(prop, tier, vseed, runs, cap, jobs):
    t0 = time.time()
    exes = B.build(VARIANTS)
    tb = time.time() - t0
    os.makedirs(REPLAYS, exist_ok=True)
    for f in os.listdir(REPLAYS):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(REPLAYS, f))
    tmp = tempfile.mkdtemp(prefix="armcisim-")
    agg = {"runs": 0, "rejected": 0, "machine": 0, "ignored": 0, "steps": 0, "simtime": 0, "ops": 0, "program_steps": 0, "switches": 0, "decisions": 0,
           "distinct": 0, "states": 0, "stops": 0, "allocf": 0, "detchk": 0, "detbad": 0, "rma_ops": 0}
    mx = {"max_pending": 0, "max_rreq": 0}
    faults, kinds, cats, pervar, msgs, viols, errors, cov, cpu = {}, {}, {}, {}, [], [], [], {}, 0.0
    per = max(1, runs // len(VARIANTS)); base = (vseed & 0xffffffff) * 1000000007 + int(prop[1:]) * 10007
    queue = []
    share = {v: max(1, int(per * WEIGHT.get(prop, {}).get(v, 1))) for v in VARIANTS}
    for i in range(0, max(share.values()), CHUNK):
        for v in VARIANTS:
            if i < share[v]:
                queue.append((v, base + i, min(CHUNK, share[v] - i)))
    active, n, stop, tstart = [], 0, False, time.time()
    mint = 12.0 if tier == "quick" else 40.0
    while active or (queue and not stop):
        while queue and not stop and len(active) < jobs:
            if time.time() - tstart > cap:
                stop = True
                break
            v, s, c = queue.pop(0); n += 1
            active.append(Worker(exes[v], v, prop, s, c, tmp, n, max(5.0, cap - (time.time() - tstart)), mint))
        time.sleep(0.02)
        for w in list(active):
            r = w.poll()
            if r is None:
                continue
            active.remove(w)
            for f in (w.prog, w.outf):
                if os.path.exists(f):
                    os.unlink(f)
            if r[0] != "ok":
                what = "the simulated program ended the simulator process" if r[0] == "crash" else "the library loops without end"
                f = seed_replay(w.exe, w.variant, prop, r[1], what) if r[1] is not None else None
                if f:
                    viols.append({"cat": "CRASH", "msg": what, "replay": f, "variant": w.variant, "seed": r[1], "steps": -1, "kinds": ""})
                    stop = True
                else:
                    errors.append("%s worker %s at seed %s: %s" % (w.variant, r[0], r[1], r[2] if len(r) > 2 else ""))
                continue
            d = r[1]
            for k in agg:
                agg[k] += d[k]
            for k in mx:
                mx[k] = max(mx[k], d[k])
            cpu += d["wall"]
            for k, (a, b) in d["faults"].items():
                x = faults.setdefault(k, [0, 0]); x[0] += a; x[1] += b
            for k, a in d["kinds"].items():
                kinds[k] = kinds.get(k, 0) + a
            for k, a in d["cats"].items():
                cats[k] = cats.get(k, 0) + a
            pervar[w.variant] = pervar.get(w.variant, 0) + d["runs"]
            cov[w.variant] = max(cov.get(w.variant, (0, 1)), (d["cov"], d["cov_points"]))
            if d["machine_msg"] and len(msgs) < 5:
                msgs.append(w.variant + ": " + d["machine_msg"])
            for x in d["violations"]:
                x["variant"] = w.variant
                viols.append(x); stop = True
    shutil.rmtree(tmp, ignore_errors=True)
    wall = time.time() - tstart
    # every violation has to come back from its file alone, in a process of its own
    confirmed, known = [], []
    for x in viols:
        rc, out = replay_once(exes[x["variant"]], x["replay"])
        if rc != 1:
            errors.append("violation of seed %s does not replay: %s" % (x["seed"], out[-300:])); continue
        k = [e for e in known_findings(prop) if e[0] == x["cat"] and e[1].search(x["msg"])]
        (known if k else confirmed).append((x, k))
    samples = []
    for v in VARIANTS:
        g = subprocess.run([exes[v], "gen", "--profile=" + prop, "--seed=%d" % (base + 1)], stdout=subprocess.PIPE, text=True)
        samples.append({"variant": v, "seed": base + 1, "program": [l for l in g.stdout.splitlines() if l.startswith(("step", "var"))][:40]})
    rate = agg["runs"] / wall * 3600 if wall > 0 else 0
    ev = {"property": prop, "tier": tier, "seed": vseed, "level": "exploration", "wall_s": round(time.time() - t0, 2), "violations": len(confirmed),
          "coverage": {
              "evaluations": agg["runs"], "distinct_nontrivial": agg["distinct"],
              "rule": "one evaluation = one simulated execution of a generated program (1-6 processes) under one seeded schedule and fault sequence; distinct = different hash over the whole event history (every scheduling and fault decision and every library-level event), counted per worker and summed (workers use disjoint seeds); every program contains operations of this property's profile, so a run is non-trivial when its program was accepted and run",
              "samples": samples, "runs_per_variant": pervar, "runs_and_seeds_per_hour": round(rate), "distinct_final_memory_states": agg["states"],
              "simulated_scheduler_steps": agg["steps"], "simulated_time_us": agg["simtime"], "fiber_switches": agg["switches"], "recorded_decisions": agg["decisions"],
              "program_steps": agg["program_steps"], "checked_operations": agg["ops"], "one_sided_mpi_operations": agg["rma_ops"],
              "max_outstanding_operations": mx["max_pending"], "max_outstanding_requests": mx["max_rreq"],
              "faults_injected": {k: {"times": a, "runs": b} for k, (a, b) in sorted(faults.items())},
              "program_step_kinds": {k: v for k, v in sorted(kinds.items()) if v},
              "library_code_points_reached_by_one_worker": {v: "%d of %d" % c for v, c in cov.items()},
              "runs_ended_by_expected_stop": agg["stops"], "runs_with_failed_allocation": agg["allocf"],
              "determinism_rechecks": agg["detchk"], "determinism_failures": agg["detbad"], "inconclusive_runs": agg["machine"], "generated_but_rejected": agg["rejected"],
              "failures_left_to_the_check_that_owns_them": agg["ignored"], "worker_cpu_s": round(cpu, 1), "build_s": round(tb, 1),
              "components_real": REAL, "components_stubbed": STUB},
          "assumptions": ["the simulated MPI library behaves as the MPI standard allows, and only that", "the program under test is one the ARMCI documentation permits (the generator and its model reject others)",
                          "library code is preempted at MPI, pthread and allocator calls, and (in the runs that ask for it) at its loads and stores"]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", prop + ".json"); open(p + ".tmp", "w").write(json.dumps(ev, indent=1) + "\n"); os.replace(p + ".tmp", p)
    log("%s: %d runs (%d distinct) in %.1f s (build %.1f s), %d steps, inconclusive %d, left to other checks %s" % (prop, agg["runs"], agg["distinct"], wall, tb, agg["steps"], agg["machine"], cats if agg["ignored"] else 0))
    for m in msgs + errors:
        log("note:", m)
    for x, k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[0][2]), flush=True)
    for x, _ in confirmed:
        print("%s (%s, seed %s, %s steps): %s" % (x["cat"], x["variant"], x["seed"], x["steps"], x["msg"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, x["replay"]), flush=True)
    if confirmed:
        return 1
    if errors or agg["detbad"] or agg["runs"] == 0 or agg["machine"] > agg["runs"] // 10:
        log("check.py: no answer: the machinery failed")
        return 2
    return 0


def replay(f, trace):
    m = re.search(r"^variant (\S+)", open(f).read(), re.M)
    exe = B.build([m.group(1)])[m.group(1)]
    rc, out = replay_once(exe, f, ["--trace"] if trace else [])
    sys.stdout.write(out)
    return rc


def selftest(jobs, count):
    """the same seeds, in whole ranges and in single processes, must give the same histories"""
    exes = B.build(VARIANTS); bad = 0; procs = []
    def hashes(exe, prop, seeds):
        out = {}
        for s in seeds:
            p = subprocess.run([exe, "one", "--profile=" + prop, "--seed=%d" % s], stdout=subprocess.PIPE, text=True)
            out[s] = p.stdout
        return out
    from concurrent.futures import ThreadPoolExecutor
    work = [(exes[v], p, range(s, s + count)) for v in VARIANTS for p in PROPS for s in (1,)]
    res = []
    for j in (jobs, max(1, jobs // 3)):
        with ThreadPoolExecutor(j) as ex:
            res.append(list(ex.map(lambda a: hashes(*a), work)))
    n = 0
    for w, a, b in zip(work, *res):
        for s in a:
            n += 1
            if a[s] != b[s]:
                bad += 1; print("differs:", w[0], w[1], s, a[s], b[s])
    print("selftest: %d seeds twice in separate processes, %d differ" % (n, bad))
    return 2 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("what"); ap.add_argument("file", nargs="?"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int); ap.add_argument("--time", type=float); ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1)); ap.add_argument("--trace", action="store_true"); ap.add_argument("--count", type=int, default=20)
    a = ap.parse_args()
    try:
        if a.what == "replay":
            return replay(a.file, a.trace)
        if a.what == "selftest":
            return selftest(a.jobs, a.count)
        if a.what == "build":
            B.build(VARIANTS); return 0
        if a.what not in PROPS:
            log("unknown property", a.what); return 2
        vseed = int(os.environ.get("VERIF_SEED", "1"), 0)
        tier = "thorough" if a.tier == "thorough" else "quick"
        runs = a.runs or (QUICK.get(a.what, QUICK_RUNS) if tier == "quick" else 60000000)
        cap = a.time or (QUICK_CAP if tier == "quick" else THOROUGH_CAP)
        return check(a.what, tier, vseed, runs, cap, a.jobs)
    except B.BuildError as e:
        log("check.py: the build failed\n%s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
