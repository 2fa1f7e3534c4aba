#!/usr/bin/env python3
"""Build the simulator binaries from /repo's working tree.

One binary per variant of the simulated MPI library.  ARMCI-MPI's sources are compiled
as they stand, linked into one relocatable object, and duplicated once per simulated
process by renaming its symbols, so that every process has its own global state inside
one address space.  Results are cached by content hash under /verif/build.
"""
import hashlib, os, re, shutil, subprocess, sys, tempfile, json, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ARMCI_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
MAXR = 9
VARIANTS = {"ompi4": "SIM_OMPI4", "mpich": "SIM_MPICH", "ompi5": "SIM_OMPI5"}
SEAMS = """malloc calloc free realloc reallocarray strdup strndup posix_memalign aligned_alloc memcpy memmove memset memcmp
pthread_create pthread_join pthread_detach pthread_exit pthread_self pthread_equal
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_mutexattr_init pthread_mutexattr_destroy pthread_mutexattr_settype
pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_signal pthread_cond_broadcast pthread_cond_timedwait pthread_once
pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock
pthread_spin_init pthread_spin_destroy pthread_spin_lock pthread_spin_trylock pthread_spin_unlock
nanosleep usleep sleep sched_yield clock_gettime gettimeofday time clock rand srand random srandom drand48 srand48 getenv secure_getenv asprintf vasprintf putc _exit _Exit quick_exit
printf vprintf fprintf vfprintf puts putchar fputs fputc fwrite fflush perror
backtrace backtrace_symbols backtrace_symbols_fd exit abort gethostname getpid""".split()
CFLAGS = ("-std=gnu99 -O1 -g -fno-pie -fno-common -fno-zero-initialized-in-bss -U_FORTIFY_SOURCE "
          "-fsanitize-coverage=trace-pc,trace-loads,trace-stores -w -fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memset").split()
CXXFLAGS = "-std=c++17 -O2 -g -fno-pie -w".split()


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def sources():
    mk = open(os.path.join(REPO, "Makefile.am")).read()
    m = re.search(r"^libarmci_la_SOURCES\s*=((?:.*\\\n)*.*\n)", mk, re.M)
    lst = [s for s in m.group(1).replace("\\", " ").split() if s.endswith(".c")]
    return lst


def hash_files(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


def sim_files():
    out = []
    for d, _, fs in os.walk(os.path.join(VERIF, "sim")):
        out += [os.path.join(d, f) for f in fs if not f.endswith(".pyc")]
    return out


def repo_files():
    out = [os.path.join(REPO, "Makefile.am")]
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        out += [os.path.join(d, f) for f in fs if f.endswith((".c", ".h"))]
    return out


def compile_sim(tmp):
    """sim + harness objects, cached apart from the library"""
    key = hash_files(sim_files() + [os.path.join(REPO, "src", h) for h in ("armci.h", "armcix.h", "message.h")] + [os.path.abspath(__file__)], " ".join(CXXFLAGS))
    d = os.path.join(BUILD, "sim-" + key)
    if os.path.isdir(d):
        os.utime(d)
        return d
    t = tempfile.mkdtemp(dir=BUILD, prefix="tmp")
    srcs = [f for f in os.listdir(os.path.join(VERIF, "sim")) if f.endswith(".cpp")]
    def one(s):
        run(["g++"] + CXXFLAGS + ["-DSIM_OMPI4", "-I" + os.path.join(VERIF, "sim"), "-I" + os.path.join(VERIF, "sim/include"), "-I" + os.path.join(REPO, "src"), "-c", os.path.join(VERIF, "sim", s), "-o", os.path.join(t, s + ".o")])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, srcs))
    publish(t, d)
    return d


def publish(t, d):
    try:
        os.rename(t, d)
    except OSError:
        shutil.rmtree(t, ignore_errors=True)


def build_variant(v):
    files = sim_files() + repo_files() + [os.path.abspath(__file__)]
    key = hash_files(files, v + " ".join(CFLAGS))
    exe = os.path.join(BUILD, "%s-%s" % (v, key), "armcisim")
    if os.path.exists(exe):
        os.utime(os.path.dirname(exe))
        return exe
    simd = compile_sim(BUILD)
    t = tempfile.mkdtemp(dir=BUILD, prefix="tmp")
    srcs = sources()
    def one(s):
        o = os.path.join(t, os.path.basename(s) + ".o")
        run(["clang"] + CFLAGS + ["-D" + VARIANTS[v], "-I" + os.path.join(VERIF, "sim/include"), "-I" + os.path.join(REPO, "src"), "-c", os.path.join(REPO, s), "-o", o])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    comb = os.path.join(t, "combined.o")
    run(["ld", "-r", "-o", comb] + objs)
    # make sure everything writable is in .data
    secs = run(["readelf", "-SW", comb])
    flags = ["--set-section-flags", ".bss=alloc,load,data,contents"] if re.search(r"\.bss\s+NOBITS\s+\S+\s+\S+\s+0*[1-9a-f]", secs) else []
    names = re.findall(r"\]\s+(\.\S+)\s+(?:PROGBITS|NOBITS)", secs)
    odd = [n for n in names if not n.startswith((".text", ".rodata", ".data", ".bss", ".debug", ".comment", ".note", ".eh_frame"))]
    if odd:
        sys.stderr.write("build: unusual sections %s\n" % odd)
    defined, undefined = [], []
    for l in run(["nm", comb]).splitlines():
        p = l.split()
        if len(p) == 3 and p[1].isupper() or (len(p) == 3 and p[1] in "vw"):
            defined.append(p[2])
        elif len(p) == 2 and p[0] in "Uw":
            undefined.append(p[1])
    rel = run(["readelf", "-rW", comb])
    points = len(re.findall(r"__sanitizer_cov_trace_pc\b", rel))
    def dup(k):
        o = os.path.join(t, "rank%d.o" % k)
        mp = os.path.join(t, "syms%d" % k)
        with open(mp, "w") as f:
            for d in defined:
                f.write("%s r%d_%s\n" % (d, k, d))
            for s in SEAMS:
                if s not in defined:
                    f.write("%s sim_%s\n" % (s, s))
            f.write("__assert_fail sim_assert_fail\n")
            f.write("stderr sim_stderr\nstdout sim_stdout\n")
        run(["objcopy", "--redefine-syms", mp] + flags + ["--rename-section", ".text=armci_text_r%d" % k,
             "--rename-section", ".data=armci_data_r%d,alloc,load,data,contents" % k,
             "--rename-section", ".bss=armci_data_r%d,alloc,load,data,contents" % k, comb, o])
        return o
    with ThreadPoolExecutor(6) as ex:
        robjs = list(ex.map(dup, range(MAXR)))
    vc = os.path.join(t, "variant.cpp")
    with open(vc, "w") as f:
        f.write('#include <cstdint>\nnamespace sim { extern const char *const sim_variant = "%s"; extern const int cov_points = %d; }\n' % (v, points))
    run(["g++"] + CXXFLAGS + ["-c", vc, "-o", os.path.join(t, "variant.o")])
    sobjs = [os.path.join(simd, f) for f in sorted(os.listdir(simd)) if f.endswith(".o")]
    cmd = ["g++", "-no-pie", "-g", "-o", os.path.join(t, "armcisim")] + sobjs + [os.path.join(t, "variant.o")] + robjs + ["-lm"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        miss = sorted(set(re.findall(r"undefined reference to `([^']+)'", p.stdout)))
        raise BuildError("link failed; undefined: %s\n%s" % (miss, p.stdout[-3000:]))
    for f in os.listdir(t):
        if f != "armcisim":
            os.unlink(os.path.join(t, f))
    publish(t, os.path.dirname(exe))
    return exe


def prune():
    try:
        ds = sorted((os.path.getmtime(os.path.join(BUILD, d)), d) for d in os.listdir(BUILD) if re.match(r"(sim|ompi4|mpich|ompi5)-|tmp", d))
    except OSError:
        return
    import time
    for m, d in ds[:-14]:
        if time.time() - m > 1800:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)


def build(variants):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        compile_sim(BUILD)
        with ThreadPoolExecutor(3) as ex:
            exes = list(ex.map(build_variant, variants))
        prune()
    return dict(zip(variants, exes))


if __name__ == "__main__":
    try:
        for v, e in build(sys.argv[1:] or list(VARIANTS)).items():
            print(v, e)
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
