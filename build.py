#!/usr/bin/env python3
"""Builds the simulator executables from /repo's current working tree.

  build.py [fast] [instr]      (default: both)

Objects go to /verif/build/<flavour>/ (git-ignored).  An object is rebuilt when the
bytes of its source, of any header, or its command line changed.
"""
import concurrent.futures as cf, fcntl, hashlib, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(REPO, "src")
SIM = os.path.join(VERIF, "sim")

ALLOC = "malloc calloc realloc free posix_memalign aligned_alloc strdup strndup".split()
LIBSYM = ALLOC + """getline getdelim
pthread_create pthread_join pthread_detach pthread_self pthread_equal pthread_exit pthread_setaffinity_np pthread_attr_setaffinity_np
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_mutex_timedlock
pthread_spin_init pthread_spin_destroy pthread_spin_lock pthread_spin_unlock
pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast
pthread_once pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock
pthread_barrier_init pthread_barrier_wait pthread_barrier_destroy
sem_init sem_destroy sem_wait sem_timedwait sem_trywait sem_post sched_yield sched_getaffinity
clock_gettime gettimeofday time usleep nanosleep getenv secure_getenv sysconf get_nprocs
lrand48 drand48 srand48 rand random printf vprintf puts putchar fprintf vfprintf fwrite fputs fputc putc perror __assert_fail abort exit""".split()
MEMSYM = ["memcpy", "memmove", "memset"]


def makevars(path):
    text = open(path).read().replace("\\\n", " ")
    out = {}
    for m in re.finditer(r"^([A-Za-z_]+)\s*(\+?=)([^\n]*)$", text, re.M):
        k, op, v = m.group(1), m.group(2), m.group(3)
        if op == "=":
            out[k] = v.split()
        else:
            out.setdefault(k, []).extend(v.split())
    return out


def sources():
    v = makevars(os.path.join(SRC, "Makefile.am"))
    common = v.get("COMMON", [])
    rest = sum((v.get(k, []) for k in ("BLAS", "EBLAS", "ACCEL", "LAPACK", "SPARSE", "COMPAT")), [])
    return [x for x in common if x.endswith(".c")], [x for x in rest if x.endswith(".c")]


def headers_digest():
    h = hashlib.sha256()
    for root in (os.path.join(SRC),):
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith(".h"):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    h.update(open(os.path.join(SIM, "config.h"), "rb").read())
    h.update(open(__file__, "rb").read())
    return h.hexdigest()


def sim_digest():
    h = hashlib.sha256()
    for f in sorted(os.listdir(SIM)):
        if f.endswith(".h"):
            h.update(open(os.path.join(SIM, f), "rb").read())
    return h.hexdigest()


class BuildError(Exception):
    pass


def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd)[:600], p.stdout[-4000:]))
    return p.stdout


def build(flavour, jobs=8, verbose=False):
    out = os.path.join(BUILD, flavour)
    os.makedirs(out, exist_ok=True)
    lock = open(os.path.join(BUILD, flavour + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    hd, sd = headers_digest(), sim_digest()
    instr = flavour == "instr"
    base = ["gcc", "-DHAVE_CONFIG_H", "-I" + SIM, "-I" + SRC, "-I" + os.path.join(SRC, "include"),
            "-pthread", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-pie", "-fno-stack-protector", "-g1", "-w"]
    lib = base + ["-march=x86-64-v3", "-ffast-math", "-fomit-frame-pointer"]
    if instr:
        lib += ["-O2", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"]
    else:
        lib += ["-O3"]
    ver = ["-DCONFIG_SETTINGS=\"sim\"", "-DCOMPILER=\"gcc\"", "-DCOMPILE_TIME=\"0\""]
    redef = os.path.join(out, "lib.syms")
    open(redef, "w").write("".join("%s sim_%s\n" % (s, s) for s in LIBSYM + (MEMSYM if instr else [])))
    redef_s = os.path.join(out, "scn.syms")
    open(redef_s, "w").write("".join("%s sim_%s\n" % (s, s) for s in ALLOC))
    common, rest = sources()
    todo = []
    objs = []
    for s in common:
        todo.append((os.path.join(SRC, s), "x_" + s.replace("/", "_")[:-2] + ".o", lib + ver, redef, hd))
    for s in rest:
        todo.append((os.path.join(SRC, s), "d_" + s.replace("/", "_")[:-2] + ".o", lib + ["-DFLOAT64"], redef, hd))
    cxx = ["g++", "-std=c++17", "-O2", "-g1", "-pthread", "-fno-pie", "-fno-stack-protector", "-U_FORTIFY_SOURCE", "-w",
           "-march=x86-64-v3", "-I" + SIM] + (["-DSIM_INSTR"] if instr else [])
    for f in sorted(os.listdir(SIM)):
        if f.endswith(".cpp"):
            eng = f in ("engine.cpp", "main.cpp")
            cmd = cxx if eng else cxx + ["-DHAVE_CONFIG_H", "-DFLOAT64", "-fpermissive", "-I" + SRC, "-I" + os.path.join(SRC, "include")]
            todo.append((os.path.join(SIM, f), "s_" + f[:-4] + ".o", cmd, None if eng else redef_s, sd if eng else hd + sd))

    def one(t):
        src, obj, cmd, syms, dig = t
        o = os.path.join(out, obj)
        key = hashlib.sha256((dig + repr(cmd) + str(syms and open(syms).read())).encode() + open(src, "rb").read()).hexdigest()
        kf = o + ".key"
        if os.path.exists(o) and os.path.exists(kf) and open(kf).read() == key:
            return False
        if os.path.exists(kf):
            os.unlink(kf)
        run(cmd + ["-c", src, "-o", o])
        if syms:
            run(["objcopy", "--redefine-syms=" + syms, o])
        open(kf, "w").write(key)
        return True

    todo.sort(key=lambda t: -os.path.getsize(t[0]))
    todo.sort(key=lambda t: 0 if os.path.basename(t[0]) in ("kernel.c", "kernel_ext.c", "engine.cpp") or t[0].startswith(SIM) else 1)
    with cf.ThreadPoolExecutor(jobs) as ex:
        changed = list(ex.map(one, todo))
    objs = [os.path.join(out, t[1]) for t in todo]
    exe = os.path.join(out, "sim")
    lk = hashlib.sha256("".join(open(o + ".key").read() for o in objs).encode()).hexdigest()
    kf = exe + ".key"
    if any(changed) or not os.path.exists(exe) or not os.path.exists(kf) or open(kf).read() != lk:
        run(["g++", "-pthread", "-no-pie", "-o", exe] + objs + ["-lm"])
        open(kf, "w").write(lk)
    return exe, lk


if __name__ == "__main__":
    for fl in (sys.argv[1:] or ["fast", "instr"]):
        try:
            print(build(fl)[0])
        except BuildError as e:
            print(e, file=sys.stderr)
            sys.exit(2)
