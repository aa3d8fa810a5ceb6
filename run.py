#!/usr/bin/env python3
"""Builds the library from /repo's working tree and runs one check against it.

  run.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE] [--suite NAME]
  run.py --setup          builds the engine and one library variant (warm-up)

Exit 0: the property held on everything explored.  Exit 1: VIOLATION line.
"""
import shlex, concurrent.futures, hashlib, json, os, re, subprocess, sys, glob, fcntl, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PBT_REPO", "/repo")
BUILD = os.environ.get("PBT_BUILD", os.path.join(VERIF, "build"))
CC, CXX = "clang", "clang++"
ENV = dict(os.environ, LC_ALL="C", TZ="UTC")
ENV.pop("CFLAGS", None)

BASE = ["-D_DEBUG", "-D_GNU_SOURCE", "-std=gnu11", "-fPIC", "-g", "-w", "-fno-omit-frame-pointer", "-fwrapv"] + ["-fno-builtin-" + f for f in "malloc calloc realloc strdup strndup".split()]   # clang assumes that these leave errno alone
ASAN = ["-fsanitize=address"]
COV = ["-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"]
VARIANTS = {
    # the library as built by build.sh, under AddressSanitizer, its calls to libc routed through pbt/intercept.cpp
    "asan": BASE + ["-O1"] + ASAN,
    "memcheck": BASE + ["-O1", "-D_LCU_MEM_CHECK_FEATURE_ENABLE=1"] + ASAN,
    # every load and store of the library that is not of a local variable is a scheduling point; no optimisation, as in
    # build.sh's Debug build, so that what the source reads twice is read twice
    "sched": BASE + ["-O0", "-fsanitize-address-use-after-return=never"] + ASAN + ["-fsanitize-coverage=func,trace-loads,trace-stores"],
    # no sanitizer
    "plain": BASE + ["-O2"],
    # for programs of their own (checks/prog), built by gcc, whose AddressSanitizer is a shared library and so leaves operator
    # delete to the program: calls to libc are not routed through pbt/intercept.cpp
    "prog0": BASE + ["-O1"] + ASAN,
    "prog1": BASE + ["-O1", "-D_LCU_MEM_CHECK_FEATURE_ENABLE=1"],
    "prog2": BASE + ["-O1", "-D_LCU_MEM_CHECK_FEATURE_ENABLE=1"] + ASAN,
}
REDIRECT = """malloc calloc realloc free strdup strndup vasprintf asprintf __strdup __strndup aligned_alloc posix_memalign
gettimeofday time clock_gettime usleep nanosleep sleep sched_yield
read write mkdir rmdir unlink remove rename chmod system freopen
fopen fopen64 fdopen fclose fwrite fputs fputc putc fprintf vfprintf printf vprintf puts putchar fflush setvbuf
pthread_create pthread_join pthread_detach pthread_exit pthread_self pthread_equal pthread_kill pthread_setname_np
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock
pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast
sem_init sem_destroy sem_wait sem_trywait sem_timedwait sem_post sem_getvalue sigaction pthread_sigmask prctl strlcpy strlcat
memcpy memmove memset __asan_memcpy __asan_memmove __asan_memset""".split()


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **kw)
    if p.returncode != 0:
        sys.stderr.write("command failed: %s\n%s\n" % (" ".join(cmd), p.stdout.decode(errors="replace")))
        raise SystemExit(3)
    return p.stdout.decode(errors="replace")


def file_hash(paths, extra):
    h = hashlib.sha256()
    for x in extra:
        h.update(x.encode() + b"\0")
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def tree(root, exts):
    r = []
    for d, _, fs in os.walk(root):
        r += [os.path.join(d, f) for f in fs if f.endswith(exts)]
    return sorted(r)


def gen_config(dst):
    os.makedirs(os.path.join(dst, "config"), exist_ok=True)
    cm = open(os.path.join(REPO, "tool/CMakeLists.txt"), errors="replace").read()
    ver = re.search(r"VERSION\s+([0-9]+)\.([0-9]+)", cm)
    sub = {"PRJ_VER_MAJOR": ver.group(1) if ver else "1", "PRJ_VER_REVISION": "0", "PRJ_VER_BRANCH": "verif", "PRJ_WIN_PTHREAD_MODE": "0"}
    for f in glob.glob(os.path.join(REPO, "inc/config/*.h.in")):
        t = open(f, errors="replace").read()
        t = re.sub(r"@(\w+)@", lambda m: sub.get(m.group(1), "0"), t)
        with open(os.path.join(dst, "config", os.path.basename(f)[:-3]), "w") as o:
            o.write(t)


def parallel(cmds):
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        fs = [ex.submit(sh, c) for c in cmds]
        err = None
        for f in fs:
            try:
                f.result()
            except SystemExit as e:
                err = e
        if err:
            raise err


def build_lib(variant):
    flags = VARIANTS[variant]
    srcs = tree(os.path.join(REPO, "src"), (".c",))
    deps = tree(os.path.join(REPO, "src"), (".c", ".h")) + tree(os.path.join(REPO, "inc"), (".h", ".in")) + [os.path.join(REPO, "tool/CMakeLists.txt")]
    key = file_hash(deps, flags + [variant] + REDIRECT)
    out = os.path.join(BUILD, "lib-%s-%s" % (variant, key))
    lib = os.path.join(out, "liblcu.a")
    gen = os.path.join(out, "gen")
    if not os.path.exists(lib):
        prune("lib-%s-" % variant, keep=6)
        os.makedirs(out, exist_ok=True)
        gen_config(gen)
        inc = ["-I", os.path.join(REPO, "inc"), "-I", gen]
        objs, cmds = [], []
        for s in srcs:
            o = os.path.join(out, os.path.relpath(s, REPO).replace("/", "_")[:-2] + ".o")
            objs.append(o)
            cmds.append(["gcc" if variant.startswith("prog") else CC] + flags + inc + ["-c", s, "-o", o])
        parallel(cmds)
        syms = os.path.join(out, "redirect.txt")
        with open(syms, "w") as f:
            for r in REDIRECT:
                f.write("%s lcux_%s\n" % (r, r))
        if not variant.startswith("prog"):
            parallel([["objcopy", "--redefine-syms=" + syms, o] for o in objs])
        tmp = lib + ".tmp"
        if os.path.exists(tmp):
            os.unlink(tmp)
        sh(["ar", "rcs", tmp] + objs)
        os.rename(tmp, lib)
    os.utime(out)
    return lib, gen, key


def prune(prefix, keep):
    ds = sorted((d for d in glob.glob(os.path.join(BUILD, prefix + "*")) if os.path.isdir(d)), key=os.path.getmtime)
    for d in ds[:-keep] if keep else ds:
        shutil.rmtree(d, ignore_errors=True)


ENGINE_FLAGS = ["-std=gnu++17", "-g", "-O1", "-Wall", "-Wno-unused-function", "-fno-omit-frame-pointer"]


def build_engine(san, srcs):
    objs = []
    cmds = []
    hdrs = tree(os.path.join(VERIF, "pbt"), (".h",))
    for s in srcs:
        p = os.path.join(VERIF, "pbt", s)
        key = file_hash([p] + hdrs, ENGINE_FLAGS + san)
        d = os.path.join(BUILD, "engine")
        os.makedirs(d, exist_ok=True)
        o = os.path.join(d, "%s-%s.o" % (s[:-4], key))
        objs.append(o)
        if not os.path.exists(o):
            for old in glob.glob(os.path.join(d, s[:-4] + "-*.o")):
                if os.path.getmtime(old) < os.path.getmtime(p) - 86400:
                    os.unlink(old)
            cmds.append([CXX] + ENGINE_FLAGS + san + ["-c", p, "-o", o])
    parallel(cmds)
    return objs


def directives(src):
    d = {"variant": "asan", "libs": "", "cflags": "", "extra": [], "program": []}
    for line in open(src):
        m = re.match(r"//\s*(variant|libs|cflags|extra|program):\s*(.*)", line)
        if m and m.group(1) in ("extra", "program"):
            d[m.group(1)].append(shlex.split(m.group(2)))
        elif m:
            d[m.group(1)] = m.group(2).strip()
        elif not line.startswith("//"):
            break
    return d


def build_extra(d, san, inc, prefix):
    """C files that use the library's headers the way a user's program does."""
    objs, cmds = [], []
    for i, a in enumerate(d["extra"]):
        o = "%s.x%d.o" % (prefix, i)
        objs.append(o)
        cmds.append([CC, "-std=gnu11", "-g", "-O1", "-D_GNU_SOURCE"] + san + inc + a[1:] + ["-c", os.path.join(VERIF, "checks", a[0]), "-o", o])
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as tp:
        done = list(tp.map(lambda c: subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV), cmds))
    for c, p in zip(cmds, done):
        if p.returncode:
            raise UserProgram("a program that uses the library's headers does not compile\n%s\n%s" % (shlex.join(c), p.stdout.decode(errors="replace")))
    return objs


def build_programs(d, prefix):
    """Programs of their own: all of checks/prog, with one form of the library each."""
    srcs = tree(os.path.join(VERIF, "checks", "prog"), (".c", ".cpp"))
    for a in d["program"]:
        lib, gen, _ = build_lib(a[1])
        san = ASAN if "-fsanitize=address" in VARIANTS[a[1]] else []
        flags = ["-g", "-O1", "-D_DEBUG", "-D_GNU_SOURCE", "-w", "-fno-omit-frame-pointer"] + ["-fno-builtin-" + f for f in "malloc calloc realloc strdup strndup free".split()] + san + a[2:] + ["-I", os.path.join(REPO, "inc"), "-I", gen]
        objs, cmds = [], []
        for s in srcs:
            o = "%s.%s.%s.o" % (prefix, a[0], os.path.basename(s))
            objs.append(o)
            cmds.append((["gcc", "-std=gnu11"] if s.endswith(".c") else ["g++", "-std=gnu++17"]) + flags + ["-c", s, "-o", o])
        cmds.append(["g++"] + san + objs + [lib, "-lpthread", "-ldl", "-lm", "-o", prefix + "." + a[0]])
        for c in cmds:
            p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
            if p.returncode:
                raise UserProgram("a program that uses the library's headers can't be built\n%s\n%s" % (shlex.join(c), p.stdout.decode(errors="replace")))
        for o in objs:
            os.unlink(o)


class UserProgram(Exception):
    pass


def build_check(pid):
    cands = glob.glob(os.path.join(VERIF, "checks", pid + "_*.cpp"))
    if len(cands) != 1:
        sys.stderr.write("no check for %s\n" % pid)
        raise SystemExit(3)
    src = cands[0]
    d = directives(src)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        lib, gen, key = build_lib(d["variant"])
        san = ASAN if "-fsanitize=address" in VARIANTS[d["variant"]] else []
        objs = build_engine(san, ["pbt.cpp", "intercept.cpp"])
        hdrs = tree(os.path.join(VERIF, "pbt"), (".h", ".cpp")) + tree(os.path.join(VERIF, "checks"), (".h",)) + tree(os.path.join(VERIF, "checks", "tu"), (".c",))
        if d["program"]:
            hdrs += tree(os.path.join(VERIF, "checks", "prog"), (".c", ".cpp", ".inc")) + [os.path.join(VERIF, "run.py")]
        ck = file_hash([src] + hdrs, [key, d["variant"], d["cflags"]] + ENGINE_FLAGS)
        bdir = os.path.join(BUILD, "bin")
        os.makedirs(bdir, exist_ok=True)
        exe = os.path.join(bdir, "%s-%s" % (pid, ck))
        if not os.path.exists(exe):
            olds = sorted(glob.glob(os.path.join(bdir, pid + "-*")), key=os.path.getmtime)
            for o in olds[:-2 * (1 + len(d["program"]))]:
                os.unlink(o)
            inc = ["-I", os.path.join(VERIF, "pbt"), "-I", os.path.join(VERIF, "checks"), "-I", os.path.join(REPO, "inc"), "-I", gen]
            o = exe + ".o"
            build_programs(d, exe)
            ex = build_extra(d, san, inc, exe)
            sh([CXX] + ENGINE_FLAGS + san + ["-D_DEBUG", "-D_GNU_SOURCE"] + d["cflags"].split() + inc + ["-c", src, "-o", o])
            sh([CXX] + san + ["-rdynamic", "-Wl,-u,strreplace", o] + ex + objs + [lib, "-lpthread", "-ldl"] + d["libs"].split() + ["-o", exe + ".tmp"])
            for x in [o] + ex:
                os.unlink(x)
            os.rename(exe + ".tmp", exe)
    return exe


def main(argv):
    if argv and argv[0] == "--setup":
        os.makedirs(BUILD, exist_ok=True)
        build_engine(ASAN, ["pbt.cpp", "intercept.cpp"])
        build_lib("asan")
        print("setup done")
        return 0
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1") or "1"
    extra = []
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]; i += 2
        elif argv[i] == "--seed":
            seed = argv[i + 1]; i += 2
        elif argv[i] in ("--replay", "--suite"):
            extra += [argv[i], argv[i + 1]]; i += 2
        else:
            sys.stderr.write("bad argument %s\n" % argv[i]); return 3
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = str(int(seed) & 0xFFFFFFFFFFFFFFFF)
    except ValueError:
        seed = str(int(hashlib.sha256(seed.encode()).hexdigest()[:15], 16))
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    try:
        exe = build_check(pid)
    except UserProgram as e:
        path = os.path.join(rdir, pid + "-compile.txt")
        with open(path, "w") as f:
            f.write(str(e))
        print("%s\n\nVIOLATION property=%s replay=%s" % (e, pid, path))
        return 1
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cmd = [exe, "--seed", seed, "--tier", tier, "--out", rdir] + extra
    if "--replay" not in extra:
        cmd += ["--evidence", os.environ.get("PBT_EVIDENCE", os.path.join(VERIF, "evidence", pid + ".json"))]
    env = dict(ENV)
    env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:exitcode=78:detect_stack_use_after_return=0:quarantine_size_mb=16:handle_abort=0:max_malloc_fill_size=4096:malloc_fill_byte=190:symbolize=1:allow_user_segv_handler=1:check_initialization_order=0:intercept_strlen=1:strict_string_checks=0:detect_odr_violation=0"
    sys.stdout.flush()
    p = subprocess.run(cmd, env=env, cwd=VERIF)
    return p.returncode


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
