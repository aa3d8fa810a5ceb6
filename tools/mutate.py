#!/usr/bin/env python3
"""Mutation analysis: how many small edits of one source file do the checks notice?

  mutate.py <src file relative to /repo> <C05,C06,...> [-j N] [-n MAX] [-k type] [-o out.jsonl]

Works on scratch objects under /tmp/mt; nothing in /repo or /verif changes.
"""
import sys, os, re, json, subprocess, hashlib, random, shutil, concurrent.futures as cf, threading
W = os.environ.get("MT_DIR", "/tmp/mt")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run as R

def strip(src):
    """Same length, comments/strings/preprocessor lines blanked."""
    out = list(src)
    for m in re.finditer(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', src, re.S):
        for i in range(m.start(), m.end()):
            if out[i] != "\n": out[i] = " "
    s = "".join(out)
    out = list(s)
    for m in re.finditer(r'^[ \t]*#(?:[^\n]*\\\r?\n)*[^\n]*', s, re.M):
        for i in range(m.start(), m.end()):
            if out[i] not in "\r\n": out[i] = " "
    return "".join(out)

def types(src):
    """One declaration or cast at a time gets a narrower integer type."""
    s = strip(src); res = []
    narrow = {"size_t": ["unsigned int", "unsigned short", "int"], "ssize_t": ["int", "short"], "int": ["short"], "unsigned int": ["unsigned short"], "uint32_t": ["unsigned short"], "unsigned": ["unsigned short"], "int32_t": ["short"],
              "long": ["int", "short"], "long long": ["int", "short"], "int64_t": ["int", "short"], "uint64_t": ["unsigned int", "unsigned short"], "time_t": ["int"], "unsigned long": ["unsigned int", "unsigned short"], "uint16_t": ["unsigned char"], "short": ["signed char"], "double": ["float"]}
    for m in re.finditer(r'(?<![\w])(unsigned long|unsigned int|long long|size_t|ssize_t|int|uint32_t|int32_t|unsigned|long|int64_t|uint64_t|time_t|uint16_t|short|double)(?=\s+\w+\s*(?:=|;|,|\)|\[)|\s*\)\s*[\w(*])', s):
        for n in narrow[m.group(1)]: res.append((m.start(1), m.end(1), n, "type"))
    return res

def mutants(src):
    s = strip(src)
    res = []
    def add(b, e, new, kind):
        if src[b:e] != new: res.append((b, e, new, kind))
    for pat, news in [(r'(?<![<\-])<(?![<=])(?=[^>\n]*[;){&|?])', ['<=']), (r'(?<!<)<=', ['<', '==']), (r'(?<![>\-])>(?![>=])', ['>=']), (r'(?<!>)>=', ['>', '==']),
                      (r'(?<![=!<>])==(?!=)', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']),
                      (r'(?<=[\w)\]]) \+ (?=[\w(&])', [' - ']), (r'(?<=[\w)\]]) - (?=[\w(&])', [' + ']), (r'\+=', ['-=', '=']), (r'-=', ['+=', '=']),
                      (r'\+\+', ['--']), (r'--(?!>)', ['++']), (r'(?<=[\w)\]]) & (?=[\w(~])', [' | ']), (r'(?<=[\w)\]]) \| (?=[\w(])', [' & ']),
                      (r'<<(?!=)', ['>>']), (r'>>(?!=)', ['<<']), (r'(?<=[\w)\]]) \* (?=[\w(])', [' / ']), (r'(?<=[\w)\]]) / (?=[\w(])', [' * ']), (r'(?<=[\w)\]]) % (?=[\w(])', [' / ']),
                      (r'(?<=[(\s=&|])!(?=[\w(*])', [''])]:
        for m in re.finditer(pat, s):
            for n in news: add(m.start(), m.end(), n, "op")
    for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)([uUlL]*)(?![\w.])', s):
        v = int(m.group(1), 0)
        for n in {v + 1, v - 1 if v > 0 else 1}: add(m.start(1), m.end(1), str(n), "const")
    for m in re.finditer(r'\bif\s*\(', s):
        i, d = m.end(), 1
        while i < len(s) and d:
            d += {"(": 1, ")": -1}.get(s[i], 0); i += 1
        for n in ("1", "0"): add(m.end(), i - 1, n, "cond")
    for m in re.finditer(r'^[ \t]*((?:[\w*(][^;{}\n]*?)\s*);[ \t]*\r?$', s, re.M):
        t = m.group(1).strip()
        if re.match(r'(typedef|extern|static|const|struct|enum|union|goto|case|default|else|do|while|for|if)\b', t): continue
        if t in ("break", "continue"): add(m.start(1), m.end(1), "", "del"); continue
        if t.startswith("return"):
            continue
        if re.match(r'[\w\s*]+\s+\**\w+\s*(=|$|\[)', t) and not re.match(r'\*?\w[\w.>\-\[\]]*\s*[-+|&]?=', t): continue   # a declaration
        add(m.start(1), m.end(1), "", "del")
    for m in re.finditer(r'\bsizeof\s*\(([^()]*)\)', s): add(m.start(), m.end(), "1", "sizeof")
    for m in re.finditer(r'\b(true|false)\b', s): add(m.start(), m.end(), {"true": "false", "false": "true"}[m.group(1)], "bool")
    seen, out = set(), []
    for r in res:
        if r[:3] not in seen: seen.add(r[:3]); out.append(r)
    return out

def q(cmd, timeout=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace")

def main():
    f, checks = sys.argv[1], sys.argv[2].split(",")
    a = sys.argv[3:]
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    jobs, nmax, outf = int(opt("-j", "5")), int(opt("-n", "100000")), opt("-o", W + "/" + f.replace("/", "_") + ".jsonl")
    base = W + "/" + f.replace("/", "_")
    shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
    R.BUILD = W + "/build"; os.makedirs(R.BUILD, exist_ok=True)
    prep = {}
    for c in checks:
        R.build_check(c)
        src = R.glob.glob(os.path.join(V, "checks", c + "_*.cpp"))[0]
        d = R.directives(src)
        lib, gen, key = R.build_lib(d["variant"])
        san = R.ASAN if "-fsanitize=address" in R.VARIANTS[d["variant"]] else []
        objs = R.build_engine(san, ["pbt.cpp", "intercept.cpp"])
        o = os.path.join(base, c + ".o")
        R.sh([R.CXX] + R.ENGINE_FLAGS + san + ["-D_DEBUG", "-D_GNU_SOURCE"] + d["cflags"].split() + ["-I", V + "/pbt", "-I", V + "/checks", "-I", R.REPO + "/inc", "-I", gen, "-c", src, "-o", o])
        objs = R.build_extra(d, san, ["-I", V + "/checks", "-I", R.REPO + "/inc", "-I", gen], os.path.join(base, c)) + objs
        prep[c] = (d, lib, gen, san, objs, o)
    text = open(os.path.join(R.REPO, f), newline="").read()
    ms = types(text) if opt("-k", "") == "type" else mutants(text)
    random.Random(1).shuffle(ms); ms = sorted(ms[:nmax])
    gen0 = prep[checks[0]][2]
    def digest(path, variants):
        h = ""
        for extra in variants:
            o = path + ".cmp.o"
            rc, out = q([R.CC] + [x for x in R.BASE if x != "-g"] + ["-O2"] + extra + ["-I", R.REPO + "/inc", "-I", gen0, "-I", os.path.dirname(os.path.join(R.REPO, f)), "-c", path, "-o", o], 60)
            if rc: return None
            h += hashlib.md5(open(o, "rb").read()).hexdigest(); os.unlink(o)
        return h
    vs = [[]] + ([["-D_LCU_MEM_CHECK_FEATURE_ENABLE=1"]] if any(prep[c][0]["variant"] == "memcheck" for c in checks) else [])
    os.makedirs(base + "/b"); ref = base + "/b/" + os.path.basename(f)
    open(ref, "w", newline="").write(text)
    d0 = digest(ref, vs)
    objname = f.replace("/", "_")[:-2] + ".o"
    lock = threading.Lock(); stats = {}
    of = open(outf, "w")
    def one(k):
        b, e, new, kind = ms[k]
        wd = "%s/%d" % (base, k); os.makedirs(wd)
        p = wd + "/" + os.path.basename(f)
        open(p, "w", newline="").write(text[:b] + new + text[e:])
        ln = text.count("\n", 0, b) + 1
        rec = {"line": ln, "kind": kind, "old": text[b:e], "new": new, "src": text.split("\n")[ln - 1].strip()}
        dg = digest(p, vs)
        if dg is None: rec["r"] = "nocompile"
        elif dg == d0: rec["r"] = "same"
        else:
            rec["r"] = "SURVIVED"; objs = {}
            for c in checks:
                d, lib, gen, san, eng, o = prep[c]
                var = d["variant"]
                if var not in objs:
                    mo = "%s/%s-%s" % (wd, var, objname)
                    rc, out = q([R.CC] + R.VARIANTS[var] + ["-I", os.path.dirname(os.path.join(R.REPO, f)), "-I", R.REPO + "/inc", "-I", gen, "-c", p, "-o", mo], 60)
                    if rc: rec["r"] = "nocompile"; break
                    q(["objcopy", "--redefine-syms=" + os.path.dirname(lib) + "/redirect.txt", mo])
                    objs[var] = mo
                # the mutated object first, then the rest of the library without the original one
                ml = "%s/%s.a" % (wd, var)
                if not os.path.exists(ml):
                    shutil.copy(lib, ml); q(["ar", "d", ml, objname]); q(["ar", "r", ml, objs[var]])
                exe = wd + "/" + c
                rc, out = q([R.CXX] + san + ["-rdynamic", "-Wl,-u,strreplace", o] + eng + [ml, "-lpthread", "-ldl"] + d["libs"].split() + ["-o", exe], 120)
                if rc: rec["r"] = "nolink"; break
                env = dict(R.ENV); env.update(PBT_NOSHRINK="1", PBT_CAP_S=opt("-cap", "40"))
                env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:exitcode=78:detect_stack_use_after_return=0:quarantine_size_mb=16:handle_abort=0:max_malloc_fill_size=4096:malloc_fill_byte=190:symbolize=0:hard_rss_limit_mb=3000:allow_user_segv_handler=1:check_initialization_order=0:intercept_strlen=1:strict_string_checks=0:detect_odr_violation=0"
                rc, out = q([exe, "--seed", "1", "--tier", "quick", "--out", wd], 400, env)
                os.unlink(exe)
                if rc == 1 and "VIOLATION" in out: rec["r"] = "killed"; rec["by"] = c; m = re.search(r"confirmed failure in .*", out); rec["msg"] = m.group(0)[:150] if m else ""; break
                if rc != 0: rec["r"] = "ERROR"; rec["by"] = c; rec["msg"] = "rc %d " % rc + out[-400:]; break
                if "unconfirmed" in out: rec["unconf"] = out[-300:]
        shutil.rmtree(wd, ignore_errors=True)
        with lock:
            stats[rec["r"]] = stats.get(rec["r"], 0) + 1
            of.write(json.dumps(rec) + "\n"); of.flush()
    with cf.ThreadPoolExecutor(jobs) as ex: list(ex.map(one, range(len(ms))))
    shutil.rmtree(base, ignore_errors=True)
    print(f, stats)

main()
