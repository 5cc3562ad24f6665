"""Builds the harnesses: hilapp (from /repo/hilapp/src when its content is not what was built), the HILA library and
the harness through hilapp and g++ into one shared object per (harness, variant).  Everything is cached by content
hash under /verif/build, so that only what depends on a change is built again."""
import hashlib, os, re, shutil, subprocess, sys, time
import threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
MC = os.path.join(VERIF, "mc")
LIB = os.path.join(REPO, "libraries")
JOBS = os.cpu_count() or 4


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p)
        h.update(b"\0")
    return h.hexdigest()[:24]


_locks, _lk = {}, threading.Lock()
_procs = threading.Semaphore(JOBS)


def lock_for(key):
    with _lk:
        return _locks.setdefault(key, threading.Lock())


_fcache = {}


def fhash(path):
    if path not in _fcache:
        try:
            with open(path, "rb") as f:
                _fcache[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _fcache[path] = "missing"
    return _fcache[path]


def run(cmd, log=None, cwd=None, timeout=1200, env=None):
    with _procs:
        r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    out = r.stdout.decode("utf-8", "replace")
    if log:
        with open(log, "w") as f:
            f.write(" ".join(cmd) + "\n" + out)
    return r.returncode, out


# ---------------------------------------------------------------- hilapp
def hilapp_inputs():
    src = os.path.join(REPO, "hilapp", "src")
    fs = [os.path.join(src, f) for f in sorted(os.listdir(src))] + [os.path.join(REPO, "hilapp", "Makefile"), os.path.join(REPO, "libraries", "hila_signatures.h")]
    return [f for f in fs if os.path.isfile(f)]


def hilapp():
    with lock_for("hilapp"):
        return _hilapp()


def _hilapp():
    """path of a hilapp built from the current sources"""
    ins = hilapp_inputs()
    key = sha(*[os.path.basename(f) + fhash(f) for f in ins])
    dst = os.path.join(BUILD, "hilapp", key, "hilapp")
    if os.path.exists(dst):
        return dst
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    # the project's own build records the content it was made from
    objs = {}
    man = os.path.join(REPO, "_build", ".manifest")
    built = os.path.join(REPO, "hilapp", "bin", "hilapp")
    if os.path.exists(man) and os.path.exists(built):
        rec = {}
        for line in open(man, errors="replace"):
            h, f = line.rstrip("\n").split("  ", 1)
            rec[f] = h
        names = [os.path.relpath(f, REPO) for f in ins]
        same = all(rec.get(n) == fhash(f) for n, f in zip(names, ins) if f.endswith((".cpp", ".h", "Makefile")))
        extra = [n for n in rec if n.startswith("hilapp/src/") and n not in names]
        if same and not extra and os.path.getmtime(built) >= 1:
            # content recorded at the last build is the current content: the binary is the build of these sources
            shutil.copy2(built, dst + ".c")
            os.replace(dst + ".c", dst)
            return dst
        # the same for single object files, as long as all headers are as recorded
        ok = lambda f: rec.get(os.path.relpath(f, REPO)) == fhash(f)
        if not extra and all(ok(f) for f in ins if f.endswith((".h", "Makefile"))):
            for f in ins:
                o = os.path.join(REPO, "hilapp", "build", os.path.basename(f)[:-4] + ".o")
                if f.endswith(".cpp") and ok(f) and os.path.exists(o):
                    objs[os.path.basename(o)] = o
    top = os.path.join(BUILD, "hilapp", "src.%d" % os.getpid())
    shutil.rmtree(top, ignore_errors=True)
    tmp = top + "/hilapp"
    os.makedirs(top + "/libraries")
    shutil.copy(os.path.join(REPO, "libraries", "hila_signatures.h"), top + "/libraries")
    os.makedirs(tmp + "/build")
    os.makedirs(tmp + "/bin")
    shutil.copytree(os.path.join(REPO, "hilapp", "src"), tmp + "/src")
    shutil.copy(os.path.join(REPO, "hilapp", "Makefile"), tmp)
    for r, ds, fs in os.walk(top):      # so that make keeps the copied objects
        for f in fs:
            os.utime(os.path.join(r, f), (1e9, 1e9))
    for b, o in objs.items():
        shutil.copyfile(o, tmp + "/build/" + b)
    rc, out = run(["make", "-j%d" % JOBS, "LLVM_VERSION=18", "GIT_SHA=local", "build/hilapp"], cwd=tmp)
    if rc != 0 or not os.path.exists(tmp + "/build/hilapp"):
        raise BuildError("hilapp does not build:\n" + out[-3000:])
    os.replace(tmp + "/build/hilapp", dst)
    shutil.rmtree(top, ignore_errors=True)
    return dst


# ---------------------------------------------------------------- include scan
_inc = re.compile(rb'^\s*#\s*include\s*["<]([^">]+)[">]', re.M)
_deps = {}


def deps(path, incdirs):
    """transitive set of included files (conservative: ignores conditionals)"""
    seen, todo = set(), [os.path.realpath(path)]
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        k = (f, tuple(incdirs))
        if k not in _deps:
            res = []
            try:
                txt = open(f, "rb").read()
            except OSError:
                txt = b""
            for m in _inc.findall(txt):
                n = m.decode()
                for d in [os.path.dirname(f)] + incdirs:
                    c = os.path.join(d, n)
                    if os.path.isfile(c):
                        res.append(os.path.realpath(c))
                        break
            _deps[k] = res
        todo += _deps[k]
    return sorted(seen)


# ---------------------------------------------------------------- variants
def variant(name):
    """name: <target><dim>[+DEFINE[=V]]*  with target v (vanilla), a (AVX2), o (OpenMP)"""
    parts = name.split("+")
    t, dim = parts[0][0], parts[0][1]
    defs = ["-D" + p for p in parts[1:] if p not in ("tsan", "nogen", "asan", "O0")]
    v = dict(name=name, defs=["-DNDIM=" + dim] + defs, hopts=[], cxx=["-std=c++17", "-O1", "-mavx2", "-mfma"], layout="setup_layout_generic")
    if t == "v":
        v["cxx"] += ["-fno-rtti"]
    elif t == "a":
        v["defs"] += ["-DAVX", "-DSUBNODE_LAYOUT"]
        v["hopts"] = ["-target:AVX"]
        v["cxx"] += ["-fabi-version=0"]
        v["layout"] = "setup_layout_vector"
    elif t == "o":
        v["defs"] += ["-DOPENMP"]
        v["hopts"] = ["-target:openmp", "-DOPENMP"]
        v["cxx"] += ["-fno-rtti", "-fopenmp"]
        rc, out = run(["bash", "-c", "echo | g++ -xc++ --std=c++17 -Wp,-v - 2>&1 | grep '^ /'"])
        v["hopts"] += ["-I" + x.strip() for x in out.splitlines() if x.strip()]
    if "O0" in parts:
        v["cxx"] = [x if x != "-O1" else "-O0" for x in v["cxx"]]
    if "tsan" in parts:
        v["cxx"] += ["-fsanitize=thread"]
    return v


LIBSRC = ["initialize", "input", "cmdline", "random", "lattice", "map_node_layout", "memalloc", "timing", "test_gathers",
          "com_mpi", "memory_pool", "fft"]
INC = ["", "/plumbing", "/datatypes", "/tools"]


def compile_one(src, v, happ, extra_inc=(), tag="", extra_cxx=(), use_hilapp=True):
    incdirs = [LIB + d for d in INC] + list(extra_inc) + [MC + "/include"]
    ds = deps(src, incdirs)
    key = sha(fhash(happ), v["name"], repr(v), repr(extra_cxx), *[f.replace(REPO, "R") + fhash(f) for f in ds])
    base = os.path.splitext(os.path.basename(src))[0] + tag
    d = os.path.join(BUILD, "obj", key)
    obj = os.path.join(d, base + ".o")
    with lock_for(obj):
        return _compile(src, v, happ, extra_cxx, use_hilapp, incdirs, base, d, obj)


def _compile(src, v, happ, extra_cxx, use_hilapp, incdirs, base, d, obj):
    if os.path.exists(obj):
        return obj
    os.makedirs(d, exist_ok=True)
    inc = ["-I" + x for x in incdirs]
    cpt = os.path.join(d, base + ".cpt")
    if use_hilapp:
        cmd = [happ] + v["hopts"] + ["-std=c++17"] + v["defs"] + inc + [src, "-o", cpt]
        rc, out = run(cmd, log=cpt + ".log")
        if rc != 0 or not os.path.exists(cpt):
            raise BuildError("hilapp fails on %s (%s):\n%s" % (src, v["name"], out[-3000:]))
    else:
        cpt = src
    tmp = obj + ".%d.tmp" % os.getpid()
    # the explorer's mpi.h comes before the system's
    cmd = ["g++", "-x", "c++", "-fPIC", "-fno-gnu-unique", "-w", "-I" + MC + "/include"] + v["defs"] + ["-DMC_HARNESS"] + inc + v["cxx"] + list(extra_cxx) + ["-c", cpt, "-o", tmp]
    rc, out = run(cmd, log=obj + ".log")
    if rc != 0:
        errs = "\n".join(l for l in out.splitlines() if "error" in l)[:3000]
        raise BuildError("compilation of %s (%s) fails:\n%s" % (src, v["name"], errs))
    os.replace(tmp, obj)
    return obj


WRAPS = ["exit", "abort", "__assert_fail", "free", "clock_gettime", "signal"]


class ProgramError(Exception):
    """a generated program which the translator or the compiler does not accept"""


def build_so(harness, vname, libs=(), defs=(), gen=None):
    """harness: file name in /verif/harness (without .cpp); gen: (groups, thorough, programs per file) of generated programs"""
    happ = hilapp()
    v = variant(vname)
    jobs = []
    hs = os.path.join(VERIF, "harness", harness + ".cpp")
    hv = dict(v)
    hv["defs"] = v["defs"] + ["-D" + x for x in defs]
    with ThreadPoolExecutor(JOBS) as ex:
        f = [ex.submit(compile_one, hs, hv, happ, (VERIF + "/harness",), "", ("-Dmain=mc_main_",) if 0 else ())]
        for s in LIBSRC + [v["layout"]]:
            f.append(ex.submit(compile_one, os.path.join(LIB, "plumbing", s + ".cpp"), v, happ))
        f.append(ex.submit(compile_one, os.path.join(LIB, "datatypes", "extended.cpp"), dict(v, cxx=[x if x != "-O1" else "-O0" for x in v["cxx"]]), happ))
        for s in libs:
            f.append(ex.submit(compile_one, os.path.join(LIB, s), v, happ))
        objs = [x.result() for x in f]
        if gen:
            import progen
            files, n = progen.generate(os.path.join(BUILD, "gen", "%s-%d-%d%s" % ("-".join(gen[0]), gen[1], gen[2], vname[0])), *gen, vname[0])
            inc = (VERIF + "/harness", VERIF + "/harness/prog")
            f = []
            for g in files:
                ref = g.endswith("_ref.cpp")
                f.append(ex.submit(compile_one, g, dict(v, cxx=[x if x != "-O1" else "-O0" for x in v["cxx"]]) if ref else v, happ, inc, "", (), not ref))
            try:
                objs += [x.result() for x in f]
            except BuildError as e:
                if "Killed" in str(e) or "out of memory" in str(e) or "No space left" in str(e):
                    raise
                raise ProgramError(str(e))
    key = sha(*objs)
    so = os.path.join(BUILD, "so", "%s-%s-%s.so" % (harness, re.sub(r"[^A-Za-z0-9]", "_", vname), key))
    if not os.path.exists(so):
        os.makedirs(os.path.dirname(so), exist_ok=True)
        tmp = so + ".%d" % os.getpid()
        cmd = ["g++", "-shared", "-o", tmp, "-Wl,-Bsymbolic", "-nostartfiles" if 0 else "-Wl,-z,lazy"] + ["-Wl,--wrap=" + w for w in WRAPS] + objs + ["-lfftw3", "-lfftw3f", "-lm"]
        rc, out = run(cmd)
        if rc != 0:
            raise BuildError("link of %s: %s" % (harness, out[-2000:]))
        os.replace(tmp, so)
    return so


def mcrun():
    srcs = [MC + "/mcrt.cpp", MC + "/mcomp.inc", MC + "/include/mpi.h", MC + "/include/mc.h"]
    key = sha(*[fhash(f) for f in srcs])
    exe = os.path.join(BUILD, "mcrun-" + key)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        tmp = exe + ".%d" % os.getpid()
        rc, out = run(["g++", "-std=c++17", "-O2", "-g", "-w", "-I" + MC, MC + "/mcrt.cpp", "-o", tmp, "-rdynamic", "-ldl", "-lpthread"])
        if rc != 0:
            raise BuildError("mcrun: " + out[-2000:])
        os.replace(tmp, exe)
    return exe


if __name__ == "__main__":
    t = time.time()
    print(mcrun())
    for a in sys.argv[1:]:
        h, v = a.split(":")
        print(build_so(h, v), "%.1f s" % (time.time() - t))
