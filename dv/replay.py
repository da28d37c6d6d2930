"""Executable contracts on the real code: builds the library from /repo's current sources (without MPI, PETSc and
Python) and runs a driver against it. Used to find a failing input for a refuted obligation and as the bounded stand-in
for functions outside the verifier's reach."""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, tempfile, time
from . import front

OBJ = os.path.join(front.BUILD, "obj" if front.REPO == "/repo" else "obj_" + hashlib.sha1(front.REPO.encode()).hexdigest()[:8])
CXX = "g++"
FLAGS = ["-std=c++17", "-O0", "-w", "-fPIC", "-DBOOST_ALL_DYN_LINK", "-DPRECICE_NO_MPI", "-DPRECICE_NO_PETSC", "-DPRECICE_NO_PYTHON",
         "-DEIGEN_INITIALIZE_MATRICES_BY_NAN", "-DPRECICE_NO_GINKGO", "-DPRECICE_NO_KOKKOS_KERNELS", "-D_GLIBCXX_ASSERTIONS",
         "-D_GNU_SOURCE", "-DBOOST_ASIO_ENABLE_OLD_SERVICES"]

# compiled with optimisation only because a regular expression dominates the start-up time of every participant
OPT = {"utils/String.cpp": ("-O2",)}


def incs():
    return ["-I" + front.REPO + "/src", "-I" + front.VERIF + "/tool/gen", "-I" + front.REPO + "/thirdparty/fmt/include",
            "-I/usr/include/eigen3", "-I/usr/include/libxml2"]


def sources():
    out = []
    for d, dirs, fs in os.walk(os.path.join(front.REPO, "src")):
        dirs[:] = sorted(x for x in dirs if x not in ("tests", "test", "testing", "drivers", "bindings"))
        for f in sorted(fs):
            if f.endswith(".cpp") and "PetRadial" not in f and "Ginkgo" not in f:
                out.append(os.path.relpath(os.path.join(d, f), os.path.join(front.REPO, "src")))
    return out


_h = {}


def fhash(p):
    if p not in _h:
        try:
            _h[p] = hashlib.sha1(open(p, "rb").read()).hexdigest()
        except OSError:
            _h[p] = "missing"
    return _h[p]


def compile_one(src, key, extra=()):
    """compile with content-hash caching (dependencies from the last depfile)"""
    o = os.path.join(OBJ, key + ".o")
    dep = os.path.join(OBJ, key + ".deps")
    if os.path.exists(o) and os.path.exists(dep):
        try:
            d = json.load(open(dep))
            if all(fhash(p) == h for p, h in d.items()):
                return o, None, True
        except ValueError:
            pass
    tmp = "%s.%d" % (os.path.join(OBJ, key), os.getpid())
    p = subprocess.run([CXX] + FLAGS + list(extra) + incs() + ["-MD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"], capture_output=True, text=True)
    if p.returncode != 0:
        return None, p.stderr[-3000:], False
    txt = open(tmp + ".d").read().replace("\\\n", " ").split(":", 1)[1]
    deps = {x: fhash(x) for x in txt.split() if x.startswith(front.REPO) or x.startswith(front.VERIF)}
    json.dump(deps, open(tmp + ".deps", "w"))
    os.replace(tmp + ".o", o)
    os.replace(tmp + ".deps", dep)
    os.remove(tmp + ".d")
    return o, None, False


def build_lib():
    os.makedirs(OBJ, exist_ok=True)
    srcs = sources()
    res = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(compile_one, os.path.join(front.REPO, "src", s), s.replace("/", "_"), OPT.get(s, ())) for s in srcs]
        fs += [ex.submit(compile_one, os.path.join(front.REPO, "thirdparty/fmt/src", s), "fmt_" + s) for s in ("format.cc", "os.cc")]
        fs += [ex.submit(compile_one, os.path.join(front.VERIF, "tool/gen/precice/impl/versions.cpp"), "versions")]
        res = [f.result() for f in fs]
    errs = [e for _, e, _ in res if e]
    if errs:
        raise RuntimeError("library does not build: " + errs[0][-800:])
    objs = sorted((o for o, _, _ in res), key=lambda o: (not o.endswith('utils_String.cpp.o'), o))
    key = hashlib.sha1("".join(fhash_now(o) for o in objs).encode()).hexdigest()[:16]
    lib = os.path.join(front.BUILD, "lib", key, "libprecice_dv.so")
    if not os.path.exists(lib):
        shutil.rmtree(os.path.join(front.BUILD, "lib"), ignore_errors=True)
        os.makedirs(os.path.dirname(lib))
        p = subprocess.run([CXX, "-shared", "-o", lib + ".tmp"] + objs + ["-lxml2", "-lboost_log", "-lboost_log_setup", "-lboost_thread", "-lboost_filesystem",
                           "-lboost_program_options", "-lboost_system", "-ldl", "-lpthread"], capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError("link failed: " + p.stderr[-1000:])
        os.replace(lib + ".tmp", lib)
    return lib, sum(1 for _, _, c in res if c), len(res)


def fhash_now(p):
    return hashlib.sha1(open(p, "rb").read()).hexdigest()


def build_driver(name, lib):
    src = os.path.join(front.VERIF, "drivers", name + ".cpp")
    o, err, _ = compile_one(src, "driver_" + name)
    if err:
        raise RuntimeError("driver does not build: " + err)
    exe = os.path.join(os.path.dirname(lib), name)
    p = subprocess.run([CXX, o, "-o", exe, "-L" + os.path.dirname(lib), "-lprecice_dv", "-Wl,-rpath," + os.path.dirname(lib), "-lxml2", "-lboost_log",
                        "-lboost_log_setup", "-lboost_thread", "-lboost_filesystem", "-lboost_program_options", "-lboost_system", "-ldl", "-lpthread"], capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError("driver link failed: " + p.stderr[-1000:])
    return exe


def run(prop, drv, seed, budget, log):
    t0 = time.time()
    try:
        lib, cached, total = build_lib()
        exe = build_driver(drv, lib)
    except Exception as e:
        return dict(error="bounded stand-in not available: %s" % str(e)[-1500:])
    tb = time.time() - t0
    d = tempfile.mkdtemp(prefix="dv_%s_" % prop)
    try:
        env = dict(os.environ, OMP_NUM_THREADS="1")
        n = 8
        ps = []
        for i in range(n):
            w = os.path.join(d, "w%d" % i)
            os.makedirs(w)
            ps.append(subprocess.Popen([exe, prop, str(seed * 1000 + i), str(budget)], cwd=w, stdout=open(os.path.join(w, "out"), "w"), stderr=open(os.path.join(w, "err"), "w"), env=env, start_new_session=True))
        end = time.time() + budget + 60
        cases, fails, hung, notes = 0, [], 0, []
        for i, p in enumerate(ps):
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                hung += 1
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
            out = open(os.path.join(d, "w%d" % i, "out"), errors="replace").read()
            m = re.findall(r"^CASES (\d+)", out, re.M)
            cases += int(m[-1]) if m else 0
            notes += [l[5:] for l in out.split("\n") if l.startswith("NOTE ")]
            fails += [l[5:] for l in out.split("\n") if l.startswith("FAIL ")]
            if p.returncode not in (0, 1, -9) and not any(l.startswith("FAIL ") for l in out.split("\n")):
                tail = open(os.path.join(d, "w%d" % i, "err"), errors="replace").read()[-600:]
                fails.append("driver process ended with %s: %s" % (p.returncode, tail))
        r = dict(driver=drv, seed=seed, bound="%d s of randomised executable contracts on 8 processes" % budget, cases=cases, build_s=round(tb, 1),
                 objects_reused="%d of %d" % (cached, total), run_s=round(time.time() - t0 - tb, 1))
        if notes:
            r["notes"] = notes[:5]
        if hung:
            r["hung"] = hung
        if fails:
            r["fail"] = fails[0]
            r["fails"] = fails[:10]
        log("  bounded stand-in %s: %d cases, %d failures (build %.0fs)" % (drv, cases, len(fails), tb))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)
