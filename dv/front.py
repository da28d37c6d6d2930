"""Front end: run cxx2json on the real sources and index the extracted AST."""
import hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DV_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
TOOL = os.path.join(BUILD, "cxx2json")
CLANGXX = "/usr/bin/clang++-18"

DEFS = ["-std=c++17", "-DNDEBUG", "-DPRECICE_NO_MPI", "-DPRECICE_NO_PETSC", "-DPRECICE_NO_PYTHON",
        "-DPRECICE_NO_GINKGO", "-DPRECICE_NO_KOKKOS_KERNELS", "-DBOOST_ALL_DYN_LINK",
        "-DBOOST_GEOMETRY_DISABLE_DEPRECATED_03_WARNING", "-DBOOST_ASIO_ENABLE_OLD_SERVICES", "-D_GNU_SOURCE"]


def incs():
    return ["-I" + REPO + "/src", "-I" + VERIF + "/tool/gen", "-I" + REPO + "/thirdparty/fmt/include",
            "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/libxml2"]


def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "tool", "cxx2json.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    stamp = TOOL + ".sha"
    if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    flags = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
    tmp = TOOL + ".%d" % os.getpid()
    subprocess.check_call([CLANGXX] + flags + ["-O1", "-w", src, "-o", tmp, "-L/usr/lib/llvm-18/lib",
                                               "-l:libclang-cpp.so.18.1", "-lLLVM-18"])
    os.replace(tmp, TOOL)
    open(stamp, "w").write(h)


class ExtractError(Exception):
    pass


def extract(files, roots, extra="", name="tu"):
    """files: paths relative to /repo/src, included in one TU. extra: text appended (explicit instantiations)."""
    build_tool()
    d = os.path.join(BUILD, "tu")
    os.makedirs(d, exist_ok=True)
    tu = os.path.join(d, name + "_%d.cpp" % os.getpid())
    out = os.path.join(d, name + "_%d.json" % os.getpid())
    with open(tu, "w") as f:
        for x in files:
            f.write('#include "%s/src/%s"\n' % (REPO, x))
        f.write(extra + "\n")
    cmd = [TOOL, out, REPO + "/src:" + tu, ",".join(roots), tu, "--"] + DEFS + ["-w"] + incs()
    p = subprocess.run(cmd, capture_output=True, text=True)
    try:
        if p.returncode != 0 or not os.path.exists(out):
            raise ExtractError("cxx2json failed:\n" + p.stderr[-4000:])
        data = json.load(open(out))
    finally:
        for x in (tu, out):
            if os.path.exists(x):
                os.remove(x)
    return Program(data)


_cache = {}


def norm(qn):
    """strip template arguments from a qualified name"""
    r = _cache.get(qn)
    if r is not None:
        return r
    # operator names at the end
    m = re.search(r"(?:^|::)(operator\W.*|operator (?:new|delete|bool).*|operator .*)$", qn)
    tail = ""
    s = qn
    if m and not re.search(r"operator[<>\-=+!*/&|^%\[\(~, ].*::", qn[m.start():] if False else ""):
        # find last '::operator'
        i = qn.rfind("::operator")
        if i >= 0:
            # make sure not inside <...>
            s, tail = qn[:i], qn[i:]
        elif qn.startswith("operator"):
            s, tail = "", qn
    out = []
    depth = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == "<":
            depth += 1
        elif c == ">":
            if i > 0 and s[i - 1] == "-":
                pass
            else:
                depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    r = "".join(out) + tail
    r = r.replace("std::__cxx11::", "std::").replace("std::__1::", "std::")
    _cache[qn] = r
    return r


class Program:
    def __init__(self, d):
        self.types = d["types"]
        self.fns = {f["id"]: f for f in d["functions"]}
        self.by_qn = {}
        for f in d["functions"]:
            f["nq"] = norm(f["qn"])
            self.by_qn.setdefault(f["nq"], []).append(f)
        self.recs = {}
        self.rec_by_qn = {}
        for r in d["records"]:
            self.recs[r["rid"]] = r
            self.rec_by_qn.setdefault(norm(r["qn"]), []).append(r)
        self.lam = {}
        for f in d["functions"]:
            if "lam" in f:
                self.lam.setdefault(f["lam"], []).append(f)

    def fn(self, qn, nargs=None, pred=None):
        c = [f for f in self.by_qn.get(qn, []) if (nargs is None or len(f["params"]) == nargs) and (pred is None or pred(f))]
        if len(c) == 0:
            raise ExtractError("function %s not found in the extracted sources" % qn)
        return c[0]

    # type helpers
    def ty(self, i):
        return self.types[i]

    def deref(self, i):
        t = self.types[i]
        while t["k"] in ("l", "x"):
            i = t["t"]
            t = self.types[i]
        return i

    def tstr(self, i, depth=0):
        t = self.types[i]
        k = t["k"]
        if k == "b" or k == "e" or k == "o":
            return t["n"]
        if k == "r":
            s = norm(t["n"])
            if "a" in t and depth < 4:
                s += "<" + ",".join(self.targ(a, depth + 1) for a in t["a"]) + ">"
            return s
        if k == "p":
            return self.tstr(t["t"], depth) + "*"
        if k == "l":
            return self.tstr(t["t"], depth) + "&"
        if k == "x":
            return self.tstr(t["t"], depth) + "&&"
        if k == "a":
            return self.tstr(t["t"], depth) + "[%d]" % t["sz"]
        return k

    def targ(self, a, depth=0):
        if "t" in a:
            return self.tstr(a["t"], depth)
        if "v" in a:
            return a["v"]
        if "p" in a:
            return ",".join(self.targ(x, depth) for x in a["p"])
        return "?"
