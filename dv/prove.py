"""Discharging obligations: z3 in process, then a portfolio of external provers on the SMT-LIB text."""
import os, subprocess, sys, tempfile, time, multiprocessing
import z3
from .sym import consts_of, has_quant

Z3NEW, Z3OLD, CVC5 = "z3-new", "/usr/bin/z3", "cvc5"
QUICK_MS = 4000
EXT_S = 25
MEM_MB = 3000
DEADLINE = 1e18   # no portfolio runs after this time


def relevant(axioms, pc, goal):
    cache = {}
    cur = set(consts_of(goal, cache))
    for c in pc:
        cur |= consts_of(c, cache)
    rest = []
    out = []
    for a in axioms:
        cs = consts_of(a, cache)
        if not cs:
            out.append(a)
        else:
            rest.append((a, cs))
    chg = True
    while chg:
        chg = False
        nr = []
        for a, cs in rest:
            strs = [c for c in cs if c.startswith("str:")]
            if (len(strs) == len(cs) and all(c in cur for c in cs)) or (len(strs) != len(cs) and (cs & cur)):
                out.append(a)
                if not cs <= cur:
                    cur |= cs
                    chg = True
            else:
                nr.append((a, cs))
        rest = nr
    return out


def model_dict(m, limit=400):
    d = {}
    for x in m.decls()[:limit]:
        try:
            d[x.name()] = str(m[x])[:300]
        except Exception:
            pass
    return d


def _die_with_parent():
    import ctypes
    ctypes.CDLL(None).prctl(1, 9)   # PR_SET_PDEATHSIG


def one(axioms, ob):
    """-> (status, backend, seconds, model, definite)"""
    t0 = time.time()
    if z3.is_true(ob.goal):
        return ("proved", "simplifier", 0.0, None, True)
    ax = relevant(axioms, ob.pc, ob.goal)
    fs = ax + list(ob.pc) + [z3.Not(ob.goal)]
    quant = any(has_quant(f) for f in fs)
    s = z3.Solver()
    s.set("timeout", QUICK_MS)
    for f in fs:
        s.add(f)
    r = s.check()
    if r == z3.unsat:
        return ("proved", "z3-%s" % z3.get_version_string(), time.time() - t0, None, True)
    if r == z3.sat:
        return ("failed", "z3", time.time() - t0, model_dict(s.model()), True)
    if time.time() > DEADLINE:
        return ("unknown", "time budget", time.time() - t0, None, False)
    # portfolio
    smt = s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(smt)
        name = f.name
    try:
        procs = []
        lim = ["-T:%d" % EXT_S]
        cmds = [("z3-new seed 7", [Z3NEW] + lim + ["smt.random_seed=7", name]),
                ("z3-4.8", [Z3OLD] + lim + [name]),
                ("z3-new no-mbqi", [Z3NEW] + lim + ["smt.mbqi=false", "smt.auto_config=false", name]),
                ("cvc5", [CVC5, "--lang=smt2", "--tlimit=%d" % (EXT_S * 1000), name])]
        for nm, c in cmds:
            procs.append((nm, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, preexec_fn=_die_with_parent)))
        res = None
        live = list(procs)
        end = time.time() + EXT_S + 2
        sat = None
        while live and time.time() < end and res is None:
            for nm, p in list(live):
                if p.poll() is not None:
                    live.remove((nm, p))
                    o = p.stdout.read().strip().split("\n")[0]
                    if o == "unsat":
                        res = ("proved", nm)
                    elif o == "sat" and "cvc5" not in nm and "no-mbqi" not in nm:
                        sat = nm
                        res = ("failed", nm)
            time.sleep(0.02)
        for nm, p in procs:
            if p.poll() is None:
                p.kill()
            p.wait()
        dt = time.time() - t0
        if res and res[0] == "proved":
            return ("proved", res[1], dt, None, True)
        if res:
            return ("failed", res[1], dt, None, True)
        return ("unknown", "portfolio", dt, None, False)
    finally:
        os.unlink(name)


_work = None


def _run(i):
    axioms, obs = _work
    try:
        return (i,) + one(axioms, obs[i])
    except Exception as e:
        return (i, "unknown", "error %s" % e, 0.0, None, False)


def discharge(axioms, obs, jobs=None):
    """proves all obligations (fork workers)"""
    global _work
    import gc
    todo = []
    seen = {}
    for i, o in enumerate(obs):
        if z3.is_true(o.goal):
            o.status, o.backend, o.time, o.model, o.definite = "proved", "simplifier", 0.0, None, True
        else:
            todo.append(i)
    if not todo:
        return
    jobs = jobs or min(8, os.cpu_count() or 4)
    _work = (axioms, obs)
    if len(todo) <= 2 or jobs == 1:
        rs = [_run(i) for i in todo]
    else:
        rs = parallel(todo, jobs)
    for r in rs:
        o = obs[r[0]]
        o.status, o.backend, o.time, o.model, o.definite = r[1:]


def parallel(todo, jobs, run=None, dead=lambda i: (i, "unknown", "worker died", 0.0, None, False)):
    """own fork pool: z3 objects are inherited by the children (no pickling). No threads in the parent: the cyclic
    collector could otherwise release z3 objects concurrently. A worker that dies loses only its current obligation."""
    import gc, pickle, select
    run = run or _run
    jobs = min(jobs, len(todo))
    gc.collect()
    gc.disable()
    try:
        queue = list(todo)[::-1]
        workers = {}

        def spawn():
            cr, cw = os.pipe()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(cw)
                    os.close(r)
                    for o in workers.values():
                        os.close(o[1])
                    with os.fdopen(w, "wb") as f:
                        while True:
                            b = os.read(cr, 4)
                            if len(b) < 4:
                                break
                            f.write(pickle.dumps(run(int.from_bytes(b, "little"))))
                            f.flush()
                finally:
                    os._exit(0)
            os.close(cr)
            os.close(w)
            workers[r] = [pid, cw, None, os.fdopen(r, "rb")]
            give(r)

        def give(r):
            o = workers[r]
            if queue:
                o[2] = queue.pop()
                try:
                    os.write(o[1], o[2].to_bytes(4, "little"))
                except BrokenPipeError:
                    pass
            else:
                o[2] = None
                os.close(o[1])
                o[1] = -1

        res = []
        for _ in range(jobs):
            spawn()
        while workers:
            rd, _, _ = select.select(list(workers), [], [])
            for r in rd:
                o = workers[r]
                try:
                    res.append(pickle.load(o[3]))
                    give(r)
                except (EOFError, pickle.UnpicklingError):
                    if o[2] is not None:
                        res.append(dead(o[2]))
                    if o[1] >= 0:
                        os.close(o[1])
                    o[3].close()
                    os.waitpid(o[0], 0)
                    del workers[r]
                    if queue:
                        spawn()
        return res
    finally:
        gc.enable()


class ObR:
    """what remains of an obligation outside the process that generated it"""

    def __init__(self, run, o):
        self.run, self.name, self.kind, self.status, self.backend, self.time, self.model, self.definite = run, o.name, o.kind, o.status, o.backend, o.time, o.model, o.definite
        self.havoc = bool((o.info or {}).get("havoc"))
        self.quant = has_quant(o.goal) or any(has_quant(c) for c in o.pc)


def run_jobs(runs, select, sat_known):
    """generates and discharges the obligations of every recorded verification job, one process per job"""
    todo = [(R, j) for R in runs for j in range(len(R.jobs))] + [(R, None) for R in runs if R.eng.obs]   # None: lemmas stated by the specification itself

    def work(i):
        R, j = todo[i]
        E = R.eng
        nob = len(E.obs) if j is not None else 0
        R.results, R.unsupported, E.notes = [], [], []
        E.trusted, E.inlined, E.used_contracts, E.dropped = {}, {}, {}, {}
        t = time.time()
        if j is not None:
            R.play(j)
        gen = time.time() - t
        obs = [o for o in E.obs[nob:] if select(o)]
        discharge(E.axioms, obs, 3 if len(obs) > 24 else 1)
        res = [dict(label=r["label"], paths=r["paths"], obligations=r["obligations"], pre=sat_known(E.axioms, [r["pre"]]), reach=sat_known(E.axioms, r["reach"])) for r in R.results]
        return (i, dict(obs=[ObR(R.name, o) for o in obs], results=res, unsupported=R.unsupported, notes=E.notes, trusted=E.trusted, inlined=list(E.inlined), used=E.used_contracts, dropped=E.dropped, gen=gen))

    def dead(i):
        R, j = todo[i]
        return (i, dict(obs=[], results=[], unsupported=[("lemmas" if j is None else R.jobs[j][0].qn, "the verifier process ended", "")], notes=[], trusted={}, inlined=[], used={}, dropped={}, gen=0))

    def safe(i):
        try:
            return work(i)
        except Exception as ex:
            import traceback
            R, j = todo[i]
            r = dead(i)
            r[1]["unsupported"] =  [("lemmas" if j is None else R.jobs[j][0].qn, "%s: %s" % (type(ex).__name__, ex), traceback.format_exc())]
            return r
    if not todo:
        return []
    out = parallel(list(range(len(todo))), min(8, os.cpu_count() or 4), safe, dead)
    out.sort(key=lambda r: r[0])
    return [(todo[i][0], r) for i, r in out]
