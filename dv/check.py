"""Check runner: python3-vt -m dv.check <property> [quick|thorough]"""
import importlib, json, os, sys, time, traceback, hashlib
import z3
from . import front, prove, replay
from .contract import Run
from .sym import has_quant

VERIF = front.VERIF
SPECS = json.load(open(os.path.join(VERIF, "spec", "index.json")))


def sat_known(axioms, pcs):
    """some path condition is satisfiable (quantifier-free part)"""
    unknown = False
    for pc in sorted(pcs, key=len):
        s = z3.Solver()
        s.set("timeout", 3000)
        for f in pc:
            if not has_quant(f):
                s.add(f)
        r = s.check()
        if r == z3.sat:
            return True
        if r == z3.unknown:
            unknown = True
    return True if unknown else False


def select(prop, ob):
    """obligation belongs to this property: untagged, or tagged with it"""
    i = ob.name.find("[C")
    return i < 0 or ob.name[i + 1:i + 4] == prop


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


class Log:
    def __init__(self, prop):
        self.lines = []
        self.prop = prop

    def __call__(self, *a):
        s = " ".join(str(x) for x in a)
        self.lines.append(s)
        print(s, flush=True)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    prove.DEADLINE = t0 + (200 if tier == "quick" else 1200)
    spec = SPECS[prop]
    log = Log(prop)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    runs, errors = [], []
    assumptions = list(spec.get("assumptions", []))
    Run.DEFER = True
    for modname in spec["modules"]:
        try:
            if os.environ.get("DV_INNER") == "noproof":
                raise RuntimeError("the verifier process crashed twice")
            mod = importlib.import_module("spec." + modname)
            runs += mod.build(prop, tier)
            assumptions += getattr(mod, "ASSUMPTIONS", [])
        except Exception as ex:   # extraction break, engine limits: no verdict from the verifier
            errors.append("%s: %s: %s" % (modname, type(ex).__name__, str(ex)[-600:]))
            if os.environ.get("DV_DEBUG"):
                traceback.print_exc()
    obs_all, failed, undecided = [], [], []
    functions, unsupported, vac, inlined = [], [], [], set()
    trusted, backends, solver_time, t_gen = {}, {}, 0.0, time.time() - t0

    def count(d, k, n):
        d[k] = d.get(k, 0) + n
    for R, r in prove.run_jobs(runs, lambda o: select(prop, o), sat_known):
        t_gen += r["gen"]
        for o in r["obs"]:
            obs_all.append(o)
            solver_time += o.time
            if o.status == "proved":
                count(backends, o.backend, 1)
            elif o.status == "failed" and o.definite and not o.havoc and not o.quant:
                failed.append(o)
            else:
                undecided.append(o)
        for q in r["results"]:
            functions.append("%s: %s (%d paths, %d obligations)" % (R.name, q["label"], q["paths"], q["obligations"]))
            if not q["pre"]:
                vac.append("%s: precondition of %s is unsatisfiable" % (R.name, q["label"]))
            elif not q["reach"]:
                vac.append("%s: %s never returns normally" % (R.name, q["label"]))
        for u in r["unsupported"]:
            unsupported.append("%s: %s: %s" % (R.name, u[0], u[1]))
            if os.environ.get("DV_DEBUG"):
                print(u[2])
        for k, v in r["trusted"].items():
            count(trusted, k, v)
        for k, v in r["used"].items():
            count(trusted, "assumed contract: " + k, v)
        for k, v in r["dropped"].items():
            count(trusted, "no semantics (logging, profiling): " + k, v)
        inlined |= set(r["inlined"])
        for n in r["notes"]:
            unsupported.append("%s: %s" % (R.name, n))
    proved = sum(1 for o in obs_all if o.status == "proved")
    log("%s: %d functions under contract, %d obligations, %d discharged, %d refuted, %d undecided, %d functions out of reach; generation %.1fs, solver %.1fs"
        % (prop, len(functions), len(obs_all), proved, len(failed), len(undecided), len(unsupported) + len(errors), t_gen, solver_time))
    for o in (failed + undecided)[:30]:
        log("  %s [%s] %s" % (o.status, o.run, o.name))
    for u in unsupported[:20] + errors + vac:
        log("  not decided: " + u[:400])
    complete = not failed and not undecided and not unsupported and not errors and not vac
    # replay / bounded stand-in on the real code
    standin = None
    drv = spec.get("driver")
    if drv and (not complete or tier == "thorough" or spec.get("standin")):
        budget = 30 if tier == "quick" else 240
        standin = replay.run(prop, drv, seed, budget, log)
    code = 0
    violations = 0
    replay_path = os.path.join(VERIF, "evidence", "replay_%s.json" % prop)
    if os.path.exists(replay_path):
        os.remove(replay_path)
    rep = dict(property=prop, failed=[], undecided=[], unsupported=unsupported + errors + vac, standin=standin)
    for o in failed:
        rep["failed"].append(dict(run=o.run, obligation=o.name, kind=o.kind, backend=o.backend, model=o.model))
    for o in undecided:
        rep["undecided"].append(dict(run=o.run, obligation=o.name, kind=o.kind, backend=o.backend, model=o.model))
    if standin and standin.get("fail"):
        known = [k for k in known_findings() if k["property"] == prop and k.get("match") and k["match"] in standin["fail"]]
        if known and not standin.get("other"):
            for k in known:
                log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        else:
            violations = 1
            json.dump(rep, open(replay_path, "w"), indent=1)
            log("failing input on the real code: " + standin["fail"][:1500])
            log("VIOLATION property=%s replay=%s" % (prop, replay_path))
            code = 1
    if code == 0 and failed:
        violations = len(failed)
        json.dump(rep, open(replay_path, "w"), indent=1)
        log("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay_path))
        code = 1
    if not complete and code == 0:
        log("undecided obligations are covered by the bounded stand-in only: %s" % (standin or "none available"))
    level = "proof"
    ev = dict(property=prop, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 2), violations=violations,
              assumptions=assumptions,
              coverage=dict(obligations=len(obs_all), discharged=proved, checker_cmd="python3-vt -m dv.check %s %s" % (prop, tier),
                            trusted_base=sorted(["%s (%d uses)" % kv for kv in trusted.items()]),
                            functions_under_contract=functions,
                            functions_inlined=len(inlined),
                            backends=backends, solver_time_s=round(solver_time, 2), generation_time_s=round(t_gen, 2),
                            undecided=["%s: %s" % (o.run, o.name) for o in undecided],
                            out_of_reach=unsupported + errors + vac,
                            bounded_standin=standin or "not needed on this run"))
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    sys.exit(code)


def guarded():
    """the deciding run is a child process: if the solver library crashes it is repeated once; if it crashes again or
    exceeds its time the proof is given up (no verdict from the verifier) and only the executable contracts run"""
    import signal, subprocess
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    limit = 560 if tier == "quick" else 3000
    for attempt in ("1", "2", "noproof"):
        t = time.time()
        p = subprocess.Popen([sys.executable, "-X", "faulthandler", "-m", "dv.check"] + sys.argv[1:], env=dict(os.environ, DV_INNER=attempt), cwd=VERIF, start_new_session=True)
        try:
            rc = p.wait(limit)
        except subprocess.TimeoutExpired:
            rc = "timeout"
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        if rc in (0, 1):
            sys.exit(rc)
        print("verifier process ended with %s" % rc, flush=True)
        if rc == "timeout" or time.time() - t > 200:
            if attempt == "1":
                rc2 = subprocess.run([sys.executable, "-m", "dv.check"] + sys.argv[1:], env=dict(os.environ, DV_INNER="noproof"), cwd=VERIF).returncode
                sys.exit(rc2 if rc2 in (0, 1) else 2)
    sys.exit(2)


if __name__ == "__main__":
    if os.environ.get("DV_INNER"):
        try:
            main()
        except Exception:
            traceback.print_exc()
            sys.exit(3)
    else:
        guarded()
