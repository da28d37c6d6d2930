"""Convergence decision: measureConvergence of a coupling scheme over any number of measures, and the convergence
measures themselves."""
import z3
from dv.contract import Contract, Run, View_, field
from dv.lib import materialize, val
from dv import eig
from spec.common import *
from spec import cpl
from spec.cpl import BASE, SER, MUL, N, L, tag, implicit

FILES = ["cplscheme/impl/AbsoluteConvergenceMeasure.cpp", "cplscheme/impl/RelativeConvergenceMeasure.cpp",
         "cplscheme/impl/ResidualRelativeConvergenceMeasure.cpp", "cplscheme/impl/AbsoluteOrRelativeConvergenceMeasure.cpp"]
CM = N + "impl::"
VEC = z3.ArraySort(I, R)
CONV = z3.Function("measure.decision", I, I, VEC, I, VEC, B)   # measure, previous values, current values
PREVN, PREV = z3.Function("cd.previous.size", I, I), z3.Function("cd.previous", I, VEC)
CURN, CUR = z3.Function("cd.values.size", I, I), z3.Function("cd.values", I, VEC)


def vec(eng, st, x):
    v = val(eng, st, x)
    if not isinstance(v, V):
        v = materialize(eng, st, v, eng.shape_of("Eigen::Matrix<double, -1, 1, 0, -1, 1>"))
    return v.l[0], v.l[1]


def addr(eng, st, this):
    if isinstance(this, ObjL):
        return this.addr
    v = eng.read(st, this)
    return v.t()


def mk_decision():
    R_ = cpl.mk_run("measureConvergence", SER)
    E = R_.eng
    del E.contracts[BASE + "::measureConvergence"]
    E.external += ["precice::cplscheme::CouplingData::", "precice::io::TXTTableWriter"]
    for nm in ("last.n0", "last.a0", "last.n1", "last.a1"):
        pass

    def getter(fn, fa):
        def h(eng, st, this, args, e, fr):
            a = addr(eng, st, this)
            sh = eng.shape(e["t"])
            v = V(sh, [fn(a), fa(a)])
            s = st.copy()
            s.pc = s.pc + (fn(a) >= 0,)
            return [(s, v)]
        return h
    E.contracts[N + "CouplingData::previousIteration"] = getter(PREVN, PREV)
    E.contracts[N + "CouplingData::values"] = getter(CURN, CUR)

    def h_measure(eng, st, this, args, e, fr):
        s = st.copy()
        a = addr(eng, s, this)
        x, y = val(eng, s, args[0]), val(eng, s, args[1])
        for g, v in zip(("M.n0", "M.a0", "M.n1", "M.a1"), x.l + y.l):
            s.ghost[g] = z3.Store(s.ghost[g], a, v)
        return [(s, void())]

    def h_is(eng, st, this, args, e, fr):
        a = addr(eng, st, this)
        g = st.ghost
        r = CONV(a, g["M.n0"][a], g["M.a0"][a], g["M.n1"][a], g["M.a1"][a])
        return [(st, V(BOOL, [r]))]
    E.contracts["precice::utils::IntraComm::isSecondary"] = lambda eng, st, this, args, e, fr: [(st, V(BOOL, [z3.Bool("this.rank.is.secondary")]))]
    E.contracts[CM + "ConvergenceMeasure::measure"] = h_measure
    E.contracts[CM + "ConvergenceMeasure::isConvergence"] = h_is
    return R_


def setup(eng, st):
    cpl.setup_for(SER)(eng, st)
    for g in ("M.n0", "M.n1"):
        st.ghost[g] = z3.Const(g, z3.ArraySort(I, I))
    for g in ("M.a0", "M.a1"):
        st.ghost[g] = z3.Const(g, z3.ArraySort(I, VEC))
    return []


def measures(c):
    v = c.v("_convergenceMeasures")
    sh = v.sh
    return v


def decision_contract():
    def parts(c):
        v = c.v("_convergenceMeasures")
        n = v.l[0]
        el = v.sh.elem
        get = {}
        i = 1
        for f, s in el.fields:
            get[f] = v.l[i:i + s.n]
            i += s.n
        j = z3.Int("j!m")
        cd, m = get["couplingData"][0][j], get["measure"][0][j]
        suff, strict = get["suffices"][0][j], get["strict"][0][j]
        ok = CONV(m, PREVN(cd), PREV(cd), CURN(cd), CUR(cd))
        rng = z3.And(0 <= j, j < n)
        return n, j, rng, ok, suff, strict, cd, m

    def req(c):
        n, j, rng, ok, suff, strict, cd, m = parts(c)
        return L("inv", [implicit(c), z3.Not(c["_doesFirstStep"]), n >= 0, z3.ForAll([j], z3.Implies(rng, z3.And(cd != 0, m != 0, PREVN(cd) == CURN(cd)))),
                         c["_convergenceWriter"] != 0, z3.Implies(z3.Exists([j], z3.And(rng, strict)), c["_maxIterations"] > 0)])

    def post(c):
        n, j, rng, ok, suff, strict, cd, m = parts(c)
        al = z3.ForAll([j], z3.Implies(rng, ok))
        one = z3.Exists([j], z3.And(rng, ok, suff))
        viol = z3.Exists([j], z3.And(rng, z3.Not(ok), strict))
        dec = z3.And(c["_iterations"] >= c["_minIterations"], z3.Or(al, z3.And(one, z3.Not(viol))))
        return [("no measures: never converged", z3.Implies(n == 0, z3.Not(c.res))),
                ("not before the minimum number of iterations", z3.Implies(c["_iterations"] < c["_minIterations"], z3.Not(c.res))),
                ("converged if all measures hold, or one sufficient measure holds and no strict one is violated", z3.Implies(n > 0, c.res == dec))]

    def thr(c):
        n, j, rng, ok, suff, strict, cd, m = parts(c)
        return z3.And(n > 0, c["_iterations"] >= c["_maxIterations"], z3.Exists([j], z3.And(rng, z3.Not(ok), strict)))
    return Contract(BASE + "::measureConvergence", requires=req, throws=thr, must_throw=True, modifies=lambda c: [], ensures=post)


# ---------------------------------------------------------------- the measures
def mk_measures():
    P = cached_extract("conv", FILES, ["precice::cplscheme::impl::.*ConvergenceMeasure::.*"])
    R_ = Run(P, "measures", {})
    E = R_.eng

    def l2(eng, st, this, args, e, fr):
        s = st.copy()
        n, a = vec(eng, s, args[0])
        r = eng.fresh("norm", R)
        s.pc = s.pc + (r >= 0,)
        s.ghost["norms"] = s.ghost.get("norms", ()) + ((n, a, r),)
        return [(s, V(REAL, [r]))]
    E.contracts["precice::utils::IntraComm::l2norm"] = l2
    return R_


ND, NN = z3.Real("norm.of.difference"), z3.Real("norm.of.new")


def measure_contract(cls, kind):
    def facts(c):
        """the norm depends only on the entries of the vector (up to sign)"""
        ov, nv = c.argv(0), c.argv(1)
        i = z3.Int("i!n")
        out = []
        for n, a, r in c.st.ghost.get("norms", ()):
            rng = z3.And(0 <= i, i < nv.l[0])
            same = lambda t: z3.And(n == nv.l[0], z3.ForAll([i], z3.Implies(rng, a[i] == t)))
            d = nv.l[1][i] - ov.l[1][i]
            out += [z3.Implies(same(d), r == ND), z3.Implies(same(-d), r == ND), z3.Implies(same(nv.l[1][i]), r == NN)]
        return z3.And(out) if out else z3.BoolVal(True)

    def post(c):
        o = c.old
        f = facts(c)
        r = []
        if kind == "abs":
            r.append(("converged iff the norm of the change does not exceed the limit", z3.And(z3.Implies(ND < c["_convergenceLimit"], c["_isConvergence"]), z3.Implies(ND > c["_convergenceLimit"], z3.Not(c["_isConvergence"])))))
        elif kind == "rel":
            lim = NN * c["_convergenceLimitPercent"]
            r.append(("converged iff the norm of the change does not exceed the fraction of the norm", z3.And(z3.Implies(ND < lim, c["_isConvergence"]), z3.Implies(ND > lim, z3.Not(c["_isConvergence"])))))
        elif kind == "absrel":
            lim = NN * c["_convergenceLimitPercent"]
            r.append(("converged if one of both criteria holds", z3.And(z3.Implies(z3.Or(ND < lim, ND < c["_convergenceLimit"]), c["_isConvergence"]), z3.Implies(z3.And(ND > lim, ND > c["_convergenceLimit"]), z3.Not(c["_isConvergence"])))))
        else:
            base = z3.If(o["_isFirstIteration"], ND, o["_normFirstResidual"])
            lim = base * c["_convergenceLimitPercent"]
            r += [("first residual of the window is the reference", z3.And(c["_normFirstResidual"] == base, z3.Not(c["_isFirstIteration"]))),
                  ("converged iff the residual dropped below the fraction of the first one", z3.And(z3.Implies(ND < lim, c["_isConvergence"]), z3.Implies(ND > lim, z3.Not(c["_isConvergence"]))))]
        r.append(("the residual reported is the norm of the change", c["_normDiff"] == ND))
        return [(n, z3.Implies(f, g)) for n, g in r]

    def mods(c):
        m = ["_isConvergence", "_normDiff"]
        if kind in ("rel", "absrel"):
            m.append("_norm")
        if kind == "res":
            m += ["_normFirstResidual", "_isFirstIteration"]
        return [c.loc(x) for x in m]
    return Contract(CM + cls + "::measure", requires=lambda c: [("sizes", c.argv(0).l[0] == c.argv(1).l[0])], modifies=mods, ensures=post, cls=CM + cls)


def simple_contracts(cls, kind):
    mods = ["_isConvergence"] + (["_normFirstResidual", "_isFirstIteration"] if kind == "res" else [])
    out = [Contract(CM + cls + "::isConvergence", ensures=lambda c: [("reports the last decision", c.res == c["_isConvergence"])], cls=CM + cls),
           Contract(CM + cls + "::newMeasurementSeries", modifies=lambda c: [c.loc(x) for x in mods],
                    ensures=lambda c: [("a new window starts unconverged", z3.Not(c["_isConvergence"]))] + ([("the next residual becomes the reference", c["_isFirstIteration"])] if kind == "res" else []), cls=CM + cls)]
    return out


ASSUMPTIONS = ["convergence measures and coupling data seen by measureConvergence are external objects: the decision of a measure is an arbitrary function of the vectors given to it",
               "the l2 norm over all ranks depends only on the vector (decided in C19)"]


def build(prop, tier):
    R1 = mk_decision()
    R1.verify(decision_contract(), cls=SER, setup=setup)
    if prop == "C02":
        return [R1]
    R2 = mk_measures()
    for cls, kind in (("AbsoluteConvergenceMeasure", "abs"), ("RelativeConvergenceMeasure", "rel"), ("ResidualRelativeConvergenceMeasure", "res"),
                      ("AbsoluteOrRelativeConvergenceMeasure", "absrel")):
        R2.verify(measure_contract(cls, kind))
        for c in simple_contracts(cls, kind):
            R2.verify(c)
    return [R1, R2]
