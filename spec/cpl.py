"""Coupling schemes: time stepping, iteration control, convergence decision and message protocol.
Principal object: a coupling scheme at address 1, dynamic class SerialCouplingScheme / ParallelCouplingScheme /
MultiCouplingScheme; its embedded TimeHandler points to Impl at address 3."""
import z3
from dv import front
from dv.contract import Contract, Run, View_, field
from dv.sym import *
from dv.val import *
from spec.common import *

FILES = ["cplscheme/impl/TimeHandler.cpp", "cplscheme/CouplingScheme.cpp", "cplscheme/BaseCouplingScheme.cpp", "cplscheme/BiCouplingScheme.cpp",
         "cplscheme/SerialCouplingScheme.cpp", "cplscheme/ParallelCouplingScheme.cpp",
         "cplscheme/MultiCouplingScheme.cpp"]
N = "precice::cplscheme::"
BASE, SER, PAR, MUL, BI = N + "BaseCouplingScheme", N + "SerialCouplingScheme", N + "ParallelCouplingScheme", N + "MultiCouplingScheme", N + "BiCouplingScheme"
TH = N + "impl::TimeHandler"
EPS = rv(1e-14)
UNDEF = -1


def program():
    return cached_extract("cpl", FILES, ["precice::cplscheme::.*"])


def log(eng, st, *ev):
    if getattr(eng, "nolog", False):
        return
    st.ghost["log"] = st.ghost.get("log", ()) + (ev,)


def path(l):
    """name of the field a location denotes"""
    while isinstance(l, (OptL,)):
        l = l.base
    return l.f if isinstance(l, FieldL) else str(l)


def mk_run(name, cls, opts=None):
    P = program()
    o = dict(merge=cls == MUL, loop_ms=600)
    o.update(opts or {})
    R = Run(P, name, o)
    E = R.eng
    E.shape_override["precice::utils::DoubleAggregator"] = REAL
    E.boxed.add(N + "CouplingData")
    E.external += ["precice::acceleration::", "precice::io::", "precice::cplscheme::impl::ConvergenceMeasure"]
    E.nolog = cls == MUL
    boundaries(E)
    return R


def boundaries(E):
    """contracts of the collaborators of a coupling scheme: they have no access to the scheme object"""
    def dirmsg(kind):
        def h(eng, st, this, args, e, fr):
            s = st.copy()
            a = eng.read(s, args[0])
            if kind == "recv":
                nv = eng.fresh_val(a.sh, "recv")
                s.pc = s.pc + tuple(eng.wf(nv))
                eng.write(s, args[0], nv)
                a = nv
                if a.sh == REAL:
                    # assume/guarantee between the two participants: a window size sent is positive (obligation at send)
                    s.pc = s.pc + (a.t() > EPS,)
            elif isinstance(a, V) and a.sh == REAL:
                eng.ob(st, a.t() > EPS, "the window size sent is positive (%s)" % eng.where(e, fr), "msg")
            log(eng, s, kind, a)
            return [(s, void())]
        return h
    E.contracts["precice::m2n::M2N::send"] = dirmsg("send")
    E.contracts["precice::m2n::M2N::receive"] = dirmsg("recv")

    def data(kind):
        def h(eng, st, this, args, e, fr):
            s = st.copy()
            log(eng, s, kind, path(args[-1]), scheme_time(eng, s, this))
            return [(s, void())]
        return h

    def scheme_time(eng, s, this):
        c = View_(eng, s, this)
        return (c["_time._impl._windowStart"], c["_time._impl._windowProgress"])
    E.contracts[BASE + "::sendData"] = data("senddata")
    E.contracts[BASE + "::receiveData"] = data("recvdata")
    for f in ("storeIteration", "moveToNextWindow", "initializeWithZeroInitialData", "newConvergenceMeasurements"):
        E.contracts[BASE + "::" + f] = nop_event(f)
    E.contracts[BASE + "::measureConvergence"] = measured
    for f in ("performAcceleration", "iterationsConverged", "initialize"):
        E.contracts["precice::acceleration::Acceleration::" + f] = nop_event(f)
    for f in ("initializeTXTWriters", "advanceTXTWriters", "checkCouplingDataAvailable"):
        E.contracts[BASE + "::" + f] = nop_event(f)
    E.contracts["precice::m2n::M2N::isConnected"] = lambda eng, st, this, args, e, fr: [(st, V(BOOL, [TRUE]))]


def nop_event(name):
    def h(eng, st, this, args, e, fr):
        s = st.copy()
        log(eng, s, name)
        return [(s, void())]
    return h


def measured(eng, st, this, args, e, fr):
    s = st.copy()
    r = eng.fresh("converged", B)
    s.ghost["measured"] = r
    log(eng, s, "measure")
    return [(s, V(BOOL, [r]))]


def setup_for(cls):
    def setup(eng, st):
        eng.dyn[1] = cls
        st.conc[(1, BASE, "_time")] = V(eng.find_field(BASE, "_time")[1], [z3.IntVal(3)])
        eng.dyn[3] = TH + "::Impl"
        st.ghost["log"] = ()
        return []
    return setup


# ---------------------------------------------------------------- vocabulary
def ws(c): return c["_time._impl._windowStart"]
def wp(c): return c["_time._impl._windowProgress"]
def mt(c):
    v = c.v("_time._impl._maxTime")
    return v.l[0], v.l[1]
def tws(c): return c["_timeWindowSize"]
def hasws(c): return z3.Not(z3.And(tws(c) + 1 <= EPS, tws(c) + 1 >= -EPS))
def near(a, b): return z3.And(a - b <= EPS, b - a <= EPS)
def ended(c):
    h, m = mt(c)
    return z3.And(h, near(m, ws(c) + wp(c)))
def ongoing(c):
    return z3.And(z3.Or(c["_maxTimeWindows"] >= c["_timeWindows"], c["_maxTimeWindows"] == UNDEF), z3.Not(ended(c)))
def until_end(c):
    h, m = mt(c)
    return m - ws(c) - wp(c)
DBLMAX = rv(1.7976931348623157e308)
def max_dt(c):
    h, m = mt(c)
    r = tws(c) - wp(c)
    return z3.If(z3.Not(ongoing(c)), z3.RealVal(0),
                 z3.If(hasws(c), z3.If(z3.And(h, until_end(c) < r), until_end(c), r), z3.If(h, until_end(c), DBLMAX)))
def at_end(c):
    h, m = mt(c)
    r = tws(c) - wp(c)
    return z3.Or(z3.Not(hasws(c)), near(z3.If(z3.And(h, until_end(c) < r), until_end(c), r), 0))
def act(c, a): return z3.Select(c.v("_requiredActions").l[2], a)

EXPL, IMPL = 0, 1
INIT, READ, WRITE = 0, 1, 2


def explicit(c): return c["_couplingMode"] == EXPL
def implicit(c): return c["_couplingMode"] == IMPL
def unfulfilled(c):
    r, f = c.v("_requiredActions").l[2], c.v("_fulfilledActions").l[2]
    return z3.Or([z3.And(z3.Select(r, a), z3.Not(z3.Select(f, a))) for a in (INIT, READ, WRITE)])
def no_marks(c):
    f = c.v("_fulfilledActions").l[2]
    return z3.And([z3.Not(z3.Select(f, a)) for a in (INIT, READ, WRITE)])
def sets(c): return c["_participantSetsTimeWindowSize"]
def receives(c): return c["_participantReceivesTimeWindowSize"]
def first(c): return c["_doesFirstStep"]


def inv_config(cls):
    """facts established by construction and configuration; no method verified here changes them"""
    def f(c):
        r = [z3.Or(explicit(c), implicit(c)),
             c["_maxTimeWindows"] >= -1,
             z3.Implies(implicit(c), z3.And(c["_minIterations"] >= 1, z3.Or(c["_maxIterations"] == -2, c["_maxIterations"] >= c["_minIterations"])))]
        h, m = mt(c)
        r.append(z3.Implies(h, m >= 0))
        if cls in (SER, PAR):
            r.append(c["_m2n"] != 0)
        if cls == SER:
            r += [z3.Implies(sets(c), z3.And(first(c), z3.Not(receives(c)))), z3.Implies(receives(c), z3.Not(first(c)))]
        if cls == MUL:
            r += [implicit(c), c["_isController"] == z3.Not(first(c))]
        return r
    return f


def inv_run(cls):
    """invariant between calls of initialize/advance"""
    def f(c):
        h, m = mt(c)
        r = inv_config(cls)(c) + [c["_isInitialized"], c["_timeWindows"] >= 1, c["_iterations"] >= 1, c["_totalIterations"] >= 1, ws(c) >= 0, wp(c) >= 0]
        # the remaining time is never exceeded by more than the tolerance
        r.append(z3.Implies(hasws(c), wp(c) <= tws(c) + EPS))
        r.append(z3.Implies(hasws(c), tws(c) >= 0))
        r.append(z3.Implies(h, ws(c) + wp(c) <= m + EPS))
        r.append(z3.Implies(implicit(c), z3.Or(c["_maxIterations"] == -2, c["_iterations"] <= c["_maxIterations"])))
        if cls == SER:
            r += [z3.Implies(z3.Not(sets(c)), hasws(c))]
        else:
            r += [hasws(c)]
        return r
    return f


def L(label, fs):
    return [("%s %d" % (label, i), f) for i, f in enumerate(fs)]


def tag(r, t="[C02] "):
    return [(n if n.startswith("[") else t + n, f) for n, f in r]


TIMEF = ["_time._impl._windowStart", "_time._impl._windowProgress"]


def time_contracts(cls):
    """C01: queries and addComputedTime"""
    conf = inv_run(cls)
    pre = lambda c: L("inv", conf(c))
    out = [
        Contract(BASE + "::getNextTimeStepMaxSize", requires=pre, ensures=lambda c: [("remaining time of the window, cut at max-time, zero after the end", c.res == max_dt(c))]),
        Contract(BASE + "::isCouplingOngoing", requires=pre, ensures=lambda c: [("ongoing until max-time-windows or max-time is reached", c.res == ongoing(c))]),
        Contract(BASE + "::getTime", requires=pre, ensures=lambda c: [("time is window start plus progress", c.res == ws(c) + wp(c))]),
        Contract(BASE + "::isTimeWindowComplete", requires=pre, ensures=lambda c: [("reports the completion flag", c.res == c["_isTimeWindowComplete"])]),
        Contract(BASE + "::getTimeWindows", requires=pre, ensures=lambda c: [("reports the window counter", c.res == c["_timeWindows"])]),
        Contract(BASE + "::hasTimeWindowSize", requires=pre, ensures=lambda c: [("window size defined", c.res == hasws(c))]),
        Contract(BASE + "::isActionRequired", requires=pre, ensures=lambda c: [("reports whether the action is required", z3.Implies(z3.And(c.arg(0) >= 0, c.arg(0) <= 2), c.res == act(c, c.arg(0))))]),
        Contract(BASE + "::isActionFulfilled", requires=pre, ensures=lambda c: [("reports whether the action is fulfilled", z3.Implies(z3.And(c.arg(0) >= 0, c.arg(0) <= 2), c.res == z3.Select(c.v("_fulfilledActions").l[2], c.arg(0))))]),
        Contract(BASE + "::markActionFulfilled", requires=lambda c: pre(c) + [("required", act(c, c.arg(0)))], modifies=lambda c: [c.loc("_fulfilledActions")],
                 ensures=lambda c: [("marks exactly this action", z3.And([z3.Select(c.v("_fulfilledActions").l[2], a) == z3.Or(z3.Select(c.old.v("_fulfilledActions").l[2], a), c.arg(0) == a) for a in (INIT, READ, WRITE)])),
                                    ]),
        Contract(BASE + "::addComputedTime",
                 requires=lambda c: pre(c) + [("ongoing", ongoing(c)), ("positive step", c.arg(0) > EPS)],
                 throws=lambda c: z3.Or(c.arg(0) - max_dt(c) > EPS, z3.And(z3.Not(hasws(c)), c.arg(0) >= DBLMAX)),
                 must_throw=True,
                 modifies=lambda c: [c.loc(TIMEF[1])],
                 ensures=lambda c: [("progress grows by exactly the given step", wp(c) == wp(c.old) + c.arg(0)),
                                    ("reports whether the end of the window is reached", c.res == at_end(c))]
                 + L("never beyond the end of the window or max-time", conf(c))),
    ]
    return out


def first_contract(cls):
    conf = inv_run(cls)

    def post(c):
        o = c.old
        e = at_end(o)
        r = [("[C01] time is not changed by the first exchange", z3.And(ws(c) == ws(o), wp(c) == wp(o))),
             ("window counter", c["_timeWindows"] == o["_timeWindows"] + z3.If(e, 1, 0)),
             ("iteration counters unchanged", z3.And(c["_iterations"] == o["_iterations"], c["_totalIterations"] == o["_totalIterations"])),
             ("window not complete", z3.Not(c["_isTimeWindowComplete"])),
             ("actions cleared", z3.And([z3.Not(act(c, a)) for a in (INIT, READ, WRITE)])),
             ("fulfilment marks cleared", no_marks(c)),
             ("[C01] end of window still reached", z3.Implies(e, at_end(c)))]
        if cls == SER:
            r.append(("[C01] window size prescribed by the first participant is the computed time",
                      z3.If(z3.And(sets(o), e), z3.And(tws(c) == wp(o), c["_nextTimeWindowSize"] == -1),
                            z3.And(tws(c) == tws(o), c["_nextTimeWindowSize"] == o["_nextTimeWindowSize"]))))
            r.append(("iteration limit enforced", z3.Implies(z3.And(e, implicit(o), z3.Not(first(o)), o["_iterations"] == o["_maxIterations"]), c["_hasConverged"])))
            r.append(("convergence flag only changed by the deciding participant", z3.Implies(z3.Not(z3.And(e, implicit(o), z3.Not(first(o)))), c["_hasConverged"] == o["_hasConverged"])))
        else:
            r.append(("[C01] window size unchanged", z3.And(tws(c) == tws(o), c["_nextTimeWindowSize"] == o["_nextTimeWindowSize"])))
            r.append(("convergence flag unchanged", c["_hasConverged"] == o["_hasConverged"]))
        return tag(r)
    return Contract(BASE + "::firstExchange", requires=lambda c: L("inv", conf(c)) + [("progress", wp(c) > EPS)],
                    throws=lambda c: True, must_throw=unfulfilled, modifies=lambda c: ["*"], ensures=post)


def inv_mid(cls):
    """between first and second exchange"""
    conf = inv_run(cls)

    def f(c):
        r = conf(c) + [z3.Not(c["_isTimeWindowComplete"]), wp(c) > EPS, z3.Implies(at_end(c), c["_timeWindows"] >= 2)]
        if cls == SER:
            r += [z3.Implies(sets(c), z3.And(tws(c) == wp(c), c["_nextTimeWindowSize"] == -1)),
                  z3.Implies(z3.Not(sets(c)), c["_nextTimeWindowSize"] == tws(c)),
                  z3.Implies(first(c), z3.Not(c["_hasDataBeenReceived"])),
                  z3.Not(c["_hasDataBeenReceived"]),
                  z3.Implies(z3.And(implicit(c), z3.Not(first(c)), c["_iterations"] == c["_maxIterations"], at_end(c)), c["_hasConverged"])]
        elif cls == PAR:
            r += [c["_nextTimeWindowSize"] == tws(c), z3.Implies(at_end(c), c["_hasDataBeenReceived"] == z3.Not(first(c))), hasws(c),]
        else:
            r += [c["_nextTimeWindowSize"] == tws(c), z3.Implies(at_end(c), c["_hasDataBeenReceived"] == c["_isController"])]
        return r
    return f


def second_contract(cls):
    conf = inv_mid(cls)

    def post(c):
        o = c.old
        e = at_end(o)
        imp = implicit(o)
        comp = z3.Or(z3.Not(imp), c["_hasConverged"])
        full = near(wp(o), tws(o))
        og = ongoing(o)
        r = [
            ("window completes exactly when explicit or converged", c["_isTimeWindowComplete"] == z3.And(e, comp)),
            ("[C01] completed window advances the window start by the full window, or by the computed time for a truncated window",
             z3.Implies(z3.And(e, comp), z3.And(ws(c) == ws(o) + z3.If(full, tws(o), wp(o)), wp(c) == 0))),
            ("[C01] repeated window restarts at the window start", z3.Implies(z3.And(e, z3.Not(comp)), z3.And(ws(c) == ws(o), wp(c) == 0))),
            ("[C01] inside a window time is untouched", z3.Implies(z3.Not(e), z3.And(ws(c) == ws(o), wp(c) == wp(o)))),
            ("window counter", c["_timeWindows"] == o["_timeWindows"] - z3.If(z3.And(e, z3.Not(comp)), 1, 0)),
            ("iteration counter", c["_iterations"] == z3.If(z3.And(e, imp), z3.If(comp, 1, o["_iterations"] + 1), o["_iterations"])),
            ("total iterations", c["_totalIterations"] == o["_totalIterations"] + z3.If(z3.And(e, imp), 1, 0)),
            ("reading the checkpoint is required exactly when a window is repeated", act(c, READ) == z3.And(e, z3.Not(comp))),
            ("writing a checkpoint is required exactly when an implicit window was completed and coupling goes on", act(c, WRITE) == z3.And(e, imp, comp, og)),
            ("no initial data required", z3.Not(act(c, INIT))),
            ("fulfilment marks cleared", no_marks(c)),
            ("[C01] next window size adopted", tws(c) == z3.If(e, c["_nextTimeWindowSize"], tws(o))),
        ]
        if cls == SER:
            recv = z3.And(e, receives(o), z3.Or(og, z3.Not(comp)))
            r.append(("[C01] window size only changed when received", z3.Implies(z3.Not(recv), c["_nextTimeWindowSize"] == o["_nextTimeWindowSize"])))
            r.append(("[C01] window size is kept while a window is repeated", z3.Implies(z3.And(recv, z3.Not(comp)), c["_nextTimeWindowSize"] == tws(o))))
            rc = [ev[1].t() for ev in c.ghost("log") if ev[0] == "recv" and ev[1].sh == REAL]
            if rc:
                r.append(("[C01] the window size adopted is exactly the one received", z3.And(c["_nextTimeWindowSize"] == rc[-1], tws(c) == rc[-1])))
        else:
            r.append(("[C01] window size unchanged", c["_nextTimeWindowSize"] == o["_nextTimeWindowSize"]))
        if cls != SER:
            dec = z3.And(e, imp, z3.Not(first(o)))
            r.append(("iteration limit enforced", z3.Implies(z3.And(dec, o["_iterations"] == o["_maxIterations"]), c["_hasConverged"])))
        r.append(("iteration never exceeds the limit on the deciding participant",
                  z3.Implies(z3.And(e, imp, z3.Not(first(o)), o["_maxIterations"] > 0), c["_iterations"] <= o["_maxIterations"])))
        r.append(("data is received whenever coupling goes on", z3.Implies(z3.And(e, og), c["_hasDataBeenReceived"])))
        return tag(r)
    return Contract(BASE + "::secondExchange", requires=lambda c: L("inv", conf(c)), throws=lambda c: True, must_throw=unfulfilled,
                    modifies=lambda c: ["*"], ensures=post)


def init_contract(cls):
    def post(c):
        o = c.old
        r = [("[C01] starts at time zero", z3.And(ws(c) == 0, wp(c) == 0)),
             ("window counter starts at one", c["_timeWindows"] == 1),
             ("iteration counters start at one", z3.And(c["_iterations"] == o["_iterations"], c["_totalIterations"] == o["_totalIterations"])),
             ("a checkpoint is required exactly for implicit coupling", act(c, WRITE) == z3.Or(implicit(o), act(o, WRITE))),
             ("reading a checkpoint is not required", act(c, READ) == act(o, READ)),
             ("initialised", c["_isInitialized"])]
        if cls == SER:
            r.append(("[C01] second participant adopts the received window size", z3.If(receives(o), z3.And(tws(c) == c["_nextTimeWindowSize"], tws(c) > EPS), tws(c) == tws(o))))
            rc = [ev[1].t() for ev in c.ghost("log") if ev[0] == "recv" and ev[1].sh == REAL]
            if rc:
                r.append(("[C01] the window size adopted is exactly the one received", tws(c) == rc[-1]))
        else:
            r.append(("[C01] window size unchanged", tws(c) == tws(o)))
        return tag(r) + L("invariant established", inv_run(cls)(c))

    def pre(c):
        r = inv_config(cls)(c) + [z3.Not(c["_isInitialized"]), c["_iterations"] == 1, c["_totalIterations"] == 1, c["_nextTimeWindowSize"] == tws(c), mt_pos(c)]
        if cls == SER:
            r += [hasws(c) == z3.Not(z3.Or(sets(c), receives(c))), z3.Implies(z3.Or(sets(c), receives(c)), tws(c) == -1), z3.Implies(hasws(c), tws(c) > 0)]
        else:
            r += [hasws(c), tws(c) > 0]
        return L("configuration", r)
    return Contract(BASE + "::initialize", requires=pre, throws=lambda c: True, modifies=lambda c: ["*"], ensures=post)


def mt_pos(c):
    h, m = mt(c)
    return z3.Implies(h, m >= 0)


ASSUMPTIONS = ["floating-point numbers are treated as exact reals; machine integers are mathematical with no-overflow obligations on unsigned subtraction",
               "the peer participant honours the message contract (a received window size is positive: the same statement is an obligation where it is sent)",
               "the coupling scheme object satisfies the configuration invariant established by its constructor and the XML configuration (window size positive when fixed, max-iterations >= min-iterations >= 1)",
               "data exchange, checkpoint storage, convergence measures and acceleration have no access to the private counters of the scheme (private members, no friends)"]


def build(prop, tier):
    runs = []
    for cls in (SER, PAR, MUL):
        R = mk_run(cls.split("::")[-1], cls)
        cs = [init_contract(cls), first_contract(cls), second_contract(cls)]
        cs = time_contracts(cls) + cs if prop == "C01" else cs
        if prop == "C02":
            cs += [c for c in time_contracts(cls) if c.qn.split("::")[-1] in ("isCouplingOngoing", "isTimeWindowComplete", "getTimeWindows", "isActionRequired", "isActionFulfilled", "markActionFulfilled")]
        for c in cs:
            R.verify(c, cls=cls, setup=setup_for(cls))
        runs.append(R)
    return runs
