"""Message protocol of the coupling schemes: the sequence of messages of every phase (ghost log) is exactly the one
specified, and the sequences specified for the two roles are dual."""
import itertools
import z3
from dv.contract import Contract, Run, View_
from dv.sym import Ob
from spec.common import *
from spec import cpl
from spec.cpl import *


def ev_match(a, e):
    """actual event a, expected event (kind, payload check) -> formula or None"""
    kind, pay = e
    if a[0] in ("send", "recv"):
        sh = a[1].sh
        k = a[0] + {"Real": "R", "Bool": "B", "Int": "I"}.get(str(sh.sort) if hasattr(sh, "sort") else "", "?")
        if k != kind:
            return None
        return pay(a[1].t()) if pay else z3.BoolVal(True)
    if a[0] != kind:
        return None
    if kind in ("senddata", "recvdata"):
        return pay(a) if pay else z3.BoolVal(True)
    return z3.BoolVal(True)


def matches(log, expected):
    """expected: [(guard, (kind, payload))] -> formula: the log is exactly the expected sequence"""
    log = [a for a in log if a[0] in ("send", "recv", "senddata", "recvdata")]
    alts = []
    for sel in itertools.product((True, False), repeat=len(expected)):
        ex = [e for s, (g, e) in zip(sel, expected) if s]
        if len(ex) != len(log):
            continue
        ms = [ev_match(a, e) for a, e in zip(log, ex)]
        if any(m is None for m in ms):
            continue
        alts.append(z3.And([g if s else z3.Not(g) for s, (g, e) in zip(sel, expected)] + ms))
    return z3.Or(alts) if alts else z3.BoolVal(False)


T = z3.BoolVal(True)
isdata = lambda name: (lambda a: z3.BoolVal(a[1] == name))


def at_time(name, t):
    return lambda a: z3.And(z3.BoolVal(a[1] == name), t(a[2][0] + a[2][1]))


def cut(o, size, now):
    """a window of the given size starting now, cut at the end of the simulation (the largest double when there is none)"""
    h, m = mt(o)
    lim = z3.If(h, m - now, DBLMAX)
    return z3.If(size <= lim, size, lim)


def expected(cls, phase, F, o, c):
    """F: first participant (python bool); o, c: views before and after the phase"""
    imp = implicit(o)
    SD, RD = ("senddata", isdata("_sendData")), ("recvdata", isdata("_receiveData"))
    if phase == "init":
        sI, rI = o["_sendsInitializedData"], o["_receivesInitializedData"]
        if cls == PAR:
            return [(sI, SD), (rI, RD)] if F else [(rI, RD), (sI, SD)]
        if F:
            return [(rI, RD), (sI, SD)]
        endt = cut(o, tws(c), 0)
        return [(sI, SD), (rI, RD), (receives(o), ("recvR", lambda x: x == tws(c))), (T, ("recvdata", at_time("_receiveData", lambda t: near(t, endt))))]
    e = at_end(o)
    comp = z3.Or(z3.Not(imp), c["_hasConverged"])
    conv = lambda x: x == c["_hasConverged"]
    if phase == "first":
        if cls == PAR:
            return [(e, SD)] if F else [(e, RD)]
        if F:
            return [(z3.And(e, sets(o)), ("sendR", lambda x: x == wp(o))), (e, SD)]
        return [(z3.And(e, imp), ("sendB", conv)), (e, SD)]
    if cls == PAR:
        return [(z3.And(e, imp), ("recvB", conv)), (e, RD)] if F else [(z3.And(e, imp), ("sendB", conv)), (e, SD)]
    if F:
        return [(z3.And(e, imp), ("recvB", conv)), (e, RD)]
    more = z3.And(e, z3.Or(ongoing(o), z3.Not(comp)))
    now = ws(o) + wp(o)
    full = now + cut(o, c["_nextTimeWindowSize"], now)
    when = lambda t: z3.If(comp, near(t, full), t == now)
    return [(z3.And(more, receives(o)), ("recvR", lambda x: x == c["_nextTimeWindowSize"])), (more, ("recvdata", at_time("_receiveData", when)))]


def phase_contract(cls, phase, F):
    base = {"init": init_contract, "first": first_contract, "second": second_contract}[phase](cls)
    role = "first" if F else "second"

    def ens(c):
        return [("messages of the %s participant are exactly the specified sequence" % role, matches(c.ghost("log"), expected(cls, phase, F, c.old, c)))]
    return Contract(base.qn, requires=lambda c: base.requires(c) + [("role", first(c) == z3.BoolVal(F))], throws=lambda c: True, modifies=lambda c: ["*"], ensures=ens)


# ---------------------------------------------------------------- duality of the two roles
class Sym:
    """boolean facts both participants agree on"""


def lemma(R, cls):
    """Product lemma over the specified sequences: whatever one role sends next, the other role receives next, for every
    configuration and history. Stated over the same `expected` lists that the code is verified against."""
    E = R.eng
    dual = {"sendR": "recvR", "recvR": "sendR", "sendB": "recvB", "recvB": "sendB", "senddata": "recvdata", "recvdata": "senddata"}
    # configuration bits: explicit, F sends init, F receives init, window size prescribed; history bits: converged, goes on
    for imp, fs, fr, dt in itertools.product((True, False), repeat=4):
        if cls == PAR and dt:
            continue

        def seq(phase, F, conv, ong):
            """concrete sequence: evaluate the guards of `expected` under the bits"""
            vals = {}
            o, c = Bits(imp, fs if F else fr, fr if F else fs, dt and F, dt and not F, conv, ong), None
            lst = expected(cls, phase, F, o, o)
            out = []
            for g, (k, _) in lst:
                v = z3.simplify(z3.substitute(g, *o.subst()))
                assert z3.is_true(v) or z3.is_false(v), (phase, F, g, v)
                if z3.is_true(v):
                    out.append(k)
            return out
        for hist in itertools.product(((True, True), (True, False), (False, True), (False, False)), repeat=2):
            # global sequence: initialize, then advance after advance; the last one ends the simulation
            f, s = seq("init", True, True, True), seq("init", False, True, True)
            for conv, ong in hist + ((True, False),):
                f += seq("first", True, conv, ong) + seq("second", True, conv, ong)
                s += seq("first", False, conv, ong) + seq("second", False, conv, ong)
                if (conv or not imp) and not ong:
                    break
            ok = [dual[x] for x in f] == s
            E.ob(State_(), z3.BoolVal(ok), "lemma: the sequences of both roles are dual (implicit=%s initF=%s initS=%s prescribed=%s history=%s)" % (imp, fs, fr, dt, hist), "lemma")


def State_():
    from dv.sym import State
    return State()


class Bits:
    """a view in which every vocabulary function evaluates to given bits at the end of a window"""

    def __init__(self, imp, sI, rI, sets_, receives_, conv, ong):
        b = lambda x: z3.BoolVal(x)
        self.d = {"_couplingMode": z3.IntVal(IMPL if imp else EXPL), "_sendsInitializedData": b(sI), "_receivesInitializedData": b(rI),
                  "_participantSetsTimeWindowSize": b(sets_), "_participantReceivesTimeWindowSize": b(receives_), "_hasConverged": b(conv),
                  "_timeWindowSize": z3.RealVal(1), "_time._impl._windowStart": z3.RealVal(1), "_time._impl._windowProgress": z3.RealVal(1),
                  "_nextTimeWindowSize": z3.RealVal(1), "_maxTimeWindows": z3.IntVal(5), "_timeWindows": z3.IntVal(1 if ong else 6)}

    def __getitem__(self, k):
        return self.d[k]

    def v(self, k):
        class X:
            l = [z3.BoolVal(False), z3.RealVal(0)]
        return X

    def subst(self):
        return []


def build(prop, tier):
    runs = []
    for cls in (SER, PAR):
        R = mk_run(cls.split("::")[-1], cls)
        for phase in ("init", "first", "second"):
            for F in (True, False):
                R.verify(phase_contract(cls, phase, F), cls=cls, setup=setup_for(cls), label="%s of the %s participant" % (phase, "first" if F else "second"))
        lemma(R, cls)
        runs.append(R)
    return runs


ASSUMPTIONS = cpl.ASSUMPTIONS + ["both participants read the same configuration (checked at connection by the configuration hash) and agree on time (C01)"]
