"""Contracts on the real functions: verification of a function against its contract, and use of the
contract at call sites."""
import time, traceback
import z3
from .val import *
from .sym import Engine, State, Frame, Ob, Budget, GlobL, TRUE, FALSE, ZERO, ONE
from . import loops as _loops
from . import front as _front


class NS:
    pass


class View_:
    """access to the state of an object in a given machine state"""

    def __init__(self, eng, st, this, args=None, res=None, old=None):
        self.eng, self.st, self.this, self.args, self.res_, self.old_ = eng, st, this, args or [], res, old

    @property
    def old(self):
        return self.old_

    def loc(self, path, base=None):
        l = base if base is not None else self.this
        for f in path.split("."):
            l = field(self.eng, self.st, l, f)
        return l

    def v(self, path, base=None):
        return self.eng.read(self.st, self.loc(path, base))

    def __getitem__(self, path):
        v = self.v(path)
        return v.t() if isinstance(v, V) and v.sh.n == 1 else v

    def arg(self, i):
        a = self.args[i]
        v = self.eng.read(self.st, a) if isinstance(a, Loc) else a
        return v.t() if isinstance(v, V) and v.sh.n == 1 else v

    def argv(self, i):
        a = self.args[i]
        return self.eng.read(self.st, a) if isinstance(a, Loc) else a

    @property
    def res(self):
        v = self.eng.read(self.st, self.res_) if isinstance(self.res_, Loc) else self.res_
        return v.t() if isinstance(v, V) and v.sh.n == 1 else v

    def ghost(self, k):
        return self.st.ghost[k]


def field(eng, st, l, f):
    """field of an object location, following pointers"""
    if isinstance(l, ObjL):
        cls, _ = eng.find_field(l.cls, f)
        return FieldL(l, cls, f)
    v = eng.read(st, l)
    if isinstance(v, Ref):
        return field(eng, st, v.loc, f)
    if isinstance(v, V) and isinstance(v.sh, Scal) and isinstance(v.sh.kind, tuple):
        return field(eng, st, ObjL(v.t(), v.sh.kind[1]), f)
    if isinstance(v, V) and isinstance(v.sh, Opt):
        return field(eng, st, OptL(l), f)
    return FieldL(l, getattr(v.sh, "name", ""), f)


class Contract:
    """requires(c) -> [(label, formula)]; ensures(c) -> [(label, formula)] with c.old;
    modifies(c) -> list of locations (fields of this, arguments); throws(c) -> formula (condition under which
    the function may throw; None: may not throw; True: may always throw, state then unspecified)
    result: None or function (eng, ti) -> value"""

    def __init__(self, qn, requires=None, ensures=None, modifies=None, throws=None, must_throw=False, nargs=None, pred=None, cls=None,
                 trusted=False, note="", globs=(), ghosts=()):
        self.qn, self.nargs, self.pred, self.cls = qn, nargs, pred, cls
        self.requires = requires or (lambda c: [])
        self.ensures = ensures or (lambda c: [])
        self.modifies = modifies or (lambda c: [])
        self.throws = throws
        self.must_throw = must_throw
        self.trusted = trusted
        self.note = note
        self.globs = globs
        self.ghosts = ghosts

    # ---- use at call sites
    def handler(self):
        def h(eng, st, this, args, e, fr):
            if self.nargs is not None and len(args) != self.nargs:
                return NotImplemented
            c0 = View_(eng, st, this, args)
            where = eng.where(e, fr)
            for lab, f in self.requires(c0):
                eng.ob(st, f, "%s: precondition of %s: %s" % (where, self.qn.replace("precice::", ""), lab), "pre")
            s = st.copy()
            for lab, f in self.requires(c0):
                s = s.assume(f)
            states = []
            if self.throws is not None:
                tc = self.throws(c0)
                if tc is True:
                    eng.throws.append((s, "precice::Error"))
                else:
                    for s2, t in eng.fork(s, tc):
                        if t:
                            eng.throws.append((s2, "precice::Error"))
                            if not self.must_throw:
                                states.append(s2)
                        else:
                            states.append(s2)
            else:
                states = [s]
            out = []
            for s in states:
                s = s.copy()
                for l in self.modifies(c0):
                    old = eng.read(s, l)
                    nv = eng.fresh_val(old.sh, "m")
                    s.pc = s.pc + tuple(eng.wf(nv))
                    eng.write(s, l, nv)
                for g in self.ghosts:
                    s.ghost[g] = eng.fresh("g." + g, s.ghost[g].sort())
                rt = eng.prog.types[e["fn"]["rt"]] if "rt" in e.get("fn", {}) else eng.prog.types[e["t"]]
                res = None
                sh = eng.shape(e["t"]) if "t" in e else Opaque("void")
                res = eng.fresh_val(sh, "r")
                s.pc = s.pc + tuple(eng.wf(res))
                c1 = View_(eng, s, this, args, res, View_(eng, st, this, args))
                for lab, f in self.ensures(c1):
                    s = s.assume(f)
                out.append((s, res))
            return out

        return h


class Run:
    """one verification run: engine + list of verified functions"""

    def __init__(self, prog, name, opts=None):
        self.eng = Engine(prog, opts)
        self.name = name
        self.results = []
        self.errors = []
        self.unsupported = []
        self.jobs = []

    def use(self, contracts):
        for c in contracts:
            self.eng.contracts[c.qn] = c.handler()

    def fn(self, qn, nargs=None, pred=None):
        if isinstance(pred, str):   # parameter types of the overload meant
            want = pred
            pred = lambda f: ", ".join(self.eng.prog.tstr(p["t"]) for p in f["params"]) == want
        return self.eng.prog.fn(qn, nargs, pred)

    DEFER = False

    def verify(self, c, **kw):
        if not Run.DEFER:
            return self._verify(c, **kw)
        E = self.eng   # what the specification may change between two jobs
        self.jobs.append((c, kw, dict(contracts=dict(E.contracts), loop_hints=list(E.loop_hints), external=list(E.external), dyn=dict(E.dyn))))

    def play(self, j):
        c, kw, snap = self.jobs[j]
        for k, v in snap.items():
            setattr(self.eng, k, type(v)(v))
        self._verify(c, **kw)

    def _verify(self, c, cls=None, addr=1, setup=None, label=None, args=None, extra=None, cuts=None):
        """verify function c.qn against contract c. this is the object at concrete address addr of class cls.
        setup(eng, st) may prepare the state and returns extra assumptions."""
        eng = self.eng
        t0 = time.time()
        label = label or c.qn.replace("precice::", "")
        nob = len(eng.obs)
        own = eng.contracts.pop(c.qn, None)
        try:
            f = self.fn(c.qn, c.nargs, c.pred)
            st = State()
            eng.abort_paths = []
            eng.throws = []
            this = None
            cls = cls or c.cls
            if cls is None and "cls" in f:
                cls = eng.prog.tstr(f["cls"])
            if cls:
                this = ObjL(z3.IntVal(addr), cls)
                eng.dyn.setdefault(addr, cls)
            if callable(args):
                args = args(eng, st, f)
            elif args is None:
                args = []
                for p in f["params"]:
                    args.append(self.sym_arg(st, p))
            pre = []
            if setup:
                pre = setup(eng, st) or []
            c0 = View_(eng, st, this, args)
            for x in pre:
                st = st.assume(x)
            for lab, x in c.requires(View_(eng, st, this, args)):
                st = st.assume(x)
            st = pin(eng, st)
            s0 = st.copy()
            outs = eng.call_body(f, st.copy(), this, args, None)
            n = 0
            reach = []
            for s, k, p in outs:
                if k in ("ret", "norm"):
                    reach.append(s.pc)
                c1 = View_(eng, s, this, args, p, View_(eng, s0, this, args))
                if k in ("ret", "norm"):
                    for lab, x in c.ensures(c1):
                        eng.ob(s, x, "%s: %s" % (label, lab), "post", dict(havoc="$havoc" in s.ghost))
                    if c.must_throw:
                        mt = c.must_throw if callable(c.must_throw) else c.throws
                        eng.ob(s, mk_not(mt(View_(eng, s0, this, args))), "%s: must be rejected" % label, "post")
                    self.frame(c, s0, s, this, args, label)
                elif k == "throw":
                    tc = c.throws(View_(eng, s0, this, args)) if c.throws else False
                    if tc is not True:
                        eng.ob(s, z3.BoolVal(False) if tc is False else tc, "%s: throws only as specified" % label, "throw")
                n += 1
            for s, w in eng.abort_paths:
                eng.ob(s, FALSE, "%s: abort not reachable (%s)" % (label, w), "abort")
            self.results.append(dict(fn=c.qn, label=label, paths=n, obligations=len(eng.obs) - nob, reach=reach, pre=s0.pc, time=round(time.time() - t0, 2)))
        except (Unsupported, Budget, KeyError, AttributeError, IndexError, z3.Z3Exception, _front.ExtractError) as ex:
            del eng.obs[nob:]
            self.unsupported.append((label, "%s: %s" % (type(ex).__name__, ex), traceback.format_exc()))
        finally:
            if own is not None:
                eng.contracts[c.qn] = own

    def sym_arg(self, st, p):
        eng = self.eng
        ti = eng.prog.types[eng.prog.deref(p["t"])]
        if ti["k"] == "r" and _front.norm(ti["n"]) == "precice::span":   # a view on a sequence nothing else refers to
            sq = V(Seq(eng.shape(ti["a"][0]["t"])), [z3.Int("a.%s.n" % p["n"])] + [z3.Const("a.%s.%d" % (p["n"], i), z3.ArraySort(I, s)) for i, s in enumerate(eng.shape(ti["a"][0]["t"]).sorts())])
            st.pc = st.pc + tuple(eng.wf(sq))
            u = eng.uid(p["n"] + ".data")
            st.vars[u] = sq
            uid = eng.uid(p["n"] or "arg")
            st.vars[uid] = View(VarL(u), z3.IntVal(0), sq.l[0])
            return VarL(uid)
        sh = eng.shape(p["t"])
        v = V(sh, [z3.Const("a.%s.%d" % (p["n"], i), s) for i, s in enumerate(sh.sorts())])
        st.pc = st.pc + tuple(eng.wf(v))
        uid = eng.uid(p["n"] or "arg")
        st.vars[uid] = v
        return VarL(uid)

    def frame(self, c, s0, s, this, args, label):
        """everything outside the modifies clause keeps its value"""
        eng = self.eng
        mods = c.modifies(View_(eng, s0, this, args))
        anyall = any(m == "*" for m in mods)
        if anyall:
            return
        allowed = set()
        for m in mods:
            if isinstance(m, tuple):
                allowed.add(m)
            else:
                allowed.add(lockey(m))
        for key, v in s.conc.items():
            v0 = s0.conc.get(key, eng.init_conc.get(key))
            if v0 is None or v is v0 or v.same(v0) or ("conc", key) in allowed:
                continue
            g = mk_and([a == b for a, b in zip(v.l, v0.l)])
            eng.ob(s, g, "%s: %s unchanged" % (label, key[2]), "frame")
        for key, v in s.heap.items():
            v0 = s0.heap.get(key, eng.init_heap.get(key))
            if v0 is None or all(a.eq(b) for a, b in zip(v, v0)) or ("heap", key) in allowed:
                continue
            # only freshly allocated objects may differ
            x = z3.Int("x!frame")
            g = mk_and([z3.ForAll([x], z3.Implies(x < s0.alloc, a[x] == b[x])) for a, b in zip(v, v0)])
            eng.ob(s, g, "%s: %s::%s of other objects unchanged" % (label, key[0].split("::")[-1], key[1]), "frame")
        for key, v in s.glob.items():
            v0 = s0.glob.get(key, eng.init_glob.get(key))
            if v0 is None or v is v0 or v.same(v0) or ("glob", key) in allowed:
                continue
            eng.ob(s, mk_and([a == b for a, b in zip(v.l, v0.l)]), "%s: global %s unchanged" % (label, key), "frame")
        for a in args:
            if isinstance(a, VarL) and a.uid in s.vars and a.uid in s0.vars:
                x, y = s.vars[a.uid], s0.vars[a.uid]
                if x is y or x.same(y) or lockey(a) in allowed:
                    continue
                eng.ob(s, mk_and([p == q for p, q in zip(x.l, y.l)]), "%s: argument unchanged" % label, "frame")


def pin(eng, st):
    """lengths and counts the precondition fixes to a number are replaced by that number"""
    sub = []
    for f in st.pc:
        for g in conjuncts(f):
            if z3.is_eq(g) and g.arg(0).sort() == I:
                a, b = g.arg(0), g.arg(1)
                if z3.is_int_value(a):
                    a, b = b, a
                if z3.is_int_value(b) and z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    sub.append((a, b))
            elif z3.is_eq(g) and z3.is_array(g.arg(0)):
                a, b = g.arg(0), g.arg(1)
                if z3.is_K(a):
                    a, b = b, a
                if z3.is_K(b) and z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    sub.append((a, b))
    if not sub:
        return st
    st = st.copy()

    def p(v):
        if isinstance(v, View):
            return v.rebuild([z3.substitute(t, *sub) for t in v.leaves()])
        if not isinstance(v, V):
            return v
        l = [z3.substitute(t, *sub) if t.sort() == I or z3.is_const(t) else t for t in v.l]
        return v if all(x is y or x.eq(y) for x, y in zip(l, v.l)) else V(v.sh, l)
    for d in (st.vars, st.conc):
        for k, v in list(d.items()):
            d[k] = p(v)
    for k, v in eng.init_conc.items():
        if k not in st.conc:
            w = p(v)
            if w is not v:
                st.conc[k] = w
    return st


def conjuncts(f):
    if z3.is_and(f):
        return [g for c in f.children() for g in conjuncts(c)]
    return [f]


def lockey(l):
    if isinstance(l, FieldL):
        b = l.base
        while isinstance(b, (FieldL, IdxL, KeyL, OptL)):
            l = b
            b = l.base
        if isinstance(l, FieldL) and isinstance(l.base, ObjL):
            a = num(l.base.addr)
            if a is not None:
                return ("conc", (a, l.cls, l.f))
            return ("heap", (l.cls, l.f))
        return lockey(l.base) if not isinstance(l, FieldL) else lockey(l.base)
    if isinstance(l, VarL):
        return ("vars", l.uid)
    if isinstance(l, GlobL):
        return ("glob", l.key)
    if isinstance(l, (IdxL, KeyL, OptL)):
        return lockey(l.base)
    return ("?", str(l))
