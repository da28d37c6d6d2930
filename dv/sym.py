"""Symbolic executor / VC generator over the extracted AST."""
import re, time
import z3
from .val import *
from . import front
from .front import norm

TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)
ZERO = z3.IntVal(0)
ONE = z3.IntVal(1)


class State:
    __slots__ = ("vars", "conc", "heap", "glob", "ghost", "pc", "alloc")

    def __init__(self):
        self.vars = {}
        self.conc = {}
        self.heap = {}
        self.glob = {}
        self.ghost = {}
        self.pc = ()
        self.alloc = z3.IntVal(100000)

    def copy(self):
        s = State.__new__(State)
        s.vars = dict(self.vars)
        s.conc = dict(self.conc)
        s.heap = dict(self.heap)
        s.glob = dict(self.glob)
        s.ghost = dict(self.ghost)
        s.pc = self.pc
        s.alloc = self.alloc
        return s

    def assume(self, c):
        s = self.copy()
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        if not z3.is_true(c):
            s.pc = s.pc + (c,)
        return s


class Frame:
    def __init__(self, fn, env, this, depth):
        self.fn = fn
        self.env = env
        self.this = this
        self.depth = depth
        self.uids = {}          # declaration -> variable (shared by all paths through the frame)


class Ob:
    """a proof obligation"""

    def __init__(self, name, pc, goal, kind="post", info=None):
        self.name = name
        self.pc = pc
        self.goal = goal
        self.kind = kind
        self.info = info or {}
        self.status = None  # proved / failed / unknown
        self.backend = None
        self.time = 0.0
        self.model = None


class Budget(Exception):
    pass


def consts_of(t, cache):
    """set of uninterpreted constant names in a term"""
    i = t.get_id()
    r = cache.get(i)
    if r is not None:
        return r[1]
    if z3.is_quantifier(t):
        s = consts_of(t.body(), cache)
    elif z3.is_var(t):
        s = frozenset()
    elif t.num_args() == 0:
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            s = frozenset([t.decl().name()])
        else:
            s = frozenset()
    else:
        s = frozenset()
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            s = frozenset([t.decl().name()])
        for c in t.children():
            s = s | consts_of(c, cache)
    cache[i] = (t, s)
    return s


class Engine:
    def __init__(self, prog, opts=None):
        self.prog = prog
        self.opts = dict(unroll=16, merge=True, assert_mode="prove", max_paths=4000, feas_ms=150, inline_depth=40,
                         loop_ms=2500, unsigned_check=True)
        if opts:
            self.opts.update(opts)
        self.models = {}
        self.contracts = {}
        self.axioms = []
        self.obs = []
        self.trusted = {}
        self.inlined = {}
        self.used_contracts = {}
        self.fresh_n = 0
        self.uid_n = 0
        self.init_conc = {}
        self.init_heap = {}
        self.init_glob = {}
        self.shape_cache = {}
        self.shape_override = {}
        self.dyn = {}           # concrete address -> dynamic class
        self.dyn_static = {}    # static class -> dynamic class (for symbolic pointers)
        self.loop_hints = []    # functions (LoopCtx) -> list of (name, callable)
        self.strs = {}
        self.boxed = set()      # classes stored by address in containers
        self.spec_mode = False
        self.notes = []
        self.cc = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", self.opts["feas_ms"])
        self.sstack = []
        self.loop_log = []
        self.assumed_asserts = 0
        self.dropped = {}
        self.defs = {}
        self.lemma_hooks = []
        self.external = []      # prefixes of functions of collaborators (no body available)
        self.nofeas = False
        from . import lib
        lib.install(self)

    # -------------------------------------------------------------- fresh
    def fresh(self, name, sort):
        self.fresh_n += 1
        return z3.Const("%s!%d" % (name, self.fresh_n), sort)

    def serial(self, name):
        i = name.rfind("!")
        if i < 0:
            return 0
        try:
            return int(name[i + 1:])
        except ValueError:
            return 0

    def max_serial(self, t):
        m = 0
        for n in consts_of(t, self.cc):
            m = max(m, self.serial(n))
        return m

    def uid(self, name=""):
        self.uid_n += 1
        return "%s#%d" % (name, self.uid_n)

    def fresh_val(self, sh, name, inv=True):
        v = V(sh, [self.fresh(name, s) for s in sh.sorts()])
        return v

    def wf(self, v):
        """type invariants of a value as a list of formulas (lengths >= 0, unsigned >= 0, map consistency)"""
        return self._wf(v.sh, v.l, 0)

    def _wf(self, sh, l, depth):
        out = []
        if isinstance(sh, Scal):
            if sh.kind == "u":
                out.append(l[0] >= 0)
            elif isinstance(sh.kind, tuple) and sh.kind[0] == "p":
                out.append(l[0] >= 0)
        elif isinstance(sh, Struct):
            for n, s in sh.fields:
                o, _ = sh.off[n]
                out += self._wf(s, l[o:o + s.n], depth)
        elif isinstance(sh, Seq):
            if sh.fixed is None:
                out.append(l[0] >= 0)
            a = l[1:] if sh.fixed is None else l
            es = sh.elem
            j = z3.Int("j!wf%d" % depth)
            inner = self._wf(es, [z3.Select(x, j) for x in a], depth + 1) if es.n else []
            if inner:
                out.append(z3.ForAll([j], mk_and(inner), patterns=[z3.Select(a[0], j)]))
        elif isinstance(sh, Mat):
            out += [l[0] >= 0, l[1] >= 0]
        elif isinstance(sh, Opt):
            out += self._wf(sh.elem, l[1:], depth)
        elif isinstance(sh, MapS):
            n, keys, dom, pos = l[:4]
            out.append(n >= 0)
            i = z3.Int("i!wf%d" % depth)
            i2 = z3.Int("i2!wf%d" % depth)
            k = z3.Const("k!wf%d" % depth, sh.ksort)
            out.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n),
                                                 z3.And(z3.Select(dom, z3.Select(keys, i)),
                                                        z3.Select(pos, z3.Select(keys, i)) == i)),
                                 patterns=[z3.Select(keys, i)]))
            out.append(z3.ForAll([k], z3.Implies(z3.Select(dom, k),
                                                 z3.And(0 <= z3.Select(pos, k), z3.Select(pos, k) < n,
                                                        z3.Select(keys, z3.Select(pos, k)) == k)),
                                 patterns=[z3.Select(dom, k)]))
            if sh.kind in ("map", "set") and sh.ksort == I:
                out.append(z3.ForAll([i, i2], z3.Implies(z3.And(0 <= i, i < i2, i2 < n),
                                                         z3.Select(keys, i) < z3.Select(keys, i2)),
                                     patterns=[z3.MultiPattern(z3.Select(keys, i), z3.Select(keys, i2))]))
            if sh.val is not None:
                inner = self._wf(sh.val, [z3.Select(x, k) for x in l[4:]], depth + 1)
                if inner:
                    out.append(z3.ForAll([k], mk_and(inner), patterns=[z3.Select(l[4], k)]))
        return out

    # -------------------------------------------------------------- shapes
    def cls_of(self, ti):
        return self.prog.tstr(self.prog.deref(ti))

    def shape(self, ti):
        r = self.shape_cache.get(ti)
        if r is None:
            r = self._shape(ti)
            self.shape_cache[ti] = r
        return r

    def _targs(self, t):
        return t.get("a", [])

    def _shape(self, ti):
        p = self.prog
        t = p.types[ti]
        k = t["k"]
        if k in ("l", "x"):
            return self.shape(t["t"])
        if k == "b":
            n = t["n"]
            if n == "bool":
                return BOOL
            if n in ("double", "float", "long double"):
                return REAL
            if n == "void":
                return Opaque("void")
            if n in ("std::nullptr_t", "nullptr_t"):
                return PTR("null")
            if "w" in t:
                return INT if t["s"] else UINT
            return Opaque(n)
        if k == "e":
            return INT
        if k == "p":
            tt = p.types[t["t"]]
            return PTR(p.tstr(t["t"]) if tt["k"] == "r" else tt["k"])
        if k == "a":
            return Seq(self.shape(t["t"]), t["sz"])
        if k == "r":
            n = norm(t["n"])
            s = p.tstr(ti)
            if s in self.shape_override:
                return self.shape_override[s]
            if n in self.shape_override:
                return self.shape_override[n]
            a = self._targs(t)

            def A(i):
                return self.shape(a[i]["t"])

            if n in ("std::basic_string", "std::basic_string_view", "fmt::basic_string_view"):
                return STR
            if n in ("std::vector", "std::deque", "std::list", "boost::container::vector", "boost::container::static_vector",
                     "boost::container::small_vector", "std::initializer_list"):
                et = a[0]["t"]
                if p.types[et]["k"] == "r" and norm(p.types[et]["n"]) in self.boxed:
                    return Seq(PTR(p.tstr(et)), None, "boxed")
                return Seq(self.shape(et))
            if n == "std::array":
                return Seq(A(0), int(a[1]["v"]), "array")
            if n in ("std::map", "std::unordered_map", "boost::container::flat_map"):
                ks = A(0)
                if not isinstance(ks, Scal):
                    raise Unsupported("map key " + s)
                return MapS(ks.sort, ks, A(1), "map" if n != "std::unordered_map" else "umap")
            if n in ("std::set", "std::unordered_set", "boost::container::flat_set", "std::multiset"):
                ks = A(0)
                if not isinstance(ks, Scal):
                    raise Unsupported("set key " + s)
                return MapS(ks.sort, ks, None, "set" if n != "std::unordered_set" else "uset")
            if n == "std::optional":
                return Opt(A(0))
            if n == "std::pair":
                return Struct("pair", [("first", A(0)), ("second", A(1))])
            if n == "std::tuple":
                packs = a[0]["p"] if a and "p" in a[0] else a
                return Struct("tuple", [("_%d" % i, self.shape(x["t"])) for i, x in enumerate(packs)])
            if n == "std::reference_wrapper":
                return PTR(p.tstr(a[0]["t"]))
            if n in ("std::shared_ptr", "std::unique_ptr", "std::weak_ptr"):
                tt = a[0]["t"]
                if p.types[tt]["k"] == "a":
                    return PTR("array")
                return PTR(p.tstr(tt))
            if n == "Eigen::Matrix":
                rr, cc = int(a[1]["v"]), int(a[2]["v"])
                if cc == 1:
                    return Seq(self.shape(a[0]["t"]), None if rr < 0 else rr, "evec")
                if rr == 1:
                    return Seq(self.shape(a[0]["t"]), None if cc < 0 else cc, "erow")
                return Mat()
            rec = p.recs.get(t.get("rid"))
            if rec is not None:
                if t["n"].startswith("precice::logging") or t["n"].startswith("precice::profiling"):
                    return Opaque(n)
                fs = self.rec_fields(rec)
                return Struct(s, fs)
            return Opaque(n)
        return Opaque(k)

    def rec_fields(self, rec):
        fs = []
        for b in rec["bases"]:
            br = self.prog.recs.get(self.prog.types[b].get("rid"))
            if br is not None:
                fs += self.rec_fields(br)
        for f in rec["fields"]:
            fs.append((f["n"], self.shape(f["t"])))
        return fs

    def rec_of(self, cls):
        """record by class string (with or without template args)"""
        for r in self.prog.rec_by_qn.get(norm(cls), []):
            if self.prog.tstr(r["t"]) == cls:
                return r
        rs = self.prog.rec_by_qn.get(norm(cls), [])
        return rs[0] if rs else None

    def find_field(self, cls, f):
        """(declaring class string, shape)"""
        r = self.rec_of(cls)
        if r is None:
            raise Unsupported("unknown class " + cls)
        for x in r["fields"]:
            if x["n"] == f:
                return self.prog.tstr(r["t"]), self.shape(x["t"])
        for b in r["bases"]:
            try:
                return self.find_field(self.prog.tstr(b), f)
            except Unsupported:
                pass
        raise Unsupported("no field %s in %s" % (f, cls))

    def all_fields(self, cls):
        r = self.rec_of(cls)
        if r is None:
            raise Unsupported("unknown class " + cls)
        out = []
        for b in r["bases"]:
            if self.rec_of(self.prog.tstr(b)) is not None:
                out += self.all_fields(self.prog.tstr(b))
        for x in r["fields"]:
            out.append((self.prog.tstr(r["t"]), x["n"], self.shape(x["t"]), x))
        return out

    # -------------------------------------------------------------- memory
    def heap_arrays(self, st, key, sh):
        h = st.heap.get(key)
        if h is None:
            h = self.init_heap.get(key)
            if h is None:
                h = tuple(z3.Const("H.%s.%s.%d" % (norm(key[0]).split("::")[-1], key[1], i), z3.ArraySort(I, s))
                          for i, s in enumerate(sh.sorts()))
                self.init_heap[key] = h
                a = z3.Int("a!heap")
                if h:
                    inner = self._wf(sh, [z3.Select(x, a) for x in h], 1)
                    for w in inner:
                        self.axioms.append(z3.ForAll([a], w, patterns=[z3.Select(h[0], a)]))
        return h

    def conc_get(self, st, key, sh):
        v = st.conc.get(key)
        if v is None:
            v = self.init_conc.get(key)
            if v is None:
                v = V(sh, [z3.Const("o%d.%s.%d" % (key[0], key[2], i), s) for i, s in enumerate(sh.sorts())])
                self.init_conc[key] = v
                self.axioms += self.wf(v)
        return v

    def read(self, st, l):
        if isinstance(l, (V, Py)):
            return l
        if isinstance(l, VarL):
            if l.uid not in st.vars:
                raise Unsupported("read of uninitialised variable %s" % l.uid)
            return st.vars[l.uid]
        if isinstance(l, ValL):
            return l.val
        if isinstance(l, FieldL):
            b = l.base
            if isinstance(b, ObjL):
                cls, sh = self.find_field(l.cls, l.f)
                a = num(b.addr)
                if a is not None:
                    return self.conc_get(st, (a, cls, l.f), sh)
                h = self.heap_arrays(st, (cls, l.f), sh)
                return V(sh, [sel(x, b.addr) for x in h])
            if isinstance(b, PairL):
                if l.f == "first":
                    ks = self.container_shape(st, b.base).kshape
                    return V(ks, [b.k])
                return self.read(st, KeyL(b.base, b.k))
            v = self.read(st, b)
            if isinstance(v, Obj):
                return getattr(v, l.f)
            return v.field(l.f)
        if isinstance(l, IdxL):
            v = self.read(st, l.base)
            if isinstance(v, View):
                return self.read(st, self.elem(st, v, l.i))
            return v.idx(l.i)
        if isinstance(l, KeyL):
            return self.read(st, l.base).mget(l.k)
        if isinstance(l, OptL):
            v = self.read(st, l.base)
            return V(v.sh.elem, v.l[1:])
        if isinstance(l, PairL):
            m = self.read(st, l.base)
            v = m.mget(l.k)
            return V(Struct("pair", [("first", m.sh.kshape), ("second", m.sh.val)]), (l.k,) + v.l)
        if isinstance(l, ObjL):
            ls = []
            fs = []
            for cls, f, sh, _ in self.all_fields(l.cls):
                fs.append((f, sh))
                ls += self.read(st, FieldL(l, cls, f)).l
            return V(Struct(l.cls, fs), ls)
        raise Unsupported("read loc %r" % (l,))

    def container_shape(self, st, loc):
        return self.read(st, loc).sh

    def write(self, st, l, v):
        """in-place update of st (caller owns st)"""
        if isinstance(l, VarL):
            old = st.vars.get(l.uid)
            if isinstance(old, V) and isinstance(v, V) and old.sh != v.sh:
                v = coerce(v, old.sh)
            st.vars[l.uid] = v
            return
        if isinstance(l, FieldL):
            b = l.base
            if isinstance(b, ObjL):
                cls, sh = self.find_field(l.cls, l.f)
                v = coerce(v, sh)
                a = num(b.addr)
                if a is not None:
                    st.conc[(a, cls, l.f)] = v
                    return
                h = self.heap_arrays(st, (cls, l.f), sh)
                st.heap[(cls, l.f)] = tuple(upd(x, b.addr, y) for x, y in zip(h, v.l))
                return
            if isinstance(b, PairL):
                return self.write(st, KeyL(b.base, b.k), v)
            o = self.read(st, b)
            return self.write(st, b, o.with_field(l.f, v))
        if isinstance(l, IdxL):
            o = self.read(st, l.base)
            if isinstance(o, View):
                return self.write(st, self.elem(st, o, l.i), v)
            return self.write(st, l.base, o.with_idx(l.i, v))
        if isinstance(l, KeyL):
            o = self.read(st, l.base)
            return self.write(st, l.base, o.mset(l.k, v))
        if isinstance(l, OptL):
            o = self.read(st, l.base)
            return self.write(st, l.base, V(o.sh, (o.l[0],) + coerce(v, o.sh.elem).l))
        if isinstance(l, ObjL):
            for cls, f, sh, _ in self.all_fields(l.cls):
                self.write(st, FieldL(l, cls, f), v.field(f))
            return
        if isinstance(l, ValL):
            raise Unsupported("write to temporary")
        raise Unsupported("write loc %r" % (l,))

    def elem(self, st, cont, i):
        """location of element i of a container (location, value or view)"""
        if isinstance(cont, View):
            return self.elem(st, cont.cont, cont.at(i))
        if isinstance(cont, (V,)):
            cont = ValL(cont)
        v = self.read(st, cont)
        if isinstance(v, View):
            return self.elem(st, v.cont, v.at(i))
        if isinstance(v, Ref):
            return self.elem(st, v.loc, i)
        if isinstance(v, Py):
            raise Unsupported("element of %s" % type(v).__name__)
        if isinstance(v.sh, Seq) and v.sh.kind == "boxed":
            p = v.idx(i)
            return ObjL(p.t(), v.sh.elem.kind[1])
        return IdxL(cont, i)

    def new_obj(self, st, cls):
        """allocate; returns the address term. st is updated in place"""
        a = st.alloc
        st.alloc = lite(st.alloc + 1)
        return a

    # -------------------------------------------------------------- solver helpers
    def _sync(self, pc):
        s = self.solver
        n = 0
        while n < len(self.sstack) and n < len(pc) and self.sstack[n].eq(pc[n]):
            n += 1
        while len(self.sstack) > n:
            s.pop()
            self.sstack.pop()
        for c in pc[n:]:
            s.push()
            if not has_quant(c):
                s.add(c)
            self.sstack.append(c)

    def feasible(self, st):
        if self.nofeas:
            return True
        if st.pc and z3.is_false(st.pc[-1]):
            return False
        self._sync(st.pc)
        r = self.solver.check()
        return r != z3.unsat

    def fork(self, st, c):
        """returns list of (state, bool)"""
        c = lite(c)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        out = []
        a = st.assume(c)
        fa = self.feasible(a)
        if fa:
            out.append((a, True))
        b = st.assume(mk_not(c))
        if not fa or self.feasible(b):
            out.append((b if fa else st, False))
        return out

    def quick_valid(self, pc, goal, ms=None, extra=()):
        if z3.is_true(goal):
            return True
        from .prove import relevant
        fs = relevant(self.axioms, list(pc) + list(extra), goal) + list(pc) + list(extra)
        qf = [f for f in fs if not has_quant(f)]
        t0 = time.time()
        try:
            if not has_quant(goal):
                s = z3.Solver()
                s.set("timeout", 400)
                for f in qf:
                    s.add(f)
                s.add(z3.Not(goal))
                r = s.check()
                if r == z3.unsat:
                    return True
                if r == z3.sat and len(qf) == len(fs):
                    return False
            s = z3.Solver()
            s.set("timeout", ms or self.opts["loop_ms"])
            for f in fs:
                s.add(f)
            s.add(z3.Not(goal))
            return s.check() == z3.unsat
        finally:
            self.qv_time += time.time() - t0
            self.qv_n += 1

    qv_time = 0.0
    qv_n = 0

    def ob(self, st, goal, name, kind, info=None):
        goal = goal if not isinstance(goal, bool) else z3.BoolVal(goal)
        if self.spec_mode:
            return
        self.obs.append(Ob(name, st.pc, goal, kind, info))

    # -------------------------------------------------------------- merging
    def merge(self, items):
        """items: list of (state, value or None). Try to merge into one. Returns list."""
        if len(items) < 2 or not self.opts["merge"]:
            return items
        s0 = items[0][0]
        n = min(len(s.pc) for s, _ in items)
        pre = 0
        while pre < n and all(s.pc[pre].eq(s0.pc[pre]) for s, _ in items[1:]):
            pre += 1
        conds = [mk_and(s.pc[pre:]) for s, _ in items]
        if any(has_quant(c) for c in conds):
            return items
        # values
        vals = [v for _, v in items]

        def mv(vs):
            v0 = vs[0]
            if all(x is v0 for x in vs):
                return v0
            if any(x is None for x in vs):
                return None
            if isinstance(v0, Loc):
                if not all(isinstance(x, Loc) and loc_skey(x) == loc_skey(v0) for x in vs):
                    return None
                ts = [loc_terms(x) for x in vs]
                if not all(len(t) == len(ts[0]) and all(a.eq(b) for a, b in zip(t, ts[0])) for t in ts):
                    return None
                return v0
            if isinstance(v0, V):
                if not all(isinstance(x, V) for x in vs):
                    return None
                if any(x.sh != v0.sh for x in vs):
                    return None
                if all(x.same(v0) for x in vs):
                    return v0
                ls = []
                for i in range(len(v0.l)):
                    r = vs[-1].l[i]
                    for c, x in zip(conds[-2::-1], vs[-2::-1]):
                        if z3.is_array(r) and not x.l[i].eq(r):
                            return None
                        r = ite(c, x.l[i], r)
                    ls.append(r)
                return V(v0.sh, ls)
            if all(type(x) is type(v0) and isinstance(x, Py) and x.same(v0) for x in vs):
                return v0
            return None

        val = None
        if any(v is not None for v in vals):
            val = mv(vals)
            if val is None:
                return items
        out = s0.copy()
        for attr in ("vars", "conc", "heap", "glob", "ghost"):
            d = {}
            dicts = [getattr(s, attr) for s, _ in items]
            if attr == "vars":
                keys = set(dicts[0])
                for x in dicts[1:]:
                    keys &= set(x)
            else:
                keys = set()
                for x in dicts:
                    keys |= set(x)
            for k in keys:
                vs = []
                for x in dicts:
                    if k in x:
                        vs.append(x[k])
                    elif attr == "conc" and k in self.init_conc:
                        vs.append(self.init_conc[k])
                    elif attr == "heap" and k in self.init_heap:
                        vs.append(self.init_heap[k])
                    elif attr == "glob" and k in self.init_glob:
                        vs.append(self.init_glob[k])
                    else:
                        return items
                if attr == "heap":
                    if all(all(a.eq(b) for a, b in zip(x, vs[0])) for x in vs):
                        d[k] = vs[0]
                        continue
                    return items
                if attr == "ghost" and not isinstance(vs[0], (V, Py)):
                    if all(isinstance(x, z3.ExprRef) for x in vs):
                        if all(x.eq(vs[0]) for x in vs):
                            d[k] = vs[0]
                            continue
                        if self.opts.get("merge_ghost") and not z3.is_array(vs[0]):
                            r = vs[-1]
                            for c, x in zip(conds[-2::-1], vs[-2::-1]):
                                r = ite(c, x, r)
                            d[k] = r
                            continue
                        return items
                    if all(x == vs[0] for x in vs):
                        d[k] = vs[0]
                        continue
                    return items
                m = mv(vs)
                if m is None:
                    return items
                d[k] = m
            setattr(out, attr, d)
        if not all(s.alloc.eq(s0.alloc) for s, _ in items):
            return items
        out.pc = s0.pc[:pre]
        dj = lite(mk_or(conds))
        if not z3.is_true(dj):
            out.pc = out.pc + (dj,)
        return [(out, val)]

    # -------------------------------------------------------------- expressions
    def ev(self, e, st, fr):
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            raise Unsupported("expression %s %s" % (e["k"], e.get("cls")))
        return m(e, st, fr)

    def rval(self, e, st, fr):
        """evaluate to a value"""
        return [(s, self.read(s, x)) for s, x in self.ev(e, st, fr)]

    def evs(self, es, st, fr, f=None):
        """evaluate a list of expressions left to right -> list of (st, [x..])"""
        acc = [(st, [])]
        for e in es:
            nxt = []
            for s, xs in acc:
                for s2, x in self.ev(e, s, fr):
                    nxt.append((s2, xs + [x]))
            acc = nxt
        return acc

    def e_int(self, e, st, fr):
        return [(st, V(self.shape(e["t"]) if self.prog.types[e["t"]]["k"] != "b" or "w" in self.prog.types[e["t"]] else INT,
                       [z3.IntVal(int(e["v"]))]))]

    def e_bool(self, e, st, fr):
        return [(st, V(BOOL, [z3.BoolVal(e["v"])]))]

    def hexf(self, s):
        if s in ("inf", "-inf", "nan", "-nan"):
            return z3.Real("const_" + s.replace("-", "m"))
        return rv(float.fromhex(s))

    def e_float(self, e, st, fr):
        return [(st, V(REAL, [self.hexf(e["cf"])]))]

    def strlit(self, s):
        c = self.strs.get(s)
        if c is None:
            c = z3.Const("str:" + s[:40] + ("~%d" % len(self.strs)), StrS)
            for o in self.strs.values():
                self.axioms.append(c != o)
            self.strs[s] = c
        return c

    def e_str(self, e, st, fr):
        return [(st, V(STR, [self.strlit(e["v"])]))]

    def e_null(self, e, st, fr):
        return [(st, V(PTR("null"), [ZERO]))]

    def e_const(self, e, st, fr):
        return [(st, self.constv(e))]

    def constv(self, e):
        sh = self.shape(e["t"])
        if "cv" in e:
            n = int(e["cv"])
            if sh.sort == B:
                return V(sh, [z3.BoolVal(n != 0)])
            if sh.sort == R:
                return V(sh, [z3.RealVal(n)])
            return V(sh, [z3.IntVal(n)])
        if "cf" in e:
            return V(sh, [self.hexf(e["cf"])])
        raise Unsupported("constant")

    def e_zero(self, e, st, fr):
        return [(st, self.zero(self.shape(e["t"])))]

    def zero(self, sh):
        if isinstance(sh, Scal):
            if sh.sort == I:
                return V(sh, [ZERO])
            if sh.sort == R:
                return V(sh, [z3.RealVal(0)])
            if sh.sort == B:
                return V(sh, [FALSE])
            if sh.sort == StrS:
                return V(sh, [self.strlit("")])
        if isinstance(sh, Struct):
            ls = []
            for _, s in sh.fields:
                ls += self.zero(s).l
            return V(sh, ls)
        if isinstance(sh, Seq):
            z = self.zero_leaves(sh.elem)
            return V(sh, ([ZERO] if sh.fixed is None else []) + [z3.K(I, x) for x in z])
        if isinstance(sh, Mat):
            return V(sh, [ZERO, ZERO, z3.K(I, z3.RealVal(0))])
        if isinstance(sh, Opt):
            return V(sh, [FALSE] + list(self.zero(sh.elem).l))
        if isinstance(sh, MapS):
            kz = self.zero(sh.kshape).l[0]
            ls = [ZERO, z3.K(I, kz), z3.K(sh.ksort, FALSE), z3.K(sh.ksort, ZERO)]
            if sh.val is not None:
                ls += [z3.K(sh.ksort, x) for x in self.zero(sh.val).l]
            return V(sh, ls)
        if isinstance(sh, Opaque):
            return V(sh, [])
        raise Unsupported("zero of %r" % (sh,))

    def zero_leaves(self, sh):
        return self.zero(sh).l

    def e_this(self, e, st, fr):
        return [(st, Ref(fr.this))]

    def e_ref(self, e, st, fr):
        d = e["id"]
        if d in fr.env:
            return [(st, self.envloc(st, fr, d))]
        if "cv" in e or "cf" in e:
            return [(st, ValL(self.constv(e)))]
        if "g" in e:
            key = norm(e["g"])
            if key not in st.glob:
                v = self.init_glob.get(key)
                if v is None:
                    sh = self.shape(e["t"])
                    v = V(sh, [z3.Const("g.%s.%d" % (key, i), s) for i, s in enumerate(sh.sorts())])
                    self.init_glob[key] = v
                    self.axioms += self.wf(v)
                st.glob[key] = v
            return [(st, GlobL(key))]
        raise Unsupported("unbound variable %s" % e["n"])

    def e_fnref(self, e, st, fr):
        return [(st, Obj("fn", fn=e["fn"]))]

    def deref(self, st, p):
        """location a pointer-like value points to"""
        if isinstance(p, Ref):
            return p.loc
        if isinstance(p, It):
            return self.it_elem(st, p)
        if isinstance(p, V) and isinstance(p.sh, Scal) and isinstance(p.sh.kind, tuple):
            return ObjL(p.t(), p.sh.kind[1])
        raise Unsupported("dereference of %r" % (p,))

    def it_elem(self, st, it, off=None):
        i = it.i if off is None else lite(it.i + off)
        cont = it.cont
        if it.rev:
            n = self.seq_len(st, cont)
            i = lite(n - 1 - i)
        v = self.read(st, cont) if isinstance(cont, Loc) else cont
        if isinstance(v, V) and isinstance(v.sh, MapS):
            k = sel(v.l[1], i)
            if v.sh.val is None:
                return ValL(V(v.sh.kshape, [k]))
            cl = cont if isinstance(cont, Loc) else ValL(cont)
            if it.proj == "second":
                return KeyL(cl, k)
            if it.proj == "first":
                return ValL(V(v.sh.kshape, [k]))
            return PairL(cl, k)
        if isinstance(v, Obj) and hasattr(v, "elem_fn"):
            return v.elem_fn(self, st, i)
        l = self.elem(st, cont, i)
        if it.proj in ("second", "first"):
            return FieldL(l, "std::pair", it.proj)
        return l

    def seq_len(self, st, cont):
        v = self.read(st, cont) if isinstance(cont, Loc) else cont
        if isinstance(v, View):
            return v.n
        if isinstance(v, Obj) and hasattr(v, "n"):
            return v.n
        return v.len()

    def field_loc(self, st, base, cls, f):
        if isinstance(base, (V, Py)):
            base = ValL(base)
        if isinstance(base, VarL) or isinstance(base, GlobL):
            v = self.read(st, base)
        return FieldL(base, cls, f)

    def e_mem(self, e, st, fr):
        out = []
        cls = self.prog.tstr(e["cls"])
        for s, b in self.ev(e["e"], st, fr):
            if e.get("arrow"):
                p = self.read(s, b)
                b = self.deref(s, p)
            elif isinstance(b, (V, Py)):
                b = ValL(b)
            # reference-typed field stored as pointer-like python value
            l = FieldL(b, cls, e["n"])
            out.append((s, l))
        return out

    def e_sub(self, e, st, fr):
        out = []
        for s, xs in self.evs([e["e"], e["i"]], st, fr):
            i = self.read(s, xs[1]).t()
            b = self.read(s, xs[0]) if isinstance(xs[0], Loc) else xs[0]
            if isinstance(b, It):
                out.append((s, self.it_elem(s, b, i)))
            elif isinstance(b, Ref):
                if isinstance(b.loc, IdxL):
                    out.append((s, self.elem(s, b.loc.base, lite(b.loc.i + i))))
                else:
                    raise Unsupported("subscript of pointer")
            else:
                out.append((s, self.elem(s, xs[0], i)))
        return out

    def e_cast(self, e, st, fr):
        c = e["c"]
        out = []
        for s, x in self.ev(e["e"], st, fr):
            out.append((s, self.cast(c, e, s, x)))
        return out

    def cast(self, c, e, s, x):
        if c == "LValueToRValue":
            return self.read(s, x)
        if c in ("NoOp", "UserDefinedConversion", "ConstructorConversion", "LValueBitCast"):
            return x
        if c in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "Dynamic"):
            if isinstance(x, ObjL):
                return ObjL(x.addr, self.cls_of(e["t"]))
            v = x
            if isinstance(v, V) and isinstance(v.sh, Scal) and isinstance(v.sh.kind, tuple):
                tsh = self.shape(e["t"])
                return V(tsh, v.l) if isinstance(tsh, Scal) else x
            return x
        if c == "IntegralCast":
            v = self.read(s, x)
            return V(self.shape(e["t"]), coerce(v, INT).l) if self.shape(e["t"]).sort == I else v
        if c == "IntegralToFloating":
            v = self.read(s, x)
            return coerce(V(INT, coerce(v, INT).l), REAL)
        if c == "FloatingCast":
            return self.read(s, x)
        if c in ("IntegralToBoolean",):
            v = self.read(s, x)
            return V(BOOL, [lite(v.t() != 0)])
        if c == "FloatingToBoolean":
            return V(BOOL, [lite(self.read(s, x).t() != 0)])
        if c == "PointerToBoolean":
            v = self.read(s, x)
            return V(BOOL, [self.nonnull(v)])
        if c == "BooleanToSignedIntegral":
            return coerce(self.read(s, x), INT)
        if c == "FloatingToIntegral":
            v = self.read(s, x).t()
            # truncation
            r = ite(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            return V(self.shape(e["t"]), [r])
        if c == "NullToPointer":
            return V(PTR("null"), [ZERO])
        if c in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            return x
        if c == "ArrayToPointerDecay":
            v = x if isinstance(x, V) else None
            if isinstance(x, V) and x.sh == STR:
                return x
            if isinstance(x, Loc):
                w = self.read(s, x)
                if w.sh == STR:
                    return w
                return It(x, ZERO)
            return x
        if c == "ToVoid":
            return V(Opaque("void"), [])
        if c == "BitCast":
            return x
        raise Unsupported("cast " + c)

    def nonnull(self, v):
        if isinstance(v, (Ref, It)):
            return TRUE
        return lite(v.t() != 0)

    def truth(self, st, x):
        v = self.read(st, x)
        if isinstance(v, V) and v.sh.n == 1 and v.sh.sort == B:
            return v.t()
        if isinstance(v, V) and v.sh.n == 1 and v.sh.sort == I:
            return lite(v.t() != 0)
        raise Unsupported("truth value")

    def lam_pure(self, e):
        """syntactic purity: no calls with effects is not decided here"""
        return False

    def e_un(self, e, st, fr):
        op = e["op"]
        out = []
        for s, x in self.ev(e["e"], st, fr):
            if op in ("++", "--"):
                v = self.read(s, x)
                d = 1 if op == "++" else -1
                if isinstance(v, It):
                    n = It(v.cont, lite(v.i + d), v.proj, v.rev)
                else:
                    if v.sh.sort == R:
                        n = V(v.sh, [lite(v.t() + d)])
                    else:
                        n = V(v.sh, [lite(v.t() + d)])
                s = s.copy()
                self.write(s, x, n)
                out.append((s, v if e.get("post") else x))
                continue
            if op == "*":
                v = self.read(s, x)
                out.append((s, self.deref(s, v)))
                continue
            if op == "&":
                if isinstance(x, ObjL):
                    out.append((s, V(PTR(x.cls), [x.addr])))
                elif isinstance(x, IdxL):
                    out.append((s, It(x.base, x.i)))
                elif isinstance(x, Loc):
                    out.append((s, Ref(x)))
                else:
                    raise Unsupported("address of value")
                continue
            v = self.read(s, x)
            if op == "!":
                out.append((s, V(BOOL, [mk_not(self.truth(s, v))])))
            elif op == "-":
                if isinstance(v, EV):
                    out.append((s, EV(v.rows, v.cols, (lambda f: lambda i, j: -f(i, j))(v.fn))))
                else:
                    v = coerce(v, INT) if v.sh.sort == B else v
                    out.append((s, V(v.sh if v.sh.sort == R else INT, [lite(-v.t())])))
            elif op == "+":
                out.append((s, v))
            elif op == "~":
                raise Unsupported("bitwise not")
            else:
                raise Unsupported("unary " + op)
        return out

    def tdiv(self, a, b):
        na, nb = num(a), num(b)
        if nb is not None and nb > 0:
            return ite(lite(a >= 0), a / b, -((-a) / b)) if not self.known_nonneg(a) else a / b
        return ite(lite(z3.And(a >= 0, b > 0)), a / b, ite(lite(b > 0), -((-a) / b), ite(lite(a >= 0), -(a / (-b)), (-a) / (-b))))

    def tmod(self, a, b):
        return a - b * self.tdiv(a, b)

    def known_nonneg(self, a):
        return num(a) is not None and num(a) >= 0

    def arith(self, st, op, a, b, ty, loc="", name="arith"):
        """a, b: values"""
        sh = self.shape(ty)
        if isinstance(a, (EV, View, View2)) or isinstance(b, (EV, View, View2)):
            raise Unsupported("arith on Eigen via builtin")
        if isinstance(a, It) or isinstance(b, It):
            if op == "+":
                if isinstance(a, It):
                    return It(a.cont, lite(a.i + b.t()), a.proj, a.rev)
                return It(b.cont, lite(b.i + a.t()), b.proj, b.rev)
            if op == "-":
                if isinstance(b, It):
                    return V(INT, [lite(a.i - b.i)])
                return It(a.cont, lite(a.i - b.t()), a.proj, a.rev)
            raise Unsupported("pointer arithmetic " + op)
        if a.sh.sort == B:
            a = coerce(a, INT)
        if b.sh.sort == B:
            b = coerce(b, INT)
        if op in ("<<", ">>", "&", "|", "^"):
            na, nb = num(a.t()), num(b.t())
            if na is not None and nb is not None:
                r = {"<<": na << nb, ">>": na >> nb, "&": na & nb, "|": na | nb, "^": na ^ nb}[op]
                return V(sh, [z3.IntVal(r)])
            raise Unsupported("bit operation " + op)
        if sh.sort == R or a.sh.sort == R or b.sh.sort == R:
            x, y = coerce(a, REAL).t(), coerce(b, REAL).t()
            if op == "+":
                r = x + y
            elif op == "-":
                r = x - y
            elif op == "*":
                r = x * y
            elif op == "/":
                r = x / y
            else:
                raise Unsupported("real op " + op)
            return V(REAL, [lite(r)])
        x, y = a.t(), b.t()
        if op == "+":
            r = x + y
        elif op == "-":
            r = x - y
            if sh.kind == "u" and self.opts["unsigned_check"]:
                r = lite(r)
                if not (num(r) is not None and num(r) >= 0):
                    self.ob(st, r >= 0, "%s: unsigned subtraction does not wrap" % loc, "arith")
        elif op == "*":
            r = x * y
        elif op == "/":
            if sh.kind == "u" and a.sh.kind == "u":
                r = x / y
            else:
                r = self.tdiv(x, y)
        elif op == "%":
            if sh.kind == "u":
                r = x % y
            else:
                r = self.tmod(x, y)
        else:
            raise Unsupported("int op " + op)
        return V(sh, [lite(r)])

    def compare(self, st, op, a, b):
        if isinstance(a, It) and isinstance(b, It):
            x, y = a.i, b.i
            if a.rev and not b.rev or (b.rev and not a.rev):
                raise Unsupported("reverse iterator comparison")
        elif isinstance(a, (Ref, It)) or isinstance(b, (Ref, It)):
            # pointer vs null / pointer
            if isinstance(a, V) and num(a.t()) == 0 or isinstance(b, V) and num(b.t()) == 0:
                return {"==": FALSE, "!=": TRUE}[op]
            if isinstance(a, Ref) and isinstance(b, Ref) and a.same(b):
                return {"==": TRUE, "!=": FALSE}[op]
            if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(a.loc, ObjL) and isinstance(b.loc, ObjL):
                x, y = a.loc.addr, b.loc.addr
                return {"==": lite(x == y), "!=": lite(x != y)}[op]
            if isinstance(a, Ref) and isinstance(a.loc, ObjL) and isinstance(b, V):
                x, y = a.loc.addr, b.t()
                return {"==": lite(x == y), "!=": lite(x != y)}[op]
            if isinstance(b, Ref) and isinstance(b.loc, ObjL) and isinstance(a, V):
                x, y = b.loc.addr, a.t()
                return {"==": lite(x == y), "!=": lite(x != y)}[op]
            raise Unsupported("pointer comparison")
        else:
            if a.sh.sort == B and b.sh.sort == B:
                x, y = a.t(), b.t()
                if op == "==":
                    return lite(x == y)
                if op == "!=":
                    return lite(x != y)
            if a.sh.sort == R or b.sh.sort == R:
                x, y = coerce(a, REAL).t(), coerce(b, REAL).t()
            elif a.sh.sort == StrS:
                x, y = a.t(), b.t()
            else:
                x, y = coerce(a, INT).t(), coerce(b, INT).t()
        if op == "==":
            return lite(x == y)
        if op == "!=":
            return lite(x != y)
        if op == "<":
            return lite(x < y)
        if op == "<=":
            return lite(x <= y)
        if op == ">":
            return lite(x > y)
        if op == ">=":
            return lite(x >= y)
        raise Unsupported("compare " + op)

    def where(self, e, fr):
        f = fr.fn["qn"] if fr and fr.fn else "?"
        return "%s:%s" % (f.replace("precice::", ""), e.get("ln", "?"))

    def e_bin(self, e, st, fr):
        op = e["op"]
        if op in ("&&", "||"):
            return self.shortcircuit(op, e["l"], e["r"], st, fr)
        if op == ",":
            out = []
            for s, _ in self.ev(e["l"], st, fr):
                out += self.ev(e["r"], s, fr)
            return out
        out = []
        for s, (a, b) in self.evs([e["l"], e["r"]], st, fr):
            a = self.read(s, a)
            b = self.read(s, b)
            if op in ("==", "!=", "<", "<=", ">", ">="):
                out.append((s, V(BOOL, [self.compare(s, op, a, b)])))
            else:
                out.append((s, self.arith(s, op, a, b, e["t"], self.where(e, fr))))
        return out

    def same_state(self, a, b):
        if a is b:
            return True
        for attr in ("vars", "conc", "heap", "glob", "ghost"):
            x, y = getattr(a, attr), getattr(b, attr)
            if attr == "vars":
                for k in x:
                    if k in y and x[k] is not y[k] and not (hasattr(x[k], "same") and x[k].same(y[k])):
                        return False
                continue
            ini = {"conc": self.init_conc, "heap": self.init_heap, "glob": self.init_glob}.get(attr, {})
            for k in set(x) | set(y):
                u, v = x.get(k, ini.get(k)), y.get(k, ini.get(k))
                if u is v:
                    continue
                if u is None or v is None:
                    return False
                if isinstance(u, tuple):
                    if len(u) == len(v) and all(p.eq(q) for p, q in zip(u, v)):
                        continue
                    return False
                if isinstance(u, z3.ExprRef):
                    if u.eq(v):
                        continue
                    return False
                if hasattr(u, "same") and u.same(v):
                    continue
                if u == v:
                    continue
                return False
        return a.alloc.eq(b.alloc)

    def shortcircuit(self, op, l, r, st, fr):
        out = []
        for s, a in self.rval(l, st, fr):
            a = self.truth(s, a)
            if z3.is_true(a):
                if op == "||":
                    out.append((s, V(BOOL, [TRUE])))
                else:
                    out += [(s2, V(BOOL, [self.truth(s2, b)])) for s2, b in self.rval(r, s, fr)]
                continue
            if z3.is_false(a):
                if op == "&&":
                    out.append((s, V(BOOL, [FALSE])))
                else:
                    out += [(s2, V(BOOL, [self.truth(s2, b)])) for s2, b in self.rval(r, s, fr)]
                continue
            g = a if op == "&&" else mk_not(a)
            s1 = s.assume(g)
            rs = self.rval(r, s1, fr)
            if len(rs) == 1 and self.same_state(rs[0][0], s1) and len(rs[0][0].pc) == len(s1.pc):
                b = self.truth(rs[0][0], rs[0][1])
                s2 = s.copy()
                for k, v in rs[0][0].glob.items():
                    s2.glob.setdefault(k, v)
                out.append((s2, V(BOOL, [lite(z3.And(a, b) if op == "&&" else z3.Or(a, b))])))
            else:
                s0 = s.assume(mk_not(g))
                if self.feasible(s0):
                    out.append((s0, V(BOOL, [FALSE if op == "&&" else TRUE])))
                for s2, b in rs:
                    if self.feasible(s2):
                        out.append((s2, V(BOOL, [self.truth(s2, b)])))
        return out

    def e_cond(self, e, st, fr):
        out = []
        for s, c in self.rval(e["cnd"], st, fr):
            c = self.truth(s, c)
            items = []
            for s2, b in self.fork(s, c):
                items += self.ev(e["a"] if b else e["b"], s2, fr)
            if len(items) > 1:
                items = self.merge([(a, self.read(a, b) if not e.get("lv") else b) for a, b in items])
            out += items
        return out

    def e_assign(self, e, st, fr):
        out = []
        for s, (r, l) in self.evs([e["r"], e["l"]], st, fr):
            v = self.read(s, r)
            s = s.copy()
            self.write(s, l, v)
            out.append((s, l))
        return out

    def e_cassign(self, e, st, fr):
        out = []
        op = e["op"][:-1]
        for s, (r, l) in self.evs([e["r"], e["l"]], st, fr):
            v = self.read(s, r)
            o = self.read(s, l)
            n = self.arith(s, op, o, v, e.get("ct", e["t"]), self.where(e, fr))
            s = s.copy()
            self.write(s, l, n)
            out.append((s, l))
        return out

    def e_ilist(self, e, st, fr):
        t = self.prog.types[e["t"]]
        sh = self.shape(e["t"])
        out = []
        for s, xs in self.evs(e["args"], st, fr):
            vs = [self.read(s, x) for x in xs]
            if isinstance(sh, Seq):
                v = self.zero(sh)
                if sh.fixed is None:
                    v = v.with_len(z3.IntVal(len(vs)))
                for i, x in enumerate(vs):
                    v = v.with_idx(z3.IntVal(i), x)
                out.append((s, v))
            elif isinstance(sh, Struct):
                if any(isinstance(x, Py) for x in vs):
                    out.append((s, Obj("struct", sh=sh, **{n: x for (n, _), x in zip(sh.fields, vs)})))
                    continue
                v = self.zero(sh)
                if len(sh.fields) == 1 and len(vs) == 1 and isinstance(vs[0].sh, Struct) and vs[0].sh == sh.fields[0][1]:
                    pass
                if sh.name.startswith("std::array") or (len(vs) == 1 and vs[0].sh == sh):
                    out.append((s, vs[0]))
                    continue
                # fields in order; default member initializers appear as explicit inits
                fs = [n for n, _ in sh.fields]
                # base subobject initialisers
                if len(vs) and vs[0].sh != sh.fields[0][1] and isinstance(vs[0].sh, Struct) and len(vs) < len(fs):
                    raise Unsupported("aggregate with base")
                for n, x in zip(fs, vs):
                    v = v.with_field(n, x)
                out.append((s, v))
            elif isinstance(sh, Scal) and len(vs) == 1:
                out.append((s, coerce(vs[0], sh)))
            elif isinstance(sh, Scal) and not vs:
                out.append((s, self.zero(sh)))
            elif isinstance(sh, Opaque):
                out.append((s, V(sh, [])))
            else:
                raise Unsupported("init list of %r" % (sh,))
        return out

    def envloc(self, st, fr, d):
        """location a name denotes in this state (references may be bound differently on different paths)"""
        loc = fr.env[d]
        if isinstance(loc, VarL):
            x = st.vars.get(loc.uid)
            if isinstance(x, RefB):
                return x.loc
        return loc

    def duid(self, fr, d, n):
        u = fr.uids.get(d)
        if u is None:
            u = self.uid(n)
            fr.uids[d] = u
        return u

    def e_lambda(self, e, st, fr):
        caps = {}
        this = None
        s = st
        for c in e["caps"]:
            if c.get("this"):
                this = fr.this
                continue
            if c["byref"]:
                if c["id"] not in fr.env:
                    raise Unsupported("capture")
                caps[c["id"]] = ("ref", self.envloc(st, fr, c["id"]))
            else:
                rs = self.rval(c["init"], s, fr)
                if len(rs) != 1:
                    raise Unsupported("forking capture")
                s = rs[0][0]
                caps[c["id"]] = ("val", rs[0][1])
        return [(s, Lam(e["lam"], caps, this))]

    def e_throw(self, e, st, fr):
        raise Unsupported("throw expression in value position")

    def e_new(self, e, st, fr):
        cls = self.prog.tstr(e["ty"])
        s = st.copy()
        a = self.new_obj(s, cls)
        if e["init"] is None:
            raise Unsupported("new without init")
        out = []
        for s2, x in self.construct(e["init"], s, fr, ObjL(a, cls)):
            out.append((s2, V(PTR(cls), [a])))
        return out

    def e_arrcopy(self, e, st, fr):
        return self.rval(e["e"], st, fr)

    # -------------------------------------------------------------- construction
    def e_ctor(self, e, st, fr):
        sh = self.shape(e["t"])
        uid = self.uid("tmp")
        out = []
        for s, v in self.construct(e, st, fr, None):
            out.append((s, v))
        return out

    def construct(self, e, st, fr, loc):
        """evaluate ctor expression. If loc given, the object is built in place (returns loc).
        Otherwise returns the value."""
        if e["k"] != "ctor":
            out = []
            for s, v in self.rval(e, st, fr):
                if loc is not None:
                    s = s.copy()
                    self.write(s, loc, v)
                    out.append((s, loc))
                else:
                    out.append((s, v))
            return out
        fn = e["fn"]
        cls = self.prog.tstr(e["cls"])
        ncls = norm(cls)
        out = []
        for s, xs in self.evs(e["args"], st, fr):
            if (e.get("copy") or e.get("move")) and len(xs) >= 1 and not fn.get("b"):
                v = self.read(s, xs[0])
                if ncls in ("std::shared_ptr", "std::unique_ptr") and e.get("move") and isinstance(xs[0], Loc) and not isinstance(xs[0], ValL):
                    s = s.copy()
                    self.write(s, xs[0], V(v.sh, [ZERO]))
                r = [(s, v)]
            else:
                m = self.find_model(norm(fn["qn"]))
                if m is not None:
                    r = self.call_model(m, norm(fn["qn"]), s, loc, xs, e, fr)
                elif fn.get("b"):
                    r = self.run_ctor(fn, cls, s, xs, e, fr, loc)
                    if loc is not None:
                        out += r
                        continue
                elif e.get("dflt") or not xs:
                    r = self.default_init(s, e["t"], fr)
                else:
                    raise Unsupported("constructor %s (%s)" % (fn["qn"], self.where(e, fr)))
            for s2, v in r:
                if loc is not None:
                    s2 = s2.copy()
                    self.write(s2, loc, v)
                    out.append((s2, loc))
                else:
                    out.append((s2, v))
        return out

    def default_init(self, s, ti, fr):
        """implicit default constructor: member initialisers, else fresh (uninitialised) scalars"""
        t = self.prog.types[ti]
        rec = self.prog.recs.get(t.get("rid"))
        sh = self.shape(ti)
        if rec is None or not isinstance(sh, Struct):
            return [(s, self.zero(sh))]
        uid = self.uid("obj")
        s = s.copy()
        s.vars[uid] = self.undef(sh, "undef")
        loc = VarL(uid)
        acc = self.init_members(s, rec, loc, {}, fr, True)
        return [(a, self.read(a, loc)) for a, k, p in acc if k == "norm"]

    def undef(self, sh, name):
        """default-initialised value: class types empty, scalars arbitrary"""
        if isinstance(sh, Scal):
            if isinstance(sh.kind, tuple) or sh.sort == StrS:
                return self.zero(sh)
            return self.fresh_val(sh, name)
        if isinstance(sh, Struct):
            ls = []
            for _, x in sh.fields:
                ls += self.undef(x, name).l
            return V(sh, ls)
        if isinstance(sh, Seq) and sh.fixed is not None:
            return self.fresh_val(sh, name)
        return self.zero(sh)

    def run_ctor(self, fnref, cls, st, xs, e, fr, loc):
        f = self.prog.fns.get(fnref["id"])
        if f is None:
            raise Unsupported("ctor body " + fnref["qn"])
        s = st
        ret_val = loc is None
        if loc is None:
            s = s.copy()
            uid = self.uid("obj")
            sh = self.shape(e["t"]) if "t" in e else None
            s.vars[uid] = self.undef(sh, "undef")
            loc = VarL(uid)
        else:
            s = s.copy()
        out = []
        for s2, k, p in self.call_body(f, s, loc, xs, fr):
            if k in ("norm", "ret"):
                out.append((s2, self.read(s2, loc) if ret_val else loc))
            elif k == "throw":
                self.throws.append((s2, p))
            else:
                raise Unsupported("ctor outcome " + k)
        return out

    def init_members(self, s, rec, loc, given, fr, dflt_only=False):
        """run default member initialisers not in given"""
        acc = [(s, "norm", None)]
        for b in rec["bases"]:
            br = self.prog.recs.get(self.prog.types[b].get("rid"))
            if br is not None and ("base", self.prog.tstr(b)) not in given:
                acc = [r for a, _, _ in acc for r in self.init_members(a, br, loc, given, fr, True)]
        for f in rec["fields"]:
            if f["n"] in given:
                continue
            cls = self.prog.tstr(rec["t"])
            fl = FieldL(loc, cls, f["n"])
            if "init" in f:
                fr2 = Frame(fr.fn if fr else None, {}, loc, (fr.depth if fr else 0) + 1)
                nxt = []
                for a, _, _ in acc:
                    for a2, v in self.rval(f["init"], a, fr2):
                        a2 = a2.copy()
                        self.write(a2, fl, v)
                        nxt.append((a2, "norm", None))
                acc = nxt
            elif isinstance(loc, ObjL):
                nxt = []
                for a, _, _ in acc:
                    a = a.copy()
                    sh = self.shape(f["t"])
                    self.write(a, fl, self.undef(sh, "undef"))
                    nxt.append((a, "norm", None))
                acc = nxt
        return acc

    # -------------------------------------------------------------- calls
    throws = None

    def find_model(self, q):
        m = self.models.get(q)
        return m

    def call_model(self, m, q, st, this, args, e, fr):
        self.trusted[q] = self.trusted.get(q, 0) + 1
        return m(self, st, this, args, e, fr)

    def e_call(self, e, st, fr):
        mac = e.get("mac")
        if mac and "PRECICE_ASSERT" in mac and "fn" in e and norm(e["fn"]["qn"]) == "precice::utils::ignore":
            return self.do_assert(e, st, fr)
        if "fn" not in e:
            # call through expression (function pointer / std::function value)
            out = []
            for s, xs in self.evs([e["callee"]] + e["args"], st, fr):
                f = self.read(s, xs[0])
                if isinstance(f, Obj) and f.kind == "fn":
                    out += self.invoke(f.fn, s, None, xs[1:], e, fr)
                elif isinstance(f, Lam):
                    out += self.call_lam(f, s, xs[1:], fr)
                else:
                    raise Unsupported("indirect call")
            return out
        q = norm(e["fn"]["qn"])
        if q in SKIP_CALLS:
            self.dropped[q] = self.dropped.get(q, 0) + 1
            return [(st, V(Opaque("void"), []))]
        if q in ("precice::logging::logErrorAndThrow",):
            self.throws.append((st, "precice::Error"))
            return []
        if q in ("abort", "std::abort", "std::terminate", "exit", "std::exit"):
            self.abort_paths.append((st, self.where(e, fr)))
            return []
        if q == "std::move" and len(e["args"]) == 1 or q in ("std::forward", "std::as_const", "std::move_if_noexcept"):
            return self.ev(e["args"][0], st, fr)
        if "cv" in e or "cf" in e:
            return [(st, self.constv(e))]
        out = []
        for s, xs in self.evs(e["args"], st, fr):
            out += self.invoke(e["fn"], s, None, xs, e, fr)
        return out

    abort_paths = None

    def do_assert(self, e, st, fr):
        mode = self.opts["assert_mode"]
        if mode == "ignore":
            self.assumed_asserts += 1
            return [(st, V(Opaque("void"), []))]
        out = []
        save = self.obs
        cond = e["args"][0]
        try:
            rs = self.rval(cond, st, fr)
        except Unsupported as u:
            self.notes.append("assertion not modelled at %s: %s" % (self.where(e, fr), u))
            return [(st, V(Opaque("void"), []))]
        for s, c in rs:
            c = self.truth(s, c)
            if mode == "prove":
                self.ob(s, c, "assert %s" % self.where(e, fr), "assert")
            else:
                self.assumed_asserts += 1
            s = s.assume(c)
            out.append((s, V(Opaque("void"), [])))
        return out

    def e_mcall(self, e, st, fr):
        q = norm(e["fn"]["qn"])
        if q in SKIP_CALLS or q.startswith("precice::logging::") or q.startswith("precice::profiling::"):
            self.dropped[q] = self.dropped.get(q, 0) + 1
            return [(st, V(Opaque("void"), []))]
        if e.get("mac") and "PRECICE_ASSERT" in e["mac"] and q == "precice::utils::ignore":
            return self.do_assert(e, st, fr)
        out = []
        for s, xs in self.evs([e["obj"]] + e["args"], st, fr):
            this = xs[0]
            if e.get("arrow"):
                this = self.deref(s, self.read(s, this))
            elif isinstance(this, (V, Py)):
                s = s.copy()
                uid = self.uid("tmp")
                s.vars[uid] = this
                this = VarL(uid)
            out += self.invoke(e["fn"], s, this, xs[1:], e, fr)
        return out

    def dispatch(self, fn, this, e):
        """virtual dispatch -> fn record or None"""
        if not fn.get("virt") or e.get("qual"):
            return self.prog.fns.get(fn["id"])
        dc = None
        if isinstance(this, ObjL):
            a = num(this.addr)
            if a is not None:
                dc = self.dyn.get(a)
            if dc is None:
                dc = self.dyn_static.get(norm(this.cls))
        if dc is None:
            return self.prog.fns.get(fn["id"])
        # search overriders from the dynamic class upwards
        c = dc
        seen = [dc]
        while seen:
            c = seen.pop(0)
            for f in self.prog.fns.values():
                if "cls" in f and self.prog.tstr(f["cls"]) == c and (f["id"] == fn["id"] or fn["id"] in f.get("ovr", [])):
                    return f
            r = self.rec_of(c)
            if r:
                seen += [self.prog.tstr(b) for b in r["bases"]]
        return self.prog.fns.get(fn["id"])

    def invoke(self, fn, st, this, args, e, fr):
        q = norm(fn["qn"])
        m = self.contracts.get(q)
        if m is not None:
            r = m(self, st, this, args, e, fr)
            if r is not NotImplemented:
                self.used_contracts[q] = self.used_contracts.get(q, 0) + 1
                return r
        m = self.find_model(q)
        if m is not None:
            r = self.call_model(m, q, st, this, args, e, fr)
            if r is not NotImplemented:
                return r
        if fn.get("def") and q.endswith("::operator=") and this is not None:
            s = st.copy()
            v = self.read(s, args[0])
            self.write(s, this, v)
            return [(s, this)]
        if "lam" in fn:
            lamv = self.read(st, this)
            if isinstance(lamv, Lam):
                return self.call_lam(lamv, st, args, fr, fn)
        f = self.dispatch(fn, this, e)
        if f is None:
            if any(q.startswith(x) for x in self.external):
                return self.external_call(fn, q, st, args, e)
            raise Unsupported("call to %s at %s" % (q, self.where(e, fr)))
        q2 = f["nq"]
        if q2 != q:
            m = self.contracts.get(q2) or self.find_model(q2)
            if m is not None:
                r = m(self, st, this, args, e, fr)
                if r is not NotImplemented:
                    return r
        return self.inline(f, st, this, args, fr)

    def external_call(self, fn, q, st, args, e):
        """assumed contract of a collaborator without body: arbitrary result, no effect on the tracked objects,
        arbitrary new values for arguments passed by non-const reference"""
        self.trusted["(no effect on the caller) " + q] = self.trusted.get("(no effect on the caller) " + q, 0) + 1
        s = st.copy()
        ft = self.prog.types[fn["t"]] if "t" in fn else None
        sh = self.shape(e["t"]) if "t" in e else Opaque("void")
        r = self.fresh_val(sh, "ext")
        s.pc = s.pc + tuple(self.wf(r))
        return [(s, r)]

    def inline(self, f, st, this, args, fr):
        self.inlined[f["nq"]] = self.inlined.get(f["nq"], 0) + 1
        out = []
        for s, k, p in self.call_body(f, st, this, args, fr):
            if k == "ret":
                out.append((s, p))
            elif k == "norm":
                out.append((s, V(Opaque("void"), [])))
            elif k == "throw":
                self.throws.append((s, p))
            else:
                raise Unsupported("outcome " + k)
        if len(out) > 1:
            out = self.merge(out)
        return out

    def call_lam(self, lamv, st, args, fr, fn=None):
        c = self.prog.lam.get(lamv.lam, [])
        f = None
        if fn is not None:
            f = self.prog.fns.get(fn["id"])
        if f is None:
            cs = [x for x in c if len(x["params"]) == len(args)]
            if len(cs) == 1:
                f = cs[0]
            elif cs:
                f = self.pick_overload(cs, st, args)
        if f is None:
            raise Unsupported("lambda body")
        s = st.copy()
        env = {}
        for k, (kind, x) in lamv.caps.items():
            if kind == "ref":
                env[k] = x
            else:
                uid = self.uid("cap")
                s.vars[uid] = x
                env[k] = VarL(uid)
        out = []
        for s2, k, p in self.call_body(f, s, lamv.this, args, fr, env):
            if k == "ret":
                out.append((s2, p))
            elif k == "norm":
                out.append((s2, V(Opaque("void"), [])))
            elif k == "throw":
                self.throws.append((s2, p))
        if len(out) > 1:
            out = self.merge(out)
        return out

    def pick_overload(self, cs, st, args):
        best = None
        for f in cs:
            ok = True
            for p, a in zip(f["params"], args):
                try:
                    v = self.read(st, a)
                    if isinstance(v, V):
                        if v.sh != self.shape(p["t"]):
                            ok = False
                except Unsupported:
                    ok = False
            if ok:
                return f
        return cs[0]

    def bind_params(self, f, st, args, env):
        s = st.copy()
        ps = f["params"]
        for i, p in enumerate(ps):
            if i >= len(args):
                raise Unsupported("missing argument for " + f["qn"])
            a = args[i]
            t = self.prog.types[p["t"]]
            if t["k"] in ("l", "x"):
                if isinstance(a, Loc):
                    env[p["id"]] = a
                else:
                    tsh = self.shape(p["t"])
                    if isinstance(a, V) and a.sh != tsh and not isinstance(tsh, Opaque):
                        a = coerce(a, tsh)
                    uid = self.uid(p["n"])
                    s.vars[uid] = a
                    env[p["id"]] = VarL(uid)
            else:
                v = self.read(s, a)
                if isinstance(v, V):
                    tsh = self.shape(p["t"])
                    if not isinstance(tsh, Opaque):
                        v = coerce(v, tsh)
                uid = self.uid(p["n"])
                s.vars[uid] = v
                env[p["id"]] = VarL(uid)
        return s

    def call_body(self, f, st, this, args, fr, env=None):
        depth = (fr.depth if fr else 0) + 1
        if depth > self.opts["inline_depth"]:
            raise Unsupported("inline depth")
        env = dict(env or {})
        s = self.bind_params(f, st, args, env)
        fr2 = Frame(f, env, this, depth)
        vars0 = set(st.vars)
        saved = self.throws
        self.throws = []
        outs = []
        try:
            states = [(s, "norm", None)]
            if f.get("ctor"):
                states = self.ctor_inits(f, s, this, fr2)
            for s1, k, p in states:
                if k != "norm":
                    outs.append((s1, k, p))
                    continue
                outs += self.ex(f["body"], s1, fr2)
            for s1, p in self.throws:
                outs.append((s1, "throw", p))
        finally:
            self.throws = saved
        res = []
        rt = self.prog.types[f["ret"]]
        for s1, k, p in outs:
            if k == "ret" and p is not None:
                if rt["k"] not in ("l", "x"):
                    p = self.read(s1, p)
                    if isinstance(p, V) and rt["k"] != "o":
                        tsh = self.shape(f["ret"])
                        if not isinstance(tsh, Opaque) and tsh != p.sh:
                            p = coerce(p, tsh)
                    if isinstance(p, (EV,)) and norm(rt.get("n", "")) == "Eigen::Matrix":
                        from . import lib
                        s1 = s1.copy()
                        p = lib.materialize(self, s1, p, self.shape(f["ret"]))
                elif not isinstance(p, Loc):
                    # reference to a temporary
                    s1 = s1.copy()
                    uid = self.uid("rtmp")
                    s1.vars[uid] = p
                    p = VarL(uid)
            if k == "ret" and p is None:
                p = V(Opaque("void"), [])
            if k in ("break", "cont"):
                raise Unsupported("stray break")
            res.append((s1, k, p))
        # drop local variables that are not referenced by the result
        keep = set()
        for s1, k, p in res:
            keep |= loc_uids(p)
        res2 = []
        for s1, k, p in res:
            if any(u not in vars0 and u not in keep for u in s1.vars):
                s1 = s1.copy()
                s1.vars = {u: v for u, v in s1.vars.items() if u in vars0 or u in keep}
            res2.append((s1, k, p))
        return res2

    def ctor_inits(self, f, s, this, fr):
        rec = self.prog.recs.get(self.prog.types[f["cls"]].get("rid"))
        acc = [(s, "norm", None)]
        if any(i.get("deleg") for i in f["inits"]):
            for i in f["inits"]:
                nxt = []
                for a, _, _ in acc:
                    nxt += [(a2, "norm", None) for a2, _ in self.construct(i["e"], a, fr, this)]
                acc = nxt
            return acc
        given = set()
        for i in f["inits"]:
            if "f" in i:
                given.add(i["f"])
            if "base" in i:
                given.add(("base", self.prog.tstr(i["base"])))
        if rec is not None:
            acc = self.init_members(s, rec, this, given, fr)
        for i in f["inits"]:
            nxt = []
            for a, _, _ in acc:
                if "f" in i:
                    # find declaring class
                    cls = self.prog.tstr(f["cls"])
                    fl = FieldL(this, cls, i["f"])
                    try:
                        _, fsh = self.find_field(cls, i["f"])
                    except Unsupported:
                        fsh = None
                    if isinstance(fsh, Opaque):
                        nxt.append((a, "norm", None))
                        continue
                    for a2, v in self.rval(i["e"], a, fr):
                        a2 = a2.copy()
                        self.write(a2, fl, v)
                        nxt.append((a2, "norm", None))
                elif "base" in i:
                    bcls = self.prog.tstr(i["base"])
                    if self.rec_of(bcls) is None or norm(bcls).startswith("std::"):
                        nxt.append((a, "norm", None))
                        continue
                    e = i["e"]
                    if e["k"] == "ctor" and e["fn"].get("b"):
                        loc = ObjL(this.addr, bcls) if isinstance(this, ObjL) else this
                        nxt += [(a2, "norm", None) for a2, _ in self.construct(e, a, fr, loc)]
                    elif e["k"] == "ctor":
                        br = self.rec_of(bcls)
                        nxt += self.init_members(a, br, this, set(), fr)
                    else:
                        raise Unsupported("base init")
            acc = nxt
        return acc

    # -------------------------------------------------------------- statements
    def ex(self, b, st, fr):
        """-> list of (state, kind, payload); kind in norm/ret/break/cont/throw"""
        if b is None:
            return [(st, "norm", None)]
        m = getattr(self, "s_" + b["k"], None)
        if m is None:
            raise Unsupported("statement %s %s" % (b["k"], b.get("cls")))
        saved = self.throws
        self.throws = []
        try:
            r = m(b, st, fr)
            for s, p in self.throws:
                r.append((s, "throw", p))
        finally:
            self.throws = saved
        if len(r) > self.opts["max_paths"]:
            raise Budget("too many paths")
        return r

    def s_nop(self, b, st, fr):
        return [(st, "norm", None)]

    def s_block(self, b, st, fr):
        return self.seq(b["s"], st, fr)

    def seq(self, stmts, st, fr):
        cur = [st]
        done = []
        for x in stmts:
            nxt = []
            for s in cur:
                for s2, k, p in self.ex(x, s, fr):
                    if k == "norm":
                        nxt.append(s2)
                    else:
                        done.append((s2, k, p))
            if len(nxt) > 1:
                nxt = [s for s, _ in self.merge([(s, None) for s in nxt])]
            cur = nxt
            if not cur:
                break
        return done + [(s, "norm", None) for s in cur]

    def s_expr(self, b, st, fr):
        e = b["e"]
        if e["k"] == "throw":
            self.throws.append((st, self.throw_kind(e)))
            return []
        return [(s, "norm", None) for s, _ in self.ev(e, st, fr)]

    def throw_kind(self, e):
        x = e.get("e")
        if x is None:
            return "rethrow"
        return self.prog.tstr(x["t"])

    def s_decl(self, b, st, fr):
        cur = [st]
        for d in b["d"]:
            nxt = []
            for s in cur:
                nxt += self.declare(d, s, fr)
            cur = nxt
        return [(s, "norm", None) for s in cur]

    def declare(self, d, st, fr):
        t = self.prog.types[d["t"]]
        if d.get("static"):
            key = "static:%s:%s" % (fr.fn["qn"] if fr.fn else "", d["n"])
            if "init" in d and isinstance(d["init"], dict) and ("cv" in d["init"] or "cf" in d["init"]):
                pass
        out = []
        if t["k"] == "r":
            ncls = norm(t["n"])
            if ncls.startswith("precice::profiling::") or ncls.startswith("precice::logging::") or ncls in ("std::lock_guard", "std::unique_lock"):
                uid = self.duid(fr, d["id"], d["n"])
                s = st.copy()
                s.vars[uid] = V(Opaque(ncls), [])
                fr.env[d["id"]] = VarL(uid)
                return [s]
        if t["k"] in ("l", "x"):
            for s, x in self.ev(d["init"], st, fr):
                if not isinstance(x, Loc):
                    s = s.copy()
                    uid = self.uid(d["n"])
                    if isinstance(x, EV):
                        pass
                    s.vars[uid] = x
                    x = VarL(uid)
                s = self.bind_ref(d, fr, x, s)
                s = self.bindings(d, s, fr, x)
                out.append(s)
            return out
        uid = self.duid(fr, d["id"], d["n"])
        sh = self.shape(d["t"])
        if "init" not in d:
            s = st.copy()
            s.vars[uid] = self.undef(sh, d["n"])
            fr.env[d["id"]] = VarL(uid)
            return [s]
        for s, v in self.rval(d["init"], st, fr):
            s = s.copy()
            if isinstance(v, EV) and isinstance(sh, (Seq, Mat)):
                from . import lib
                v = lib.materialize(self, s, v, sh)
            if isinstance(v, V) and not isinstance(sh, Opaque):
                v = coerce(v, sh)
            s.vars[uid] = v
            s = self.bindings(d, s, fr, VarL(uid))
            out.append(s)
        fr.env[d["id"]] = VarL(uid)
        return out

    def bind_ref(self, d, fr, x, s):
        s = s.copy()
        uid = self.duid(fr, d["id"], d["n"])
        s.vars[uid] = RefB(x)
        fr.env[d["id"]] = VarL(uid)
        return s

    def bindings(self, d, s, fr, loc):
        if "binds" not in d:
            return s
        s = self.bind_ref(d, fr, loc, s)
        for b in d["binds"]:
            if "hold" in b and b["hold"] is not None:
                rs = self.ev(b["hold"], s, fr)
            else:
                rs = self.ev(b["bind"], s, fr)
            if len(rs) != 1:
                raise Unsupported("forking binding")
            s, x = rs[0]
            if not isinstance(x, Loc):
                s = s.copy()
                uid = self.uid(b["n"])
                s.vars[uid] = x
                x = VarL(uid)
            s = self.bind_ref(b, fr, x, s)
        return s

    def s_if(self, b, st, fr):
        pre = [(st, "norm", None)]
        if "init" in b and b["init"]:
            pre = self.ex(b["init"], st, fr)
        res = []
        for s0, k, p in pre:
            if k != "norm":
                res.append((s0, k, p))
                continue
            if "var" in b:
                ss = self.declare(b["var"], s0, fr)
            else:
                ss = [s0]
            for s1 in ss:
                items = []
                for s, c in self.rval(b["c"], s1, fr):
                    c = self.truth(s, c)
                    for s2, t in self.fork(s, c):
                        body = b["a"] if t else b["b"]
                        for r in self.ex(body, s2, fr):
                            if r[1] == "norm":
                                items.append((r[0], None))
                            else:
                                res.append(r)
                if len(items) > 1:
                    items = self.merge(items)
                res += [(s, "norm", None) for s, _ in items]
        return res

    def s_ret(self, b, st, fr):
        if b["e"] is None:
            return [(st, "ret", None)]
        return [(s, "ret", x) for s, x in self.ev(b["e"], st, fr)]

    def s_break(self, b, st, fr):
        return [(st, "break", None)]

    def s_cont(self, b, st, fr):
        return [(st, "cont", None)]

    def s_try(self, b, st, fr):
        res = []
        for s, k, p in self.ex(b["body"], st, fr):
            if k != "throw":
                res.append((s, k, p))
                continue
            caught = False
            for h in b["h"]:
                if "var" in h:
                    uid = self.uid("exc")
                    s = s.copy()
                    s.vars[uid] = V(Opaque("exc"), [])
                    fr.env[h["var"]["id"]] = VarL(uid)
                res += self.ex(h["body"], s, fr)
                caught = True
                break
            if not caught:
                res.append((s, k, p))
        return res

    def s_switch(self, b, st, fr):
        pre = [(st, "norm", None)]
        if b.get("init"):
            pre = self.ex(b["init"], st, fr)
        # flatten body
        flat = []

        def add(x):
            while x is not None and x["k"] in ("case", "default"):
                flat.append(("label", x["v"] if x["k"] == "case" else None))
                x = x["sub"]
            flat.append(("stmt", x))

        body = b["body"]
        for x in (body["s"] if body["k"] == "block" else [body]):
            add(x)
        labels = [(i, x[1]) for i, x in enumerate(flat) if x[0] == "label"]
        res = []
        for s0, k, p in pre:
            if k != "norm":
                res.append((s0, k, p))
                continue
            for s, c in self.rval(b["c"], s0, fr):
                c = coerce(c, INT).t()
                rest = s
                entry = []
                nomatch = rest
                for i, lv in labels:
                    if lv is None:
                        continue
                    v = self.rval(lv, s, fr)[0][1].t()
                    alive = None
                    for s2, t in self.fork(nomatch, lite(c == v)):
                        if t:
                            entry.append((i, s2))
                        else:
                            alive = s2
                    nomatch = alive
                    if nomatch is None:
                        break
                if nomatch is not None:
                    d = [i for i, lv in labels if lv is None]
                    if d:
                        entry.append((d[0], nomatch))
                    else:
                        res.append((nomatch, "norm", None))
                for i, s2 in entry:
                    stm = [x[1] for x in flat[i:] if x[0] == "stmt"]
                    for r in self.seq(stm, s2, fr):
                        if r[1] == "break":
                            res.append((r[0], "norm", None))
                        else:
                            res.append(r)
        return self.merge_norm(res)

    def merge_norm(self, res):
        n = [(s, None) for s, k, p in res if k == "norm"]
        o = [r for r in res if r[1] != "norm"]
        if len(n) > 1:
            n = self.merge(n)
        return o + [(s, "norm", None) for s, _ in n]

    # loops ------------------------------------------------------------
    def s_for(self, b, st, fr):
        pre = [(st, "norm", None)]
        if b.get("init"):
            pre = self.ex(b["init"], st, fr)
        res = []
        for s, k, p in pre:
            if k != "norm":
                res.append((s, k, p))
                continue

            def step(s1, it):
                return self.loop_iter(s1, fr, b.get("c"), b["body"], b.get("inc"))

            res += self.loop(s, fr, step, b)
        return res

    def loop_iter(self, s, fr, cond, body, inc):
        out = []
        conds = [(s, True)] if cond is None else []
        if cond is not None:
            for s1, c in self.rval(cond, s, fr):
                conds += self.fork(s1, self.truth(s1, c))
        for s1, t in conds:
            if not t:
                out.append((s1, "exit", None))
                continue
            for s2, k, p in self.ex(body, s1, fr):
                if k in ("norm", "cont"):
                    if inc is not None:
                        for s3, _ in self.ev(inc, s2, fr):
                            out.append((s3, "next", None))
                    else:
                        out.append((s2, "next", None))
                else:
                    out.append((s2, k, p))
        return out

    def s_while(self, b, st, fr):
        def step(s1, it):
            return self.loop_iter(s1, fr, b["c"], b["body"], None)

        return self.loop(st, fr, step, b)

    def s_do(self, b, st, fr):
        c = b["c"]
        # do { } while(false)
        if c["k"] == "bool" and c["v"] is False:
            res = []
            for s, k, p in self.ex(b["body"], st, fr):
                if k in ("break", "cont"):
                    k = "norm"
                res.append((s, k, p))
            return self.merge_norm(res)
        res = []
        for s, k, p in self.ex(b["body"], st, fr):
            if k == "break":
                res.append((s, "norm", None))
            elif k in ("norm", "cont"):
                def step(s1, it):
                    return self.loop_iter(s1, fr, b["c"], b["body"], None)

                res += self.loop(s, fr, step, b)
            else:
                res.append((s, k, p))
        return res

    def s_rfor(self, b, st, fr):
        res = []
        pre = [(st, "norm", None)]
        if b.get("init"):
            pre = self.ex(b["init"], st, fr)
        from . import lib
        for s0, k, p in pre:
            if k != "norm":
                res.append((s0, k, p))
                continue
            for s, r in self.ev(b["range"], s0, fr):
                if not isinstance(r, Loc) or isinstance(r, ValL):
                    s = s.copy()
                    uid = self.uid("range")
                    s.vars[uid] = r.val if isinstance(r, ValL) else r
                    r = VarL(uid)
                s, itb, n = lib.range_of(self, s, r)
                d = b["var"]

                def step(s1, it, itb=itb, n=n):
                    out = []
                    for s2, t in self.fork(s1, lite(it < n)):
                        if not t:
                            out.append((s2, "exit", None))
                            continue
                        s2 = s2.copy()
                        el = self.it_elem(s2, It(itb.cont, lite(itb.i + it), itb.proj, itb.rev))
                        tt = self.prog.types[d["t"]]
                        if tt["k"] in ("l", "x"):
                            loc = el
                            if not isinstance(loc, Loc):
                                loc = ValL(loc)
                            fr.env[d["id"]] = loc
                        else:
                            uid = self.uid(d["n"])
                            v = self.read(s2, el)
                            if isinstance(v, V):
                                sh = self.shape(d["t"])
                                if not isinstance(sh, Opaque):
                                    v = coerce(v, sh)
                            s2.vars[uid] = v
                            loc = VarL(uid)
                            fr.env[d["id"]] = loc
                        s2 = self.bindings(d, s2, fr, loc)
                        for s3, k, p in self.ex(b["body"], s2, fr):
                            out.append((s3, "next" if k in ("norm", "cont") else k, p))
                    return out

                b2 = dict(b)
                b2["_n"] = n
                res += self.loop(s, fr, step, b2, bound=n)
        return res

    # The loop rule
    def loop(self, st, fr, step, b, bound=None):
        from . import loops
        return loops.run(self, st, fr, step, b, bound)


class GlobL(Loc):
    def __init__(self, key):
        self.key = key
        self.uid = "g:" + key

    def __repr__(self):
        return "glob(%s)" % self.key


# GlobL integrates with the location helpers
import dv.val as _val

_lt, _lr, _ls = _val.loc_terms, _val.loc_rebuild, _val.loc_skey


def _loc_terms(l):
    if isinstance(l, GlobL):
        return ()
    return _lt(l)


def _loc_rebuild(l, ts):
    if isinstance(l, GlobL):
        return l
    return _lr(l, ts)


def _loc_skey(l):
    if isinstance(l, GlobL):
        return ("g", l.key)
    return _ls(l)


_val.loc_terms = _loc_terms
_val.loc_rebuild = _loc_rebuild
_val.loc_skey = _loc_skey
loc_terms, loc_rebuild, loc_skey = _loc_terms, _loc_rebuild, _loc_skey

_read0, _write0 = Engine.read, Engine.write


def _read(self, st, l):
    if isinstance(l, GlobL):
        return st.glob.get(l.key, self.init_glob.get(l.key))
    return _read0(self, st, l)


def _write(self, st, l, v):
    if isinstance(l, GlobL):
        st.glob[l.key] = v
        return
    return _write0(self, st, l, v)


Engine.read, Engine.write = _read, _write


def loc_uids(x):
    if x is None:
        return set()
    if isinstance(x, VarL):
        return {x.uid}
    if isinstance(x, (FieldL, IdxL, KeyL, OptL, PairL)):
        return loc_uids(x.base)
    if isinstance(x, (Ref, RefB)):
        return loc_uids(x.loc)
    if isinstance(x, (It, View, View2)):
        return loc_uids(x.cont) if isinstance(x.cont, Loc) else set()
    if isinstance(x, Lam):
        r = set()
        for k, (kind, y) in x.caps.items():
            r |= loc_uids(y)
        return r
    if isinstance(x, ValL):
        return loc_uids(x.val)
    if isinstance(x, Obj):
        r = set()
        for y in x.__dict__.values():
            if isinstance(y, (Loc, Py)):
                r |= loc_uids(y)
        return r
    if isinstance(x, EV):
        return getattr(x, "uids", set())
    return set()


_hq = {}


def has_quant(t):
    i = t.get_id()
    r = _hq.get(i)
    if r is not None:
        return r[1]
    if z3.is_quantifier(t):
        b = True
    else:
        b = any(has_quant(c) for c in t.children())
    _hq[i] = (t, b)
    return b


SKIP_CALLS = {
    "precice::utils::ignore", "precice::utils::format_or_error", "precice::logging::Logger::debug",
    "precice::logging::Logger::info", "precice::logging::Logger::warning", "precice::logging::Logger::trace",
    "precice::logging::Logger::error", "precice::profiling::Event::start", "precice::profiling::Event::stop",
    "precice::profiling::Event::addData",
}
