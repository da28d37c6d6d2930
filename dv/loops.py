"""The loop rule: write-set discovery, closed forms, candidate invariants (automatic and from the
specification), Houdini filtering, and the cut at the loop head."""
import z3
from .val import *
from . import val as _v

_i = [0]


def slots(eng, st):
    """all mutable slots of a state: key -> (leaves tuple, rebuild function, shape or None)"""
    r = {}
    for k, v in st.vars.items():
        r[("vars", k)] = v
    for k, v in st.conc.items():
        r[("conc", k)] = v
    for k, v in st.heap.items():
        r[("heap", k)] = v
    for k, v in st.glob.items():
        r[("glob", k)] = v
    for k, v in st.ghost.items():
        r[("ghost", k)] = v
    r[("alloc", None)] = st.alloc
    return r


def sget(eng, st, key):
    a, k = key
    if a == "alloc":
        return st.alloc
    d = getattr(st, a)
    if k in d:
        return d[k]
    if a == "conc":
        return eng.init_conc.get(k)
    if a == "heap":
        return eng.init_heap.get(k)
    if a == "glob":
        return eng.init_glob.get(k)
    return None


def sset(st, key, v):
    a, k = key
    if a == "alloc":
        st.alloc = v
    else:
        getattr(st, a)[k] = v


def lv(v):
    if v is None:
        return None
    if isinstance(v, tuple):
        return v
    if isinstance(v, z3.ExprRef):
        return (v,)
    if isinstance(v, (V, Py)):
        return tuple(v.leaves())
    return ()


def lbuild(v, ls):
    if isinstance(v, tuple):
        return tuple(ls)
    if isinstance(v, z3.ExprRef):
        return ls[0]
    if isinstance(v, (V, Py)):
        return v.rebuild(list(ls))
    return v


def vkey(v):
    if isinstance(v, tuple):
        return ("t", len(v))
    if isinstance(v, z3.ExprRef):
        return "z"
    if isinstance(v, (V, Py)):
        return v.skey()
    return ("py", v)


class LoopCtx:
    """what a specification hint sees"""

    def __init__(self, eng, st0, H, k, fr, node, bound, outs):
        self.eng, self.st0, self.H, self.k, self.fr, self.node, self.bound, self.outs = eng, st0, H, k, fr, node, bound, outs
        self.fn = fr.fn["nq"] if fr.fn else ""

    def _find(self, st, name):
        best = None
        for u in st.vars:
            if u.rsplit("#", 1)[0] == name:
                n = int(u.rsplit("#", 1)[1])
                if best is None or n > best[0]:
                    best = (n, u)
        return best[1] if best else None

    def has(self, name):
        return self._find(self.st0, name) is not None

    def cur(self, name):
        return self.H.vars[self._find(self.st0, name)]

    def init(self, name):
        return self.st0.vars[self._find(self.st0, name)]


def subst(t, pairs):
    return z3.substitute(t, *pairs) if pairs else t


def subst_state(eng, st, pairs):
    def sv(v):
        ls = lv(v)
        if not ls:
            return v
        return lbuild(v, [lite_s(subst(x, pairs)) for x in ls])

    s = st.copy()
    for a in ("vars", "conc", "heap", "glob", "ghost"):
        d = getattr(s, a)
        for k in list(d):
            d[k] = sv(d[k])
    s.alloc = lite_s(subst(s.alloc, pairs))
    s.pc = tuple(x for x in (lite_s(subst(c, pairs)) for c in s.pc) if not z3.is_true(x))
    return s


def lite_s(t):
    if z3.is_array(t) or z3.is_quantifier(t):
        return t
    return z3.simplify(t)


def mentions(eng, t, names):
    from .sym import consts_of
    return bool(consts_of(t, eng.cc) & names)


def run(eng, st, fr, step, b, bound):
    saved_obs = len(eng.obs)
    saved_ab = len(eng.abort_paths)

    def dostep(s, it):
        sv = eng.throws
        eng.throws = []
        try:
            r = list(step(s, it))
            for s1, p in eng.throws:
                r.append((s1, "throw", p))
        finally:
            eng.throws = sv
        return r

    # ---- concrete unrolling
    res = unroll(eng, st, fr, dostep, b, bound)
    if res is not None:
        return merge_exits(eng, res)
    del eng.obs[saved_obs:]
    del eng.abort_paths[saved_ab:]
    return symbolic(eng, st, fr, dostep, b, bound)


def merge_exits(eng, res):
    ex = [(s, None) for s, k, p in res if k == "norm"]
    ot = [r for r in res if r[1] != "norm"]
    if len(ex) > 1:
        ex = eng.merge(ex)
    return ot + [(s, "norm", None) for s, _ in ex]


def unroll(eng, st, fr, dostep, b, bound):
    nb = num(bound) if bound is not None else None
    maxn = eng.opts["unroll"]
    if bound is not None and nb is None and not eng.opts.get("unroll_sym"):
        return None
    if nb is not None and nb > maxn:
        return None
    res = []
    cur = [st]
    for it in range(maxn + 1):
        nxt = []
        for s in cur:
            outs = dostep(s, z3.IntVal(it))
            kinds = set(k for _, k, _ in outs)
            if "exit" in kinds and ("next" in kinds) and not eng.opts.get("unroll_sym"):
                return None
            for s1, k, p in outs:
                if k == "next":
                    drop_new(s1, st)
                    nxt.append(s1)
                elif k in ("exit", "break"):
                    drop_new(s1, st)
                    res.append((s1, "norm", None))
                else:
                    res.append((s1, k, p))
        if len(nxt) > 1:
            nxt = [s for s, _ in eng.merge([(s, None) for s in nxt])]
        cur = nxt
        if not cur:
            return res
    return None


def drop_new(s, st):
    pass


def symbolic(eng, st, fr, dostep, b, bound):
    from .sym import consts_of
    k = eng.fresh("k", I)
    saved_obs = len(eng.obs)
    saved_ab = len(eng.abort_paths)
    where = "%s:%s" % (fr.fn["nq"].replace("precice::", "") if fr.fn else "?", b.get("ln", "?"))
    base_serial = eng.fresh_n
    base = slots(eng, st)
    hav = {}      # key -> {leaf index: const}
    closed = {}   # (key, leaf index) -> term in k
    nonclosed = set()

    def val0(key):
        return sget(eng, st, key)

    def mkH(extra=()):
        H = st.copy()
        facts = [k >= 0]
        for key, hs in hav.items():
            v0 = val0(key)
            ls = list(lv(v0))
            for i, c in hs.items():
                ls[i] = closed.get((key, i), c)
            nv = lbuild(v0, ls)
            sset(H, key, nv)
            if isinstance(nv, V):
                facts += eng.wf(nv)
            elif key[0] == "heap":
                _, sh = eng.find_field(key[1][0], key[1][1])
                a = z3.Int("a!heap")
                for w in eng._wf(sh, [z3.Select(x, a) for x in nv], 1):
                    facts.append(z3.ForAll([a], w, patterns=[z3.Select(nv[0], a)]))
        if ("alloc", None) in hav:
            facts.append(H.alloc >= st.alloc)
        H.pc = H.pc + tuple(f for f in facts if not z3.is_true(f)) + tuple(extra)
        return H

    def once(H):
        outs = dostep(H, k)
        return outs

    # ---- write set fixpoint
    for rnd in range(12):
        H = mkH()
        outs = once(H)
        del eng.obs[saved_obs:]
        del eng.abort_paths[saved_ab:]
        new = False
        for s, kind, p in outs:
            if kind != "next":
                continue
            for key in list(slots(eng, s)):
                if key[0] == "vars" and key[1] not in st.vars:
                    continue
                if key == ("ghost", "$havoc"):
                    continue
                if key[0] == "ghost" and key[1] not in st.ghost:
                    raise Unsupported("ghost variable created in a loop: %r" % (key[1],))
                v1 = sget(eng, s, key)
                vh = sget(eng, H, key)
                if vh is None:
                    # lazily created object state: materialise the initial value in the pre-state
                    continue
                v0 = val0(key)
                if key[0] in ("conc", "heap", "glob") and key[1] not in getattr(st, key[0]):
                    # make slot explicit
                    sset(st, key, v0)
                if v1 is vh:
                    continue
                if vkey(v1) != vkey(vh):
                    if isinstance(vh, V) and isinstance(v1, V):
                        v1 = coerce(v1, vh.sh)
                    else:
                        raise Unsupported("variable changes its structure in a loop: %r (%s)" % (key, where))
                l1, lh = lv(v1), lv(vh)
                for i, (x, y) in enumerate(zip(l1, lh)):
                    if x.eq(y):
                        continue
                    if key in hav and i in hav[key]:
                        continue
                    if not z3.is_array(x) and eqv(x, y):
                        continue
                    hav.setdefault(key, {})[i] = eng.fresh("h." + str(key[1] if key[0] != "conc" else key[1][2]).split("#")[0], x.sort())
                    new = True
        if new:
            continue
        # ---- closed forms
        chg = False
        names = set()
        for key, hs in hav.items():
            for i, c in hs.items():
                if (key, i) not in closed:
                    names.add(c.decl().name())
        nexts = [s for s, kind, p in outs if kind == "next"]
        if not nexts:
            break
        for key, hs in hav.items():
            for i, c in hs.items():
                if (key, i) in closed or (key, i) in nonclosed or z3.is_array(c):
                    continue
                cf = None
                t0 = lv(val0(key))[i]
                if c.sort() in (I, R):
                    ds = []
                    for s in nexts:
                        x = lv(conf(sget(eng, s, key), val0(key)))[i]
                        ds.append(z3.simplify(x - c))
                    if all(d.eq(ds[0]) for d in ds) and not mentions(eng, ds[0], names | {k.decl().name()}) \
                            and not fresh_since(eng, ds[0], base_serial, k, hav):
                        d = ds[0]
                        if c.sort() == I:
                            cf = lite(t0 + d * k)
                        else:
                            cf = lite(t0 + d * z3.ToReal(k))
                    elif all(d.eq(ds[0]) for d in ds) and not mentions(eng, ds[0], names) \
                            and not fresh_since(eng, ds[0], base_serial, k, hav):
                        S = sum_fn(eng, ds[0], k)
                        cf = t0 + S(k)
                if cf is not None:
                    closed[(key, i)] = cf
                    chg = True
        if not chg:
            break
    else:
        raise Unsupported("loop write set does not stabilise at " + where)

    H = mkH()
    # ---- candidates
    kn = k.decl().name()
    havn = {}
    for key, hs in hav.items():
        for i, c in hs.items():
            if (key, i) not in closed:
                havn[c.decl().name()] = (key, i, c)
    names = set(havn)
    nexts = [s for s, kind, p in outs if kind == "next"]
    cands = []

    def add(name, f):
        if isinstance(f, (list, tuple)):
            for x in f:
                add(name, x)
            return
        f2 = f
        if z3.is_true(f2):
            return
        for _, g in cands:
            if g.eq(f2):
                return
        cands.append((name, f2))

    prelen = len(H.pc)
    if bound is not None:
        add("k<=n", k <= bound)
    for s, kind, p in outs:
        if kind == "throw":
            continue
        for c in s.pc[prelen:]:
            for a in atoms(c):
                for f in relax(a):
                    if mentions(eng, f, names | {kn}) and not fresh_since(eng, f, base_serial, k, hav):
                        add("bound", f)
    # conjuncts that held in all previous iterations
    if nexts:
        common = None
        for s in nexts:
            cs = []
            for c in s.pc[prelen:]:
                cs += conjs(c)
            ids = {c.get_id(): c for c in cs}
            common = ids if common is None else {i: c for i, c in common.items() if i in ids}
        j = z3.Int("j!inv")
        for c in (common or {}).values():
            from .sym import has_quant
            if has_quant(c) or mentions(eng, c, names) or not mentions(eng, c, {kn}) or fresh_since(eng, c, base_serial, k, hav):
                continue
            if is_bound_atom(c, k, bound):
                continue
            body = z3.substitute(c, (k, j))
            pats = pick_patterns(body, j)
            add("prev", qall(j, z3.Implies(z3.And(0 <= j, j < k), body), pats))
    if len(nexts) > 1 and len(nexts) <= 24:
        # every previous iteration took one of the continuing paths
        ds = []
        from .sym import has_quant
        for s in nexts:
            cs = {}
            for c in s.pc[prelen:]:
                for c2 in conjs(c):
                    if not (has_quant(c2) or mentions(eng, c2, names) or fresh_since(eng, c2, base_serial, k, hav) or is_bound_atom(c2, k, bound)):
                        cs[c2.get_id()] = c2
            ds.append(mk_and(list(cs.values())))
        d = z3.simplify(z3.Or(ds))
        if not z3.is_true(d) and mentions(eng, d, {kn}):
            body = z3.substitute(d, (k, j))
            add("prevany", qall(j, z3.Implies(z3.And(0 <= j, j < k), body), pick_patterns(body, j)))
    # min / max / flag patterns, monotonic
    for nme, (key, i, c) in havn.items():
        t0 = lv(val0(key))[i]
        if z3.is_array(c):
            continue
        xs = [lv(conf(sget(eng, s, key), val0(key)))[i] for s in nexts]
        if c.sort() in (I, R):
            add("mono+", c >= t0)
            add("mono-", c <= t0)
            if c.sort() == I:
                add("mono+k", c <= t0 + k)
                if bound is not None:
                    pass
        if c.sort() == B:
            add("flag", c)
            add("flag", z3.Not(c))
            add("flag", c == t0)
        auto_fold(eng, add, c, t0, xs, nexts, k, names - {nme}, base_serial, hav, prelen)
    # arrays
    for nme, (key, i, c) in havn.items():
        if not z3.is_array(c):
            continue
        t0 = lv(val0(key))[i]
        xs = [lv(conf(sget(eng, s, key), val0(key)))[i] for s in nexts]
        auto_array(eng, add, c, t0, xs, k, names - {nme}, base_serial, hav)
    ctx = LoopCtx(eng, st, H, k, fr, b, bound, outs)
    for hf in eng.loop_hints:
        try:
            for nm, f in hf(ctx) or []:
                add("hint:" + nm, f)
        except Exception as ex:  # a hint that does not apply never matters for soundness
            eng.notes.append("hint not applicable at %s: %s" % (where, ex))

    # ---- Houdini
    hl = [(c, key, i) for key, hs in hav.items() for i, c in hs.items() if (key, i) not in closed]
    bp = [(c, lv(val0(key))[i]) for c, key, i in hl] + [(k, z3.IntVal(0))]
    keep = []
    for nm, f in cands:
        g = lite_q(subst(f, bp))
        if eng.quick_valid(st.pc, g, ms=eng.opts["loop_ms"]):
            keep.append((nm, f))
    while True:
        bad = []
        for s in nexts:
            sp = [(c, lv(conf(sget(eng, s, key), val0(key)))[i]) for c, key, i in hl] + [(k, k + 1)]
            sol = z3.Solver()
            sol.set("timeout", eng.opts["loop_ms"])
            for a in eng.axioms:
                sol.add(a)
            for c in s.pc:
                sol.add(c)
            for _, f in keep:
                sol.add(f)
            for idx, (nm, f) in enumerate(keep):
                if idx in bad:
                    continue
                g = lite_q(subst(f, sp))
                sol.push()
                sol.add(z3.Not(g))
                r = sol.check()
                sol.pop()
                if r != z3.unsat:
                    bad.append(idx)
        if not bad:
            break
        if eng.opts.get("loop_debug"):
            print("drop", where, [(keep[i][0], str(keep[i][1])[:200]) for i in bad])
        keep = [x for i, x in enumerate(keep) if i not in bad]
    eng.loop_log.append(dict(where=where, modified=[str(kk) for kk in hav], closed=len(closed),
                             invariants=[(nm, str(f)[:300]) for nm, f in keep],
                             dropped=[nm for nm, f in cands if not any(f is g for _, g in keep)]))
    inv = [f for _, f in keep]
    H = mkH(inv)
    outs = once(H)
    res = []
    for s, kind, p in outs:
        if kind == "next":
            # every modified slot must be in the write set found above
            for key in slots(eng, s):
                if key[0] == "vars" and key[1] not in st.vars:
                    continue
                v1, vh = sget(eng, s, key), sget(eng, H, key)
                if vh is None or v1 is vh:
                    continue
                for i, (x, y) in enumerate(zip(lv(conf(v1, vh)), lv(vh))):
                    if not x.eq(y) and not (key in hav and i in hav[key]) and (z3.is_array(x) or not eqv(x, y)):
                        raise Unsupported("loop write set changed at " + where)
            continue
        s = s.copy()
        s.ghost["$havoc"] = True
        if kind in ("exit", "break"):
            if kind == "exit":
                T = exit_value(eng, s, k, bound, prelen, fr)
                if T is not None:
                    s = subst_state(eng, s, [(k, T)])
            if eng.feasible(s):
                res.append((s, "norm", None))
        else:
            res.append((s, kind, p))
    return merge_exits(eng, res)


def conf(v, like):
    if isinstance(like, V) and isinstance(v, V) and v.sh != like.sh:
        return coerce(v, like.sh)
    return v


def eqv(x, y):
    return z3.is_true(z3.simplify(x == y))


def lite_q(t):
    return t


def fresh_since(eng, t, serial, k, hav):
    """does the term contain constants created inside the loop body (other than k and the havoc constants)?"""
    from .sym import consts_of
    hn = {k.decl().name()}
    for hs in hav.values():
        for c in hs.values():
            hn.add(c.decl().name())
    for n in consts_of(t, eng.cc):
        if n in hn or n.startswith("S$"):
            continue
        if eng.serial(n) > serial:
            return True
    return False


def atoms(c):
    if z3.is_and(c) or z3.is_or(c):
        r = []
        for x in c.children():
            r += atoms(x)
        return r
    if z3.is_not(c):
        x = c.arg(0)
        if z3.is_and(x) or z3.is_or(x):
            r = []
            for y in x.children():
                r += atoms(mk_not(y))
            return r
        k = x.decl().kind()
        if k == z3.Z3_OP_LE:
            return [x.arg(0) > x.arg(1)]
        if k == z3.Z3_OP_GE:
            return [x.arg(0) < x.arg(1)]
        if k == z3.Z3_OP_LT:
            return [x.arg(0) >= x.arg(1)]
        if k == z3.Z3_OP_GT:
            return [x.arg(0) <= x.arg(1)]
        if k == z3.Z3_OP_EQ and x.arg(0).sort() == I:
            return [z3.Not(x)]
        return []
    return [c]


def conjs(c):
    if z3.is_and(c):
        r = []
        for x in c.children():
            r += conjs(x)
        return r
    return [c]


def relax(a):
    """weakenings of an atom that are plausible loop bounds"""
    if z3.is_quantifier(a) or (z3.is_not(a) and not z3.is_app(a.arg(0))):
        return []
    k = a.decl().kind()
    if z3.is_not(a):
        x = a.arg(0)
        if z3.is_quantifier(x):
            return []
        if x.decl().kind() == z3.Z3_OP_EQ and x.arg(0).sort() == I:
            return [x.arg(0) <= x.arg(1), x.arg(0) >= x.arg(1)]
        return []
    if k == z3.Z3_OP_EQ and a.arg(0).sort() == I:
        return [a.arg(0) <= a.arg(1), a.arg(0) >= a.arg(1)]
    if k in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE):
        x, y = a.arg(0), a.arg(1)
        if x.sort() == I:
            return [x <= y, x >= y, x <= y + 1, x + 1 >= y]
        return [x <= y, x >= y]
    return []


def is_bound_atom(c, k, bound):
    if bound is not None:
        for f in (k < bound, z3.Not(bound <= k), bound > k, z3.Not(k >= bound)):
            if z3.simplify(f).eq(z3.simplify(c)):
                return True
    return False


def subterms(t, seen=None):
    seen = {} if seen is None else seen
    if t.get_id() in seen:
        return seen
    seen[t.get_id()] = t
    if z3.is_quantifier(t):
        return seen
    for c in t.children():
        subterms(c, seen)
    return seen


def pick_patterns(body, j):
    """select terms mentioning j exactly as index (prefer those without arithmetic)"""
    best = []
    for t in subterms(body).values():
        if z3.is_select(t) and t.arg(1).eq(j) and not has_var(t.arg(0), j):
            best.append(t)
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0 and any(a.eq(j) for a in t.children()):
            best.append(t)
    return best[:3]


def has_var(t, j):
    return any(x.eq(j) for x in subterms(t).values())


def qall(j, body, pats=None):
    if pats:
        return z3.ForAll([j], body, patterns=list(pats))
    return z3.ForAll([j], body)


_sums = {}


def sum_fn(eng, f, k):
    """S with S(0)=0, S(k+1)=S(k)+f(k)"""
    d = eng.defs.setdefault("sums", {})
    j = z3.Int("j!sum")
    body = z3.simplify(z3.substitute(f, (k, j)))
    key = body.get_id()
    if key in d:
        return d[key][0]
    n = len(d)
    S = z3.Function("S$%d" % n, I, f.sort())
    d[key] = (S, body)
    zero = z3.RealVal(0) if f.sort() == R else z3.IntVal(0)
    eng.axioms.append(S(0) == zero)
    eng.axioms.append(z3.ForAll([j], z3.Implies(j >= 0, S(j + 1) == S(j) + body), patterns=[S(j + 1)]))
    eng.axioms.append(z3.ForAll([j], z3.Implies(j >= 1, S(j) == S(j - 1) + z3.substitute(body, (j, j - 1))), patterns=[S(j)]) if False else z3.BoolVal(True))
    # extensionality lemmas between sums: proved by induction outside (side condition f==g pointwise)
    for k2, (S2, b2) in list(d.items()):
        if S2.eq(S) or b2.sort() != body.sort():
            continue
        s = z3.Solver()
        s.set("timeout", 1500)
        for a in eng.axioms[:]:
            pass
        s.add(j >= 0, body != b2)
        if s.check() == z3.unsat:
            eng.axioms.append(z3.ForAll([j], z3.Implies(j >= 0, S(j) == S2(j)), patterns=[S(j)]))
    return S


def auto_fold(eng, add, c, t0, xs, nexts, k, others, serial, hav, prelen):
    """flags and running minimum/maximum"""
    if not xs:
        return
    j = z3.Int("j!inv")
    if c.sort() == B:
        x = z3.simplify(xs[0]) if len(xs) == 1 else None
        if len(xs) > 1 and len(xs) <= 24:
            # several continuing paths: the flag after the step as a function of the flag before
            ts, fs = [], []
            from .sym import has_quant
            for s, xi in zip(nexts, xs):
                cs = {}
                for q in s.pc[prelen:]:
                    for q2 in conjs(q):
                        if not (has_quant(q2) or mentions(eng, q2, others) or fresh_since(eng, q2, serial, k, hav)):
                            cs[q2.get_id()] = q2
                g = mk_and(list(cs.values()))
                ts.append(z3.substitute(z3.And(g, xi), (c, z3.BoolVal(True))))
                fs.append(z3.substitute(z3.And(g, xi), (c, z3.BoolVal(False))))
            tt, ff = z3.simplify(z3.Or(ts)), z3.simplify(z3.Or(fs))
            rng = lambda body: [z3.And(0 <= j, j < k), body]
            for nm, body0, neg in (("and", tt, False), ("or", ff, True)):
                body = z3.substitute(body0, (k, j))
                ps = pick_patterns(body, j)
                if not neg:
                    al = qall(j, z3.Implies(z3.And(0 <= j, j < k), body), ps)
                    add("and", c == z3.And(t0, al))
                    add("and1", z3.Implies(c, al))
                else:
                    add("or", c == z3.Or(t0, z3.Exists([j], z3.And(0 <= j, j < k, body))))
                    add("or1", z3.Implies(z3.Not(c), qall(j, z3.Implies(z3.And(0 <= j, j < k), z3.Not(body)), ps)))
            return
        if x is not None:
            tt = z3.simplify(z3.substitute(x, (c, z3.BoolVal(True))))
            ff = z3.simplify(z3.substitute(x, (c, z3.BoolVal(False))))
            for (a, b2) in ((tt, ff),):
                if z3.is_false(b2) and not mentions(eng, a, others) and not fresh_since(eng, a, serial, k, hav):
                    body = z3.substitute(a, (k, j))
                    add("and", c == z3.And(t0, qall(j, z3.Implies(z3.And(0 <= j, j < k), body), pick_patterns(body, j))))
                    add("and1", z3.Implies(c, qall(j, z3.Implies(z3.And(0 <= j, j < k), body), pick_patterns(body, j))))
                if z3.is_true(a) and not mentions(eng, b2, others) and not fresh_since(eng, b2, serial, k, hav):
                    body = z3.substitute(b2, (k, j))
                    add("or", c == z3.Or(t0, z3.Exists([j], z3.And(0 <= j, j < k, body))))
                    add("or1", z3.Implies(z3.Not(c), qall(j, z3.Implies(z3.And(0 <= j, j < k), z3.Not(body)), pick_patterns(body, j))))
        return
    vals = []
    for x in xs:
        for t in ite_leaves(x):
            if not t.eq(c) and not mentions(eng, t, others | {c.decl().name()}) and not fresh_since(eng, t, serial, k, hav):
                vals.append(t)
    for v in vals[:4]:
        body = z3.substitute(v, (k, j))
        p = pick_patterns(body, j)
        add("fold>=", qall(j, z3.Implies(z3.And(0 <= j, j < k), c >= body), p))
        add("fold<=", qall(j, z3.Implies(z3.And(0 <= j, j < k), c <= body), p))
        add("fold=", z3.Or(c == t0, z3.Exists([j], z3.And(0 <= j, j < k, c == body))))


def ite_leaves(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return ite_leaves(t.arg(1)) + ite_leaves(t.arg(2))
    return [t]


def store_chain(t, base):
    """[(index, value)] if t = store(...store(base, i, v)...), else None"""
    out = []
    while True:
        if t.eq(base):
            return out[::-1]
        if z3.is_store(t):
            out.append((t.arg(1), t.arg(2)))
            t = t.arg(0)
            continue
        return None


def lin_k(t, k):
    """t = off + c*k with c numeral -> (off, c)"""
    c = z3.simplify(z3.substitute(t, (k, k + 1)) - t)
    c = z3.simplify(c)
    if z3.is_int_value(c):
        off = z3.simplify(z3.substitute(t, (k, z3.IntVal(0))))
        return off, c.as_long()
    return None


def auto_array(eng, add, c, a0, xs, k, others, serial, hav):
    chains = []
    for x in xs:
        ch = store_chain(x, c)
        if ch is None:
            return
        chains.append(ch)
    nonempty = [ch for ch in chains if ch]
    if not nonempty:
        return
    isint = c.sort().domain() == I
    i = z3.Int("i!inv") if isint else z3.Const("i!inv", c.sort().domain())
    j = z3.Int("j!inv")
    bad = lambda t: mentions(eng, t, others) or fresh_since(eng, t, serial, k, hav)
    allidx = []
    for ch in nonempty:
        for ix, _ in ch:
            if bad(ix):
                return
            if not any(ix.eq(y) for y in allidx):
                allidx.append(ix)
    lins = [lin_k(ix, k) if isint else None for ix in allidx]
    sel_old = lambda t: replace_select(t, c, a0)
    if all(l is not None for l in lins):
        strides = set(l[1] for l in lins)
        if len(strides) == 1 and list(strides)[0] != 0:
            cc = list(strides)[0]
            o0 = lins[0][0]
            ds = [z3.simplify(l[0] - o0) for l in lins]
            if all(z3.is_int_value(d) for d in ds):
                dn = [d.as_long() for d in ds]
                mn, mx = min(dn), max(dn)
                lo = z3.simplify(o0 + mn)
                if cc > 0 and mx - mn < cc:
                    hi = z3.simplify(lo + cc * k)
                    add("frame", qall(i, z3.Implies(z3.Or(i < lo, i >= hi), c[i] == a0[i]), [c[i]]))
                    if mx - mn + 1 < cc:
                        # untouched lanes
                        for d in range(cc):
                            if d + mn not in dn:
                                add("frame-lane", qall(i, z3.Implies((i - lo) % cc == d, c[i] == a0[i]), [c[i]]))
                elif cc < 0:
                    hi = z3.simplify(o0 + mx)
                    lo2 = z3.simplify(hi + cc * k)
                    add("frame", qall(i, z3.Implies(z3.Or(i <= lo2, i > hi), c[i] == a0[i]), [c[i]]))
                if len(nonempty) == len(chains) and all(len(ch) == len(chains[0]) for ch in chains):
                    # content (single path, or the same value on all paths)
                    for pos, (ix, v) in enumerate(chains[0]):
                        same = all(ch[pos][0].eq(ix) and ch[pos][1].eq(v) for ch in chains)
                        if not same:
                            continue
                        v = sel_old(v)
                        if bad(v) or mentions(eng, v, {c.decl().name()}):
                            continue
                        off, st = lin_k(ix, k)
                        if abs(cc) == 1:
                            jj = z3.simplify((i - off) * cc)
                            body = z3.substitute(v, (k, jj))
                            add("content", qall(i, z3.Implies(z3.And(0 <= jj, jj < k), c[i] == body), [c[i]]))
                        elif cc > 1:
                            body = z3.substitute(v, (k, (i - off) / cc))
                            add("content", qall(i, z3.Implies(z3.And(off <= i, i < off + cc * k, (i - off) % cc == 0), c[i] == body), [c[i]]))
                return
        if strides == {0}:
            # the same location(s) in every iteration
            add("frame0", qall(i, z3.Implies(z3.And(*[i != l[0] for l in lins]), c[i] == a0[i]), [c[i]]))
            return
    # general index terms (e.g. pointers, permutations)
    cond = mk_or([z3.substitute(ix, (k, j)) == i for ix in allidx])
    add("gframe", qall(i, z3.Or(c[i] == a0[i], z3.Exists([j], z3.And(0 <= j, j < k, cond))), [c[i]]))
    if len(nonempty) == len(chains):
        for pos, (ix, v) in enumerate(chains[0]):
            if not all(len(ch) > pos and ch[pos][0].eq(ix) and ch[pos][1].eq(v) for ch in chains):
                continue
            v = sel_old(v)
            if bad(v) or mentions(eng, v, {c.decl().name()}):
                continue
            ixj = z3.substitute(ix, (k, j))
            body = z3.substitute(v, (k, j))
            pats = pick_patterns(ixj, j) or None
            add("gcontent", qall(j, z3.Implies(z3.And(0 <= j, j < k), z3.Select(c, ixj) == body), pats))


def replace_select(t, c, a0):
    """replace select(c, x) by select(a0, x)"""
    return z3.substitute(t, (c, a0)) if c.sort() == a0.sort() else t


def exit_value(eng, s, k, bound, prelen, fr):
    """a term T with pc => k == T"""
    cand = []
    if bound is not None:
        cand.append(bound)
    for c in s.pc[prelen:]:
        for a in atoms(c):
            x = solve_k(a, k)
            if x is not None:
                cand.append(x)
    for T in cand:
        if has_var(T, k):
            continue
        if eng.quick_valid(s.pc, k == T, ms=1000):
            return T
    return None


def solve_k(a, k):
    """from an atom l (<,<=,=,>=,>) r linear in k with coefficient +-1: the value of k where l==r"""
    if z3.is_not(a):
        a = a.arg(0)
    if not z3.is_app(a) or a.num_args() != 2 or a.arg(0).sort() != I:
        return None
    d = z3.simplify(a.arg(0) - a.arg(1))
    c = z3.simplify(z3.substitute(d, (k, k + 1)) - d)
    if z3.is_int_value(c) and abs(c.as_long()) == 1:
        off = z3.simplify(z3.substitute(d, (k, z3.IntVal(0))))
        return z3.simplify(-off if c.as_long() == 1 else off)
    if z3.is_int_value(c) and c.as_long() != 0:
        off = z3.simplify(z3.substitute(d, (k, z3.IntVal(0))))
        n = c.as_long()
        return z3.simplify((-off) / n) if n > 0 else z3.simplify(off / (-n))
    return None
