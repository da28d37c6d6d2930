"""Shapes, symbolic values, locations."""
import z3
from fractions import Fraction

I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()
StrS = z3.DeclareSort("Str")


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ terms
def num(t):
    """python int if t is an integer numeral else None"""
    if isinstance(t, int) and not isinstance(t, bool):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    return None


def eqt(a, b):
    return a.eq(b)


def simp(t):
    return z3.simplify(t)


_SIMP_MAX = 400


def lite(t):
    """cheap simplification of scalar terms"""
    return z3.simplify(t, som=False)


def mk_and(xs):
    ys = []
    for x in xs:
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return z3.BoolVal(False)
        ys.append(x)
    if not ys:
        return z3.BoolVal(True)
    if len(ys) == 1:
        return ys[0]
    return z3.And(*ys)


def mk_or(xs):
    ys = []
    for x in xs:
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return z3.BoolVal(True)
        ys.append(x)
    if not ys:
        return z3.BoolVal(False)
    if len(ys) == 1:
        return ys[0]
    return z3.Or(*ys)


def mk_not(x):
    if z3.is_true(x):
        return z3.BoolVal(False)
    if z3.is_false(x):
        return z3.BoolVal(True)
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    if a.sort() == B:
        if z3.is_true(a) and z3.is_false(b):
            return c
        if z3.is_false(a) and z3.is_true(b):
            return mk_not(c)
    return z3.If(c, a, b)


def sel(arr, i):
    """select with syntactic store/ite simplification"""
    if isinstance(i, int):
        i = z3.IntVal(i)
    n = 0
    while True:
        k = arr.decl().kind()
        if k == z3.Z3_OP_STORE:
            j = arr.arg(1)
            if j.eq(i):
                return arr.arg(2)
            d = distinct(i, j)
            if d:
                arr = arr.arg(0)
                n += 1
                continue
            if d is False:
                return arr.arg(2)
        elif k == z3.Z3_OP_CONST_ARRAY:
            return arr.arg(0)
        elif k == z3.Z3_OP_ITE:
            a = sel(arr.arg(1), i)
            b = sel(arr.arg(2), i)
            return ite(arr.arg(0), a, b)
        break
    return z3.Select(arr, i)


def distinct(i, j):
    """True: provably distinct, False: provably equal, None: unknown"""
    if z3.is_int_value(i) and z3.is_int_value(j):
        return i.as_long() != j.as_long()
    if i.sort() == I:
        d = z3.simplify(i - j)
        if z3.is_int_value(d):
            return d.as_long() != 0
    return None


def upd(arr, i, v):
    if isinstance(i, int):
        i = z3.IntVal(i)
    if arr.decl().kind() == z3.Z3_OP_STORE and arr.arg(1).eq(i):
        arr = arr.arg(0)
    if z3.is_select(v) and v.arg(0).eq(arr) and v.arg(1).eq(i):
        return arr
    return z3.Store(arr, i, v)


def rv(x):
    """python number -> z3 real"""
    if isinstance(x, float):
        fr = Fraction(x)
        return z3.RealVal(str(fr.numerator) + "/" + str(fr.denominator))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x.numerator) + "/" + str(x.denominator))
    return z3.RealVal(x)


# ------------------------------------------------------------------ shapes
class Sh:
    n = 0

    def __eq__(self, o):
        return type(self) is type(o) and self.key() == o.key()

    def __hash__(self):
        return hash((type(self).__name__, self.key()))

    def __repr__(self):
        return "%s%r" % (type(self).__name__, self.key())


class Scal(Sh):
    n = 1

    def __init__(self, sort, kind=None):
        self.sort = sort
        self.kind = kind  # 'u' unsigned, ('p', class) pointer, 'e' enum

    def key(self):
        return (str(self.sort),)

    def sorts(self):
        return [self.sort]


class Opaque(Sh):
    n = 0

    def __init__(self, name=""):
        self.name = name

    def key(self):
        return ()

    def sorts(self):
        return []


class Struct(Sh):
    def __init__(self, name, fields):
        self.name = name
        self.fields = fields
        self.n = sum(s.n for _, s in fields)
        self.off = {}
        o = 0
        for nme, s in fields:
            self.off[nme] = (o, s)
            o += s.n

    def key(self):
        return (self.name, tuple((n, s) for n, s in self.fields))

    def sorts(self):
        r = []
        for _, s in self.fields:
            r += s.sorts()
        return r


class Seq(Sh):
    """sequence; fixed=None: length is a leaf, else a python int"""

    def __init__(self, elem, fixed=None, kind="vec"):
        self.elem = elem
        self.fixed = fixed
        self.kind = kind
        self.n = elem.n + (1 if fixed is None else 0)

    def key(self):
        return (self.elem, self.fixed)

    def sorts(self):
        return ([I] if self.fixed is None else []) + [z3.ArraySort(I, s) for s in self.elem.sorts()]


class Mat(Sh):
    """Eigen matrix, column major: rows, cols, data"""
    n = 3

    def key(self):
        return ()

    def sorts(self):
        return [I, I, z3.ArraySort(I, R)]


class MapS(Sh):
    """ordered map: n, keys (iteration order) Array(Int,K), dom Array(K,Bool), pos Array(K,Int), values lifted over K.
    A set has no values. nval: shape of values or None"""

    def __init__(self, ksort, kshape, val, kind="map"):
        self.ksort = ksort
        self.kshape = kshape
        self.val = val
        self.kind = kind
        self.n = 4 + (val.n if val is not None else 0)

    def key(self):
        return (str(self.ksort), self.val)

    def sorts(self):
        k = self.ksort
        return [I, z3.ArraySort(I, k), z3.ArraySort(k, B), z3.ArraySort(k, I)] + (
            [z3.ArraySort(k, s) for s in self.val.sorts()] if self.val is not None else [])


class Opt(Sh):
    def __init__(self, elem):
        self.elem = elem
        self.n = 1 + elem.n

    def key(self):
        return (self.elem,)

    def sorts(self):
        return [B] + self.elem.sorts()


INT = Scal(I)
UINT = Scal(I, "u")
REAL = Scal(R)
BOOL = Scal(B)
STR = Scal(StrS)


def PTR(cls):
    return Scal(I, ("p", cls))


# ------------------------------------------------------------------ values
class V:
    """leafed value"""
    __slots__ = ("sh", "l")

    def __init__(self, sh, leaves):
        self.sh = sh
        self.l = tuple(leaves)
        if len(self.l) != sh.n:
            raise Unsupported("shape mismatch %r %d" % (sh, len(self.l)))

    def t(self):
        if self.sh.n != 1:
            raise Unsupported("scalar expected, got %r" % (self.sh,))
        return self.l[0]

    def same(self, o):
        return isinstance(o, V) and len(self.l) == len(o.l) and all(a.eq(b) for a, b in zip(self.l, o.l))

    def leaves(self):
        return self.l

    def rebuild(self, ls):
        return V(self.sh, ls)

    def skey(self):
        return ("V", self.sh)

    def __repr__(self):
        return "V(%r,%s)" % (self.sh, ", ".join(str(x)[:60] for x in self.l))

    # structure access
    def field(self, f):
        if not isinstance(self.sh, Struct):
            raise Unsupported("field %s of %r" % (f, self.sh))
        if f not in self.sh.off:
            raise Unsupported("no field %s in %s" % (f, self.sh.name))
        o, s = self.sh.off[f]
        return V(s, self.l[o:o + s.n])

    def with_field(self, f, v):
        o, s = self.sh.off[f]
        v = coerce(v, s)
        return V(self.sh, self.l[:o] + v.l + self.l[o + s.n:])

    def len(self):
        s = self.sh
        if isinstance(s, Seq):
            return z3.IntVal(s.fixed) if s.fixed is not None else self.l[0]
        if isinstance(s, MapS):
            return self.l[0]
        if isinstance(s, Mat):
            return lite(self.l[0] * self.l[1])
        raise Unsupported("len of %r" % (s,))

    def arrs(self):
        s = self.sh
        return self.l if s.fixed is not None else self.l[1:]

    def idx(self, i):
        s = self.sh
        if isinstance(s, Mat):
            return V(REAL, [sel(self.l[2], i)])
        return V(s.elem, [sel(a, i) for a in self.arrs()])

    def with_idx(self, i, v):
        s = self.sh
        if isinstance(s, Mat):
            return V(s, [self.l[0], self.l[1], upd(self.l[2], i, v.t())])
        v = coerce(v, s.elem)
        na = [upd(a, i, x) for a, x in zip(self.arrs(), v.l)]
        return V(s, (() if s.fixed is not None else (self.l[0],)) + tuple(na))

    def with_len(self, n):
        return V(self.sh, (n,) + self.l[1:])

    def with_arrs(self, arrs, n=None):
        if self.sh.fixed is not None:
            return V(self.sh, arrs)
        return V(self.sh, ((self.l[0] if n is None else n),) + tuple(arrs))

    # map
    def mget(self, k):
        return V(self.sh.val, [sel(a, k) for a in self.l[4:]])

    def mset(self, k, v):
        v = coerce(v, self.sh.val)
        return V(self.sh, self.l[:4] + tuple(upd(a, k, x) for a, x in zip(self.l[4:], v.l)))

    def mdom(self, k):
        return sel(self.l[2], k)


def coerce(v, sh):
    """adapt a value to the shape (int->real, fixed->dynamic sequences, real)"""
    if not isinstance(v, V):
        raise Unsupported("cannot store %s as %r" % (type(v).__name__, sh))
    if v.sh == sh:
        return V(sh, v.l)
    a, b = v.sh, sh
    if isinstance(a, Scal) and isinstance(b, Scal):
        x = v.t()
        if a.sort == I and b.sort == R:
            return V(sh, [z3.ToReal(x)])
        if a.sort == B and b.sort == I:
            return V(sh, [ite(x, z3.IntVal(1), z3.IntVal(0))])
        if a.sort == I and b.sort == B:
            return V(sh, [lite(x != 0)])
        if a.sort == R and b.sort == I:
            raise Unsupported("real to int coercion")
    if isinstance(a, Seq) and isinstance(b, Seq) and a.elem == b.elem:
        if b.fixed is None:
            return V(sh, (v.len(),) + tuple(v.arrs()))
        return V(sh, v.arrs())
    if isinstance(b, Opt):
        if a == b.elem or (isinstance(a, Scal) and isinstance(b.elem, Scal)):
            return V(sh, (z3.BoolVal(True),) + coerce(v, b.elem).l)
    if isinstance(b, Opaque):
        return V(sh, [])
    if isinstance(a, Struct) and isinstance(b, Struct) and len(a.fields) == len(b.fields):
        ls = []
        for (n1, s1), (n2, s2) in zip(a.fields, b.fields):
            ls += coerce(v.field(n1), s2).l
        return V(sh, ls)
    if isinstance(b, Struct) and isinstance(a, Struct):
        # slicing (derived to base)
        if all(n in a.off for n, _ in b.fields):
            ls = []
            for n2, s2 in b.fields:
                ls += coerce(v.field(n2), s2).l
            return V(sh, ls)
    if isinstance(a, Seq) and isinstance(b, Mat) or isinstance(a, Mat) and isinstance(b, Seq):
        if isinstance(a, Mat):
            return V(sh, [lite(v.l[0] * v.l[1]), v.l[2]])
        return V(sh, [v.len(), z3.IntVal(1), v.arrs()[0]])
    raise Unsupported("cannot coerce %r to %r" % (a, b))


class Py:
    """python-level value, structural"""

    def leaves(self):
        return ()

    def rebuild(self, ls):
        return self

    def skey(self):
        return ("Py", id(self))

    def same(self, o):
        return self is o or (type(self) is type(o) and self.skey() == o.skey() and len(self.leaves()) == len(o.leaves())
                             and all(a.eq(b) for a, b in zip(self.leaves(), o.leaves())))


class Ref(Py):
    """a reference / pointer to a location"""

    def __init__(self, loc):
        self.loc = loc

    def leaves(self):
        return loc_terms(self.loc)

    def rebuild(self, ls):
        return Ref(loc_rebuild(self.loc, list(ls)))

    def skey(self):
        return ("Ref", loc_skey(self.loc))

    def __repr__(self):
        return "Ref(%r)" % (self.loc,)


class It(Py):
    """iterator / pointer into a sequence or map: container location (or value) and index.
    view: optional function name describing projections (e.g. 'second')"""

    def __init__(self, cont, i, proj=None, rev=None):
        self.cont = cont
        self.i = i
        self.proj = proj
        self.rev = rev

    def leaves(self):
        if isinstance(self.cont, Loc):
            return loc_terms(self.cont) + (self.i,)
        return (self.i,)

    def rebuild(self, ls):
        ls = list(ls)
        if isinstance(self.cont, Loc):
            n = len(loc_terms(self.cont))
            return It(loc_rebuild(self.cont, ls[:n]), ls[n], self.proj, self.rev)
        return It(self.cont, ls[0], self.proj, self.rev)

    def skey(self):
        return ("It", loc_skey(self.cont) if isinstance(self.cont, Loc) else id(self.cont), self.proj, self.rev)

    def __repr__(self):
        return "It(%r,%s)" % (self.cont, self.i)


class View(Py):
    """contiguous/strided view on a sequence location: element j is cont[off + j*stride], 0<=j<n"""

    def __init__(self, cont, off, n, stride=None, kind="span"):
        self.cont = cont
        self.off = off
        self.n = n
        self.stride = stride if stride is not None else z3.IntVal(1)
        self.kind = kind

    def leaves(self):
        c = loc_terms(self.cont) if isinstance(self.cont, Loc) else ()
        return c + (self.off, self.n, self.stride)

    def rebuild(self, ls):
        ls = list(ls)
        if isinstance(self.cont, Loc):
            k = len(loc_terms(self.cont))
            return View(loc_rebuild(self.cont, ls[:k]), ls[k], ls[k + 1], ls[k + 2], self.kind)
        return View(self.cont, ls[0], ls[1], ls[2], self.kind)

    def skey(self):
        return ("View", loc_skey(self.cont) if isinstance(self.cont, Loc) else id(self.cont), self.kind)

    def at(self, j):
        if num(self.stride) == 1:
            return lite(self.off + j)
        return lite(self.off + j * self.stride)


class View2(Py):
    """matrix view (Eigen::Map / Ref / Block of a matrix): (i,j) -> cont[off + j*outer + i]"""

    def __init__(self, cont, off, rows, cols, outer=None):
        self.cont = cont
        self.off = off
        self.rows = rows
        self.cols = cols
        self.outer = outer if outer is not None else rows

    def leaves(self):
        c = loc_terms(self.cont) if isinstance(self.cont, Loc) else ()
        return c + (self.off, self.rows, self.cols, self.outer)

    def rebuild(self, ls):
        ls = list(ls)
        if isinstance(self.cont, Loc):
            k = len(loc_terms(self.cont))
            return View2(loc_rebuild(self.cont, ls[:k]), *ls[k:])
        return View2(self.cont, *ls)

    def skey(self):
        return ("View2", loc_skey(self.cont) if isinstance(self.cont, Loc) else id(self.cont))


class EV(Py):
    """lazy Eigen expression: rows, cols, fn(i,j)->Real term. vec: column vector"""

    def __init__(self, rows, cols, fn, sort=R, kind="mat"):
        self.rows = rows
        self.cols = cols
        self.fn = fn
        self.sort = sort
        self.kind = kind


class RefB(Ref):
    """binding of a C++ reference variable"""

    def rebuild(self, ls):
        return RefB(loc_rebuild(self.loc, list(ls)))

    def skey(self):
        return ("RefB", loc_skey(self.loc))


class Lam(Py):
    def __init__(self, lam, caps, this):
        self.lam = lam
        self.caps = caps  # decl id -> ('ref', loc) | ('val', value)
        self.this = this

    def leaves(self):
        r = ()
        for k in sorted(self.caps):
            kind, x = self.caps[k]
            r += loc_terms(x) if kind == "ref" else tuple(x.leaves())
        return r

    def rebuild(self, ls):
        ls = list(ls)
        caps = {}
        for k in sorted(self.caps):
            kind, x = self.caps[k]
            n = len(loc_terms(x)) if kind == "ref" else len(x.leaves())
            caps[k] = (kind, loc_rebuild(x, ls[:n]) if kind == "ref" else x.rebuild(ls[:n]))
            ls = ls[n:]
        return Lam(self.lam, caps, self.this)

    def skey(self):
        return ("Lam", self.lam)


class Obj(Py):
    """miscellaneous python-level value (ranges, functors, ...)"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


# ------------------------------------------------------------------ locations
class Loc:
    pass


class VarL(Loc):
    def __init__(self, uid):
        self.uid = uid

    def __repr__(self):
        return "v%s" % (self.uid,)


class ObjL(Loc):
    def __init__(self, addr, cls):
        self.addr = addr
        self.cls = cls

    def __repr__(self):
        return "obj(%s:%s)" % (self.addr, self.cls)


class FieldL(Loc):
    def __init__(self, base, cls, f):
        self.base = base
        self.cls = cls
        self.f = f

    def __repr__(self):
        return "%r.%s" % (self.base, self.f)


class IdxL(Loc):
    def __init__(self, base, i):
        self.base = base
        self.i = i

    def __repr__(self):
        return "%r[%s]" % (self.base, self.i)


class KeyL(Loc):
    def __init__(self, base, k):
        self.base = base
        self.k = k

    def __repr__(self):
        return "%r{%s}" % (self.base, self.k)


class OptL(Loc):
    def __init__(self, base):
        self.base = base


class ValL(Loc):
    """location of a temporary: read only value"""

    def __init__(self, val):
        self.val = val

    def __repr__(self):
        return "tmp(%r)" % (self.val,)


class PairL(Loc):
    """map entry (key, ref value)"""

    def __init__(self, base, k):
        self.base = base
        self.k = k


def loc_terms(l):
    if isinstance(l, VarL):
        return ()
    if isinstance(l, ObjL):
        return (l.addr,)
    if isinstance(l, (FieldL, OptL)):
        return loc_terms(l.base)
    if isinstance(l, IdxL):
        return loc_terms(l.base) + (l.i,)
    if isinstance(l, (KeyL, PairL)):
        return loc_terms(l.base) + (l.k,)
    if isinstance(l, ValL):
        return tuple(l.val.leaves())
    raise Unsupported("loc")


def loc_rebuild(l, ts):
    if isinstance(l, VarL):
        return l
    if isinstance(l, ObjL):
        return ObjL(ts[0], l.cls)
    if isinstance(l, FieldL):
        return FieldL(loc_rebuild(l.base, ts), l.cls, l.f)
    if isinstance(l, OptL):
        return OptL(loc_rebuild(l.base, ts))
    if isinstance(l, IdxL):
        return IdxL(loc_rebuild(l.base, ts[:-1]), ts[-1])
    if isinstance(l, KeyL):
        return KeyL(loc_rebuild(l.base, ts[:-1]), ts[-1])
    if isinstance(l, PairL):
        return PairL(loc_rebuild(l.base, ts[:-1]), ts[-1])
    if isinstance(l, ValL):
        return ValL(l.val.rebuild(ts))
    raise Unsupported("loc")


def loc_skey(l):
    if isinstance(l, VarL):
        return ("v", l.uid)
    if isinstance(l, ObjL):
        return ("o", l.cls)
    if isinstance(l, FieldL):
        return ("f", loc_skey(l.base), l.f)
    if isinstance(l, OptL):
        return ("opt", loc_skey(l.base))
    if isinstance(l, IdxL):
        return ("i", loc_skey(l.base))
    if isinstance(l, KeyL):
        return ("k", loc_skey(l.base))
    if isinstance(l, PairL):
        return ("p", loc_skey(l.base))
    if isinstance(l, ValL):
        return ("t", l.val.skey())
    raise Unsupported("loc")
