"""Eigen models."""
import z3
from .val import *
from .front import norm
from . import lib
from .lib import M, val, void, boolv, intv, realv, setv, copy_into, cont_loc, ZERO, ONE


def materialize(eng, st, x, sh):
    """EV -> V of shape sh; st in place"""
    if isinstance(x, V):
        return coerce(x, sh)
    x = ev_of(eng, st, x)
    n = lite(x.rows * x.cols) if num(x.cols) != 1 else x.rows
    if isinstance(sh, Mat):
        if num(x.cols) == 1:
            src = lambda j: [x.fn(j, ZERO)]
        elif num(x.rows) is not None and num(x.rows) > 0:
            src = lambda j: [x.fn(lite(j % x.rows), lite(j / x.rows))]
        else:
            # element facts by (row, column)
            a = eng.fresh("mat", z3.ArraySort(I, R))
            i, j = z3.Ints("i!m j!m")
            st.pc = st.pc + (z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < x.rows, 0 <= j, j < x.cols),
                                                          a[i + j * x.rows] == x.fn(i, j))),)
            return V(sh, [x.rows, x.cols, a])
        a = copy_into(eng, st, [z3.K(I, z3.RealVal(0))], ZERO, src, n)[0]
        return V(sh, [x.rows, x.cols, a])
    es = sh.elem.sort
    z = z3.K(I, z3.RealVal(0) if es == R else z3.IntVal(0))
    if sh.kind == "erow":
        src = lambda j: [x.fn(ZERO, j)]
        n = x.cols
    else:
        src = lambda j: [x.fn(j, ZERO)]
        n = x.rows
    a = copy_into(eng, st, [z], ZERO, src, n)[0]
    if sh.fixed is not None:
        return V(sh, [a])
    return V(sh, [n, a])


lib.materialize = materialize


def ev_of(eng, st, x):
    """any Eigen-like value -> EV"""
    v = val(eng, st, x)
    if isinstance(v, EV):
        return v
    if isinstance(v, Ref):
        return ev_of(eng, st, v.loc)
    if isinstance(v, View):
        def f(i, j, v=v):
            k = i if v.kind != "erow" else j
            return val(eng, st, eng.elem(st, v, k)).t()
        if v.kind == "erow":
            return EV(ONE, v.n, f, kind="vec")
        return EV(v.n, ONE, f, kind="vec")
    if isinstance(v, View2):
        return EV(v.rows, v.cols, lambda i, j: val(eng, st, v2_elem(eng, st, v, i, j)).t())
    if isinstance(v, V):
        sh = v.sh
        if isinstance(sh, Seq):
            a = v.arrs()[0]
            if sh.kind == "erow":
                return EV(ONE, v.len(), lambda i, j: sel(a, j), a.sort().range(), "vec")
            return EV(v.len(), ONE, lambda i, j: sel(a, i), a.sort().range(), "vec")
        if isinstance(sh, Mat):
            r, c, d = v.l
            if num(c) == 1:
                return EV(r, c, lambda i, j: sel(d, i))
            return EV(r, c, lambda i, j: sel(d, lite(i + j * r)))
        if isinstance(sh, Scal):
            t = v.t()
            return EV(None, None, lambda i, j: t, kind="scalar")
    raise Unsupported("Eigen value %r" % (v,))


def v2_elem(eng, st, v, i, j):
    idx = lite(v.off + i) if num(j) == 0 else lite(v.off + j * v.outer + i)
    return eng.elem(st, v.cont, idx) if not isinstance(val(eng, st, v.cont), V) or not isinstance(val(eng, st, v.cont).sh, Mat) else IdxL(v.cont, idx)


def dims(a, b):
    return (a.rows, a.cols) if a.rows is not None else (b.rows, b.cols)


def lift(op):
    def f(a, b):
        r, c = dims(a, b)
        return EV(r, c, lambda i, j: op(toR(a.fn(i, j)), toR(b.fn(i, j))), kind=a.kind)

    return f


def toR(t):
    return z3.ToReal(t) if t.sort() == I else t


def sum_over(eng, n, f):
    """sum_{0<=k<n} f(k)"""
    nn = num(n)
    if nn is not None and nn <= 16:
        r = z3.RealVal(0)
        for k in range(nn):
            r = r + f(z3.IntVal(k))
        return lite(r)
    from .loops import sum_fn
    k = eng.fresh("k", I)
    S = sum_fn(eng, f(k), k)
    return S(n)


def sum_all(eng, x, g=lambda t: t):
    if num(x.cols) == 1:
        return sum_over(eng, x.rows, lambda k: g(toR(x.fn(k, ZERO))))
    if num(x.rows) == 1:
        return sum_over(eng, x.cols, lambda k: g(toR(x.fn(ZERO, k))))
    if num(x.cols) is not None and num(x.cols) <= 4:
        r = z3.RealVal(0)
        for c in range(num(x.cols)):
            r = r + sum_over(eng, x.rows, lambda k: g(toR(x.fn(k, z3.IntVal(c)))))
        return r
    raise Unsupported("matrix sum")


E = ["Eigen::MatrixBase", "Eigen::DenseBase", "Eigen::PlainObjectBase", "Eigen::EigenBase", "Eigen::Matrix", "Eigen::Map", "Eigen::Ref",
     "Eigen::Block", "Eigen::VectorBlock", "Eigen::CwiseBinaryOp", "Eigen::CwiseUnaryOp", "Eigen::DenseCoeffsBase", "Eigen::MapBase",
     "Eigen::ArrayBase", "Eigen::ArrayWrapper", "Eigen::Transpose", "Eigen::CwiseNullaryOp", "Eigen::Product", "Eigen::DenseStorage",
     "Eigen::CommaInitializer", "Eigen::SelfAdjointView", "Eigen::ProductBase", "Eigen::Array", "Eigen::TransposeImpl"]


def EM(*names):
    def d(f):
        for c in E:
            for n in names:
                lib.MODELS[c + "::" + n] = f
        return f

    return d


@EM("size")
def e_size(eng, st, this, args, e, fr):
    x = ev_of(eng, st, this)
    if num(x.cols) == 1:
        return [(st, intv(x.rows, False))]
    if num(x.rows) == 1:
        return [(st, intv(x.cols, False))]
    return [(st, intv(x.rows * x.cols, False))]


@EM("rows")
def e_rows(eng, st, this, args, e, fr):
    return [(st, intv(ev_of(eng, st, this).rows, False))]


@EM("cols")
def e_cols(eng, st, this, args, e, fr):
    return [(st, intv(ev_of(eng, st, this).cols, False))]


@EM("data")
def e_data(eng, st, this, args, e, fr):
    v = val(eng, st, this)
    if isinstance(v, View):
        return [(st, It(v.cont, v.off))]
    if isinstance(v, View2):
        return [(st, It(v.cont, v.off))]
    return [(st, It(cont_loc(eng, st, this), ZERO))]


@EM("begin", "cbegin")
def e_begin(eng, st, this, args, e, fr):
    return [(st, It(cont_loc(eng, st, this), ZERO))]


@EM("end", "cend")
def e_end(eng, st, this, args, e, fr):
    return [(st, It(cont_loc(eng, st, this), eng.seq_len(st, this)))]


def coeff_loc(eng, st, this, idx, e, fr):
    v = val(eng, st, this)
    x = ev_of(eng, st, this)
    if len(idx) == 1:
        i = idx[0]
        if num(x.rows) == 1 and num(x.cols) != 1:
            ij = (ZERO, i)
            n = x.cols
        else:
            ij = (i, ZERO)
            n = x.rows
        if eng.opts.get("bounds"):
            eng.ob(st, lite(z3.And(i >= 0, i < n)), "%s: coefficient within bounds" % eng.where(e, fr), "bounds")
    else:
        ij = idx
        if eng.opts.get("bounds"):
            eng.ob(st, lite(z3.And(ij[0] >= 0, ij[0] < x.rows, ij[1] >= 0, ij[1] < x.cols)), "%s: coefficient within bounds" % eng.where(e, fr), "bounds")
    if isinstance(v, EV):
        return V(REAL, [x.fn(*ij)])
    if isinstance(v, View):
        return eng.elem(st, this if isinstance(this, Loc) else v, ij[1] if v.kind == "erow" else ij[0])
    if isinstance(v, View2):
        return v2_elem(eng, st, v, ij[0], ij[1])
    if isinstance(v, V) and isinstance(v.sh, Mat):
        i = ij[0] if num(ij[1]) == 0 else lite(ij[0] + ij[1] * v.l[0])
        return IdxL(cont_loc(eng, st, this), i)
    if isinstance(v, V) and isinstance(v.sh, Seq):
        return IdxL(cont_loc(eng, st, this), ij[1] if v.sh.kind == "erow" else ij[0])
    raise Unsupported("coefficient of %r" % (v,))


@EM("operator()", "operator[]", "coeff", "coeffRef", "x", "y", "z")
def e_coeff(eng, st, this, args, e, fr):
    nm = norm(e["fn"]["qn"]).split("::")[-1]
    if nm in ("x", "y", "z"):
        idx = [z3.IntVal("xyz".index(nm))]
    else:
        idx = [coerce(val(eng, st, a), INT).t() for a in args]
    return [(st, coeff_loc(eng, st, this, idx, e, fr))]


def ctor(eng, st, this, args, e, fr):
    sh = eng.shape(e["t"])
    s = st.copy()
    if isinstance(sh, Opaque):
        # Map / Ref / expression constructors
        tn = eng.prog.types[eng.prog.deref(e["t"])]
        n = norm(tn["n"])
        if n == "Eigen::Map" or n == "Eigen::Ref":
            return map_ctor(eng, st, args, e, tn)
        if len(args) == 1:
            return [(st, val(eng, st, args[0]))]
        raise Unsupported("Eigen ctor " + n)
    if not args:
        if isinstance(sh, Seq) and sh.fixed is not None:
            return [(s, eng.undef(sh, "undef"))]
        return [(s, eng.zero(sh))]
    vs = [val(eng, st, a) for a in args]
    v = vs[0]
    isint = lambda x: isinstance(x, V) and isinstance(x.sh, Scal) and x.sh.sort == I
    isnum = lambda x: isinstance(x, V) and isinstance(x.sh, Scal) and x.sh.sort in (I, R)
    if len(vs) == 1:
        if isinstance(v, It):
            n = sh.fixed
            if n is None:
                raise Unsupported("Matrix from pointer")
            a = copy_into(eng, s, [z3.K(I, z3.RealVal(0))], ZERO, lib.src_of(eng, st, v), z3.IntVal(n))[0]
            return [(s, V(sh, [a]))]
        if isint(v) and isinstance(sh, Seq) and sh.fixed is None:
            a = eng.fresh("undef", z3.ArraySort(I, sh.elem.sort))
            return [(s, V(sh, [v.t(), a]))]
        if isinstance(v, V) and isinstance(v.sh, Seq) and (v.sh.kind == "vec") and isinstance(sh, Seq):
            return [(s, coerce(v, sh))]
        return [(s, materialize(eng, s, v, sh))]
    if all(isnum(x) for x in vs):
        if isinstance(sh, Seq) and sh.fixed == len(vs):
            r = eng.zero(sh)
            for i, x in enumerate(vs):
                r = r.with_idx(z3.IntVal(i), x)
            return [(s, r)]
        if isinstance(sh, Mat) and len(vs) == 2 and isint(v):
            return [(s, V(sh, [v.t(), vs[1].t(), eng.fresh("undef", z3.ArraySort(I, R))]))]
    raise Unsupported("Matrix constructor with %d arguments" % len(vs))


def map_ctor(eng, st, args, e, tn):
    mt = eng.prog.types[tn["a"][0]["t"]]
    while mt["k"] in ("l", "x"):
        mt = eng.prog.types[mt["t"]]
    sh = eng.shape(tn["a"][0]["t"])
    vs = [val(eng, st, a) for a in args]
    p = vs[0]
    if norm(tn["n"]) == "Eigen::Ref":
        if isinstance(p, (View, View2)):
            return [(st, p)]
        if isinstance(p, EV):
            s = st.copy()
            u = eng.uid("ref")
            s.vars[u] = materialize(eng, s, p, sh)
            return [(s, Ref(VarL(u)))]
        if isinstance(args[0], Loc):
            return [(st, Ref(args[0]))]
        return [(st, p)]
    if isinstance(p, Ref) and isinstance(p.loc, IdxL):
        p = It(p.loc.base, p.loc.i)
    if not isinstance(p, It):
        raise Unsupported("Map of %r" % (p,))
    ints = [coerce(x, INT).t() for x in vs[1:] if isinstance(x, V) and isinstance(x.sh, Scal)]
    if isinstance(sh, Seq):
        n = ints[0] if ints else z3.IntVal(sh.fixed)
        if len(ints) == 2 and sh.kind != "erow":
            n = ints[0]
        if len(ints) == 2 and sh.kind == "erow":
            n = ints[1]
        return [(st, View(p.cont, p.i, n, inner_stride(eng, tn), "erow" if sh.kind == "erow" else "evec"))]
    if inner_stride(eng, tn) is not None:
        raise Unsupported("Map of a matrix with a stride")
    if len(ints) >= 2:
        return [(st, View2(p.cont, p.i, ints[0], ints[1]))]
    raise Unsupported("Map constructor")


@M("Eigen::PlainObjectBase::Map", "Eigen::PlainObjectBase::MapAligned")
def e_static_map(eng, st, this, args, e, fr):
    """VectorXd::Map(pointer, size): the element type and shape are those of the returned Eigen::Map"""
    tn = eng.prog.types[eng.prog.deref(e["t"])]
    if norm(tn["n"]) != "Eigen::Map":
        raise Unsupported("Map returning " + tn["n"])
    return map_ctor(eng, st, args, e, tn)


def inner_stride(eng, tn):
    """the stride argument of Eigen::Map<type, options, stride>"""
    for a in tn["a"][1:]:
        if "t" not in a:
            continue
        s = eng.prog.tstr(a["t"]).replace(" ", "")
        if s == "Eigen::Stride<0,0>":
            continue
        if s.startswith("Eigen::InnerStride<") and int(s[len("Eigen::InnerStride<"):-1]) > 0:
            return z3.IntVal(int(s[len("Eigen::InnerStride<"):-1]))
        raise Unsupported("Map with stride " + s)
    return None


for _c in E:
    lib.MODELS[_c + "::" + _c.split("::")[-1]] = ctor


def assign_to(eng, st, this, x):
    """*this = x (EV or V); returns state"""
    s = st.copy()
    o = val(eng, st, this)
    if isinstance(o, Ref):
        return assign_to(eng, st, o.loc, x)
    if isinstance(o, EV) and getattr(o, "lvalue", None) is not None:
        return assign_to(eng, st, o.lvalue, x)
    if isinstance(o, V):
        if isinstance(x, V) and isinstance(o.sh, Seq) and isinstance(x.sh, Seq) and x.sh.elem == o.sh.elem:
            eng.write(s, this, coerce(x, o.sh))
            return s
        eng.write(s, this, materialize(eng, s, x, o.sh))
        return s
    x = ev_of(eng, s, x)
    if isinstance(o, View):
        src = (lambda j: [x.fn(ZERO, j)]) if num(x.rows) == 1 and num(x.cols) != 1 else (lambda j: [x.fn(j, ZERO)])
        if num(o.stride) == 1:
            lib.block_copy(eng, s, It(o.cont, o.off), src, o.n)
            return s
        nn = num(o.n)
        if nn is None:
            raise Unsupported("strided assignment")
        vals = [src(z3.IntVal(k))[0] for k in range(nn)]
        for k in range(nn):
            eng.write(s, eng.elem(s, o, z3.IntVal(k)), V(REAL, [vals[k]]))
        return s
    if isinstance(o, View2):
        if num(o.rows) is not None and eqz(o.outer, o.rows) and num(o.rows) > 0:
            r = o.rows
            lib.block_copy(eng, s, It(o.cont, o.off), lambda j: [x.fn(lite(j % r), lite(j / r))], lite(o.rows * o.cols))
            return s
        nr, nc = num(o.rows), num(o.cols)
        if nr is not None and nc is not None and nr * nc <= 32:
            vals = {(i, j): x.fn(z3.IntVal(i), z3.IntVal(j)) for i in range(nr) for j in range(nc)}
            for (i, j), t in vals.items():
                eng.write(s, v2_elem(eng, s, o, z3.IntVal(i), z3.IntVal(j)), V(REAL, [t]))
            return s
        if nc == 1:
            lib.block_copy(eng, s, It(o.cont, o.off), lambda j: [x.fn(j, ZERO)], o.rows)
            return s
        raise Unsupported("block assignment")
    raise Unsupported("assignment to %r" % (o,))


eqz = lib.eqz


@EM("operator=", "noalias", "lazyAssign")
def e_assign(eng, st, this, args, e, fr):
    if not args:
        return [(st, this)]
    x = val(eng, st, args[0])
    if isinstance(x, Ref):
        x = val(eng, st, x.loc)
    return [(assign_to(eng, st, this, x), this)]


def opassign(op):
    def f(eng, st, this, args, e, fr):
        a = ev_of(eng, st, this)
        b = ev_of(eng, st, args[0])
        return [(assign_to(eng, st, this, lift(op)(a, b)), this)]

    return f


for _n, _o in (("operator+=", lambda x, y: x + y), ("operator-=", lambda x, y: x - y), ("operator*=", lambda x, y: x * y),
               ("operator/=", lambda x, y: x / y)):
    EM(_n)(opassign(_o))


def is_scalar(eng, st, x):
    v = val(eng, st, x)
    return isinstance(v, V) and isinstance(v.sh, Scal)


def is_arr(tn):
    return "Eigen::Array" in tn


def binop(op, nm):
    def f(eng, st, this, args, e, fr):
        a, b = (args[0], args[1]) if this is None else (this, args[0])
        x, y = ev_of(eng, st, a), ev_of(eng, st, b)
        if nm == "*" and not is_scalar(eng, st, a) and not is_scalar(eng, st, b):
            if x.kind == "arr" or y.kind == "arr":
                r = lift(op)(x, y)
                r.kind = "arr"
                return [(st, r)]
            return [(st, product(eng, st, x, y))]
        r = lift(op)(x, y) if x.rows is not None or y.rows is not None else None
        if r is None:
            raise Unsupported("scalar Eigen op")
        r.kind = x.kind if x.kind != "scalar" else y.kind
        return [(st, r)]

    return f


def product(eng, st, x, y):
    """matrix product: inner dimension numeral, or a sum term"""
    inner = x.cols

    def fn(i, j):
        return sum_over(eng, inner, lambda k: toR(x.fn(i, k)) * toR(y.fn(k, j)))

    return EV(x.rows, y.cols, fn)


for _s, _o in (("+", lambda x, y: x + y), ("-", lambda x, y: x - y), ("*", lambda x, y: x * y), ("/", lambda x, y: x / y)):
    _f = binop(_o, _s)
    lib.MODELS["Eigen::operator" + _s] = _f
    EM("operator" + _s)(_f)


_minus = lib.MODELS["Eigen::MatrixBase::operator-"]


@EM("operator-")
def e_minus(eng, st, this, args, e, fr):
    if not args:
        x = ev_of(eng, st, this)
        return [(st, EV(x.rows, x.cols, lambda i, j: -x.fn(i, j), kind=x.kind))]
    return _minus(eng, st, this, args, e, fr)


@EM("array", "matrix", "eval", "derived", "transpose", "nestedExpression", "const_cast_derived", "adjoint")
def e_same(eng, st, this, args, e, fr):
    nm = norm(e["fn"]["qn"]).split("::")[-1]
    if nm == "array":
        x = ev_of(eng, st, this)
        r = EV(x.rows, x.cols, x.fn, x.sort, "arr")
        r.lvalue = this
        return [(st, r)]
    if nm in ("transpose", "adjoint"):
        x = ev_of(eng, st, this)
        return [(st, EV(x.cols, x.rows, lambda i, j: x.fn(j, i), x.sort))]
    if nm == "eval":
        return [(st, val(eng, st, this))]
    return [(st, this)]


def unary(fn):
    def f(eng, st, this, args, e, fr):
        x = ev_of(eng, st, this)
        return [(st, EV(x.rows, x.cols, lambda i, j: fn(eng, toR(x.fn(i, j))), kind=x.kind))]

    return f


EM("cwiseAbs", "abs")(unary(lambda eng, t: z3.If(t >= 0, t, -t)))
EM("square", "cwiseAbs2", "abs2")(unary(lambda eng, t: t * t))
EM("cwiseSqrt", "sqrt")(unary(lambda eng, t: lib.mk_sqrt(eng, t)))
EM("inverse", "cwiseInverse")(unary(lambda eng, t: 1 / t))


def cw2(fn):
    def f(eng, st, this, args, e, fr):
        x, y = ev_of(eng, st, this), ev_of(eng, st, args[0])
        r = lift(fn)(x, y)
        r.kind = x.kind
        return [(st, r)]

    return f


EM("cwiseProduct")(cw2(lambda a, b: a * b))
EM("cwiseQuotient")(cw2(lambda a, b: a / b))
EM("cwiseMin", "min")(cw2(lambda a, b: z3.If(b < a, b, a)))
EM("cwiseMax", "max")(cw2(lambda a, b: z3.If(b > a, b, a)))


@EM("sum")
def e_sum(eng, st, this, args, e, fr):
    return [(st, realv(sum_all(eng, ev_of(eng, st, this))))]


@EM("squaredNorm")
def e_sqn(eng, st, this, args, e, fr):
    return [(st, realv(sum_all(eng, ev_of(eng, st, this), lambda t: t * t)))]


@EM("norm")
def e_norm(eng, st, this, args, e, fr):
    s = sum_all(eng, ev_of(eng, st, this), lambda t: t * t)
    st = st.assume(s >= 0)  # sum of squares (lemma by induction)
    return [(st, realv(lib.mk_sqrt(eng, s)))]


@EM("dot")
def e_dot(eng, st, this, args, e, fr):
    x, y = ev_of(eng, st, this), ev_of(eng, st, args[0])
    n = x.rows if num(x.cols) == 1 else x.cols
    gx = (lambda k: x.fn(k, ZERO)) if num(x.cols) == 1 else (lambda k: x.fn(ZERO, k))
    gy = (lambda k: y.fn(k, ZERO)) if num(y.cols) == 1 else (lambda k: y.fn(ZERO, k))
    return [(st, realv(sum_over(eng, n, lambda k: toR(gx(k)) * toR(gy(k)))))]


@EM("cross")
def e_cross(eng, st, this, args, e, fr):
    x, y = ev_of(eng, st, this), ev_of(eng, st, args[0])
    a = [x.fn(z3.IntVal(i), ZERO) for i in range(3)]
    b = [y.fn(z3.IntVal(i), ZERO) for i in range(3)]
    r = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    sh = Seq(REAL, 3, "evec")
    v = eng.zero(sh)
    for i in range(3):
        v = v.with_idx(z3.IntVal(i), V(REAL, [lite(r[i])]))
    return [(st, v)]


@EM("prod")
def e_prod(eng, st, this, args, e, fr):
    x = ev_of(eng, st, this)
    n = num(x.rows if num(x.cols) == 1 else x.cols)
    if n is None:
        raise Unsupported("prod")
    r = z3.RealVal(1)
    for k in range(n):
        r = r * toR(x.fn(z3.IntVal(k), ZERO))
    return [(st, realv(r))]


@EM("maxCoeff", "minCoeff")
def e_maxc(eng, st, this, args, e, fr):
    if args:
        raise Unsupported("maxCoeff with index")
    x = ev_of(eng, st, this)
    mx = norm(e["fn"]["qn"]).endswith("maxCoeff")
    n = x.rows if num(x.cols) == 1 else None
    if n is None:
        raise Unsupported("matrix maxCoeff")
    nn = num(n)
    if nn is not None and nn <= 8:
        r = x.fn(ZERO, ZERO)
        for k in range(1, nn):
            t = x.fn(z3.IntVal(k), ZERO)
            r = ite(lite(t > r if mx else t < r), t, r)
        return [(st, V(Scal(r.sort()), [r]))]
    r = eng.fresh("ext", x.sort)
    i = z3.Int("i!mx")
    w = eng.fresh("extw", I)
    t = x.fn(i, ZERO)
    s = st.assume(z3.And(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), (t <= r) if mx else (t >= r))),
                         z3.Implies(n > 0, z3.And(0 <= w, w < n, x.fn(w, ZERO) == r))))
    return [(s, V(Scal(x.sort), [r]))]


def all_entries(eng, x, f):
    """conjunction over the entries of a vector expression"""
    n = x.rows if num(x.cols) == 1 else x.cols if num(x.rows) == 1 else None
    if n is None:
        raise Unsupported("matrix predicate")
    get = (lambda k: toR(x.fn(k, ZERO))) if num(x.cols) == 1 else (lambda k: toR(x.fn(ZERO, k)))
    nn = num(n)
    if nn is not None and nn <= 8:
        return lite(z3.And([f(get(z3.IntVal(k))) for k in range(nn)] or [z3.BoolVal(True)]))
    i = z3.Int("i!all")
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), f(get(i))))


def absr(t):
    return z3.If(t >= 0, t, -t)


PREC = z3.RealVal("1/1000000000000")


@EM("isApproxToConstant", "isConstant")
def e_isconst(eng, st, this, args, e, fr):
    y = toR(val(eng, st, args[0]).t())
    p = toR(val(eng, st, args[1]).t()) if len(args) > 1 else PREC
    mn = lambda t: z3.If(absr(t) < absr(y), absr(t), absr(y))
    return [(st, boolv(all_entries(eng, ev_of(eng, st, this), lambda t: absr(t - y) <= mn(t) * p)))]


@EM("isZero")
def e_iszero(eng, st, this, args, e, fr):
    p = toR(val(eng, st, args[0]).t()) if args else PREC
    return [(st, boolv(all_entries(eng, ev_of(eng, st, this), lambda t: absr(t) <= p)))]


@EM("isApprox")
def e_isapprox(eng, st, this, args, e, fr):
    x, y = ev_of(eng, st, this), ev_of(eng, st, args[0])
    p = toR(val(eng, st, args[1]).t()) if len(args) > 1 else PREC
    sq = lambda t: t * t
    d = sum_all(eng, lift(lambda a, b: a - b)(x, y), sq)
    a, b = sum_all(eng, x, sq), sum_all(eng, y, sq)
    return [(st, boolv(d <= p * p * z3.If(a < b, a, b)))]


@EM("hasNaN", "isNaN")
def e_nan(eng, st, this, args, e, fr):
    return [(st, boolv(z3.BoolVal(False)))]


@EM("allFinite")
def e_fin(eng, st, this, args, e, fr):
    return [(st, boolv(z3.BoolVal(True)))]


def const_ev(r, c, t):
    return EV(r, c, lambda i, j: t)


@EM("Zero", "Constant", "Ones", "LinSpaced")
def e_zero(eng, st, this, args, e, fr):
    nm = norm(e["fn"]["qn"]).split("::")[-1]
    if nm == "LinSpaced":
        raise Unsupported("LinSpaced")
    vs = [val(eng, st, a).t() for a in args]
    t = z3.RealVal(0) if nm == "Zero" else z3.RealVal(1)
    if nm == "Constant":
        t = toR(vs[-1])
        vs = vs[:-1]
    rt = eng.prog.types[eng.prog.deref(e["t"])]
    # CwiseNullaryOp<op, Matrix<...>>
    msh = eng.shape(rt["a"][1]["t"]) if norm(rt["n"]) == "Eigen::CwiseNullaryOp" else eng.shape(e["t"])
    if isinstance(msh, Seq):
        n = vs[0] if vs else z3.IntVal(msh.fixed)
        return [(st, const_ev(ONE, n, t) if msh.kind == "erow" else const_ev(n, ONE, t))]
    if len(vs) == 2:
        return [(st, const_ev(vs[0], vs[1], t))]
    raise Unsupported("Zero")


def fillwith(eng, st, this, t):
    x = ev_of(eng, st, this)
    o = val(eng, st, this)
    s = st.copy()
    if isinstance(o, V) and isinstance(o.sh, Seq):
        eng.write(s, this, o.with_arrs([z3.K(I, t)]))
        return s
    if isinstance(o, V) and isinstance(o.sh, Mat):
        eng.write(s, this, V(o.sh, [o.l[0], o.l[1], z3.K(I, t)]))
        return s
    return assign_to(eng, st, this, const_ev(x.rows, x.cols, t))


@EM("setZero", "setOnes", "setConstant", "fill")
def e_setzero(eng, st, this, args, e, fr):
    nm = norm(e["fn"]["qn"]).split("::")[-1]
    vs = [val(eng, st, a).t() for a in args]
    if nm in ("setConstant", "fill"):
        t = toR(vs[-1])
        vs = vs[:-1]
    else:
        t = z3.RealVal(0 if nm == "setZero" else 1)
    s = st
    if vs:
        s = resize(eng, s, this, vs)
    return [(fillwith(eng, s, this, t), this)]


def resize(eng, st, this, vs):
    o = val(eng, st, this)
    s = st.copy()
    if isinstance(o.sh, Seq):
        if o.sh.fixed is not None:
            return s
        eng.write(s, this, V(o.sh, [vs[0] if len(vs) == 1 else (vs[1] if o.sh.kind == "erow" else vs[0]),
                                    eng.fresh("undef", o.l[1].sort())]))
    else:
        eng.write(s, this, V(o.sh, [vs[0], vs[1], eng.fresh("undef", o.l[2].sort())]))
    return s


@EM("resize")
def e_resize(eng, st, this, args, e, fr):
    vs = [coerce(val(eng, st, a), INT).t() for a in args]
    o = val(eng, st, this)
    if isinstance(o.sh, Seq) and eqz(o.len(), vs[0]):
        return [(st, void())]
    if isinstance(o.sh, Mat) and eqz(o.l[0], vs[0]) and eqz(o.l[1], vs[1]):
        return [(st, void())]
    return [(resize(eng, st, this, vs), void())]


@EM("conservativeResize")
def e_cresize(eng, st, this, args, e, fr):
    vs = [coerce(val(eng, st, a), INT).t() for a in args]
    o = val(eng, st, this)
    s = st.copy()
    if isinstance(o.sh, Seq):
        i = z3.Int("i!cr")
        a = eng.fresh("cr", o.l[1].sort())
        s.pc = s.pc + (z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < o.len(), i < vs[0]), a[i] == o.l[1][i]), patterns=[a[i]]),)
        eng.write(s, this, V(o.sh, [vs[0], a]))
        return [(s, void())]
    raise Unsupported("conservativeResize of a matrix")


def subview(eng, st, this, off, n, what):
    v = val(eng, st, this)
    if isinstance(v, Ref):
        return subview(eng, st, v.loc, off, n, what)
    if isinstance(v, EV):
        if num(v.cols) == 1:
            return EV(n, ONE, lambda i, j: v.fn(lite(i + off), j), v.sort, v.kind)
        return EV(ONE, n, lambda i, j: v.fn(i, lite(j + off)), v.sort, v.kind)
    if isinstance(v, View):
        return View(v.cont, v.at(off), n, v.stride, v.kind)
    if isinstance(v, V) and isinstance(v.sh, Seq):
        return View(cont_loc(eng, st, this), off, n, None, "erow" if v.sh.kind == "erow" else "evec")
    if isinstance(v, V) and isinstance(v.sh, Mat) and num(v.l[1]) == 1:
        return View(cont_loc(eng, st, this), off, n, None, "evec")
    raise Unsupported("segment of %r" % (v,))


@EM("segment", "head", "tail")
def e_segment(eng, st, this, args, e, fr):
    nm = norm(e["fn"]["qn"]).split("::")[-1]
    vs = [coerce(val(eng, st, a), INT).t() for a in args]
    ta = [int(a["v"]) for a in (e["fn"].get("ta") or []) if "v" in a]
    N = lib.seq_size if False else None
    if nm == "segment":
        off = vs[0]
        n = vs[1] if len(vs) > 1 else z3.IntVal(ta[0])
    elif nm == "head":
        off = ZERO
        n = vs[0] if vs else z3.IntVal(ta[0])
    else:
        x = ev_of(eng, st, this)
        tot = x.rows if num(x.cols) == 1 else x.cols
        n = vs[0] if vs else z3.IntVal(ta[0])
        off = lite(tot - n)
    if eng.opts.get("bounds"):
        x = ev_of(eng, st, this)
        tot = x.rows if num(x.cols) == 1 else x.cols
        eng.ob(st, lite(z3.And(off >= 0, n >= 0, off + n <= tot)), "%s: segment within bounds" % eng.where(e, fr), "bounds")
    return [(st, subview(eng, st, this, off, n, nm))]


def block(eng, st, this, i, j, r, c):
    v = val(eng, st, this)
    if isinstance(v, Ref):
        return block(eng, st, v.loc, i, j, r, c)
    if isinstance(v, EV):
        return EV(r, c, lambda a, b: v.fn(lite(a + i), lite(b + j)), v.sort, v.kind)
    if isinstance(v, View2):
        return View2(v.cont, lite(v.off + i + j * v.outer), r, c, v.outer)
    if isinstance(v, V) and isinstance(v.sh, Mat):
        return View2(cont_loc(eng, st, this), lite(i + j * v.l[0]), r, c, v.l[0])
    if isinstance(v, V) and isinstance(v.sh, Seq) or isinstance(v, View):
        if v.sh.kind == "erow" if isinstance(v, V) else v.kind == "erow":
            return subview(eng, st, this, j, c, "block")
        return subview(eng, st, this, i, r, "block")
    raise Unsupported("block")


@EM("col", "row", "leftCols", "rightCols", "middleCols", "topRows", "bottomRows", "middleRows", "block")
def e_col(eng, st, this, args, e, fr):
    nm = norm(e["fn"]["qn"]).split("::")[-1]
    vs = [coerce(val(eng, st, a), INT).t() for a in args]
    ta = [z3.IntVal(int(a["v"])) for a in (e["fn"].get("ta") or []) if "v" in a]
    x = ev_of(eng, st, this)
    v = val(eng, st, this)
    if nm == "col":
        if eng.opts.get("bounds"):
            eng.ob(st, lite(z3.And(vs[0] >= 0, vs[0] < x.cols)), "%s: column within bounds" % eng.where(e, fr), "bounds")
        if isinstance(v, V) and isinstance(v.sh, Mat):
            return [(st, View(cont_loc(eng, st, this), lite(vs[0] * x.rows), x.rows, None, "evec"))]
        if isinstance(v, View2):
            return [(st, View(v.cont, lite(v.off + vs[0] * v.outer), v.rows, None, "evec"))]
        return [(st, block(eng, st, this, ZERO, vs[0], x.rows, ONE))]
    if nm == "row":
        if isinstance(v, V) and isinstance(v.sh, Mat):
            return [(st, View(cont_loc(eng, st, this), vs[0], x.cols, x.rows, "erow"))]
        if isinstance(v, View2):
            return [(st, View(v.cont, lite(v.off + vs[0]), v.cols, v.outer, "erow"))]
        return [(st, block(eng, st, this, vs[0], ZERO, ONE, x.cols))]
    if nm == "leftCols":
        n = vs[0] if vs else ta[0]
        return [(st, block(eng, st, this, ZERO, ZERO, x.rows, n))]
    if nm == "rightCols":
        n = vs[0] if vs else ta[0]
        return [(st, block(eng, st, this, ZERO, lite(x.cols - n), x.rows, n))]
    if nm == "middleCols":
        return [(st, block(eng, st, this, ZERO, vs[0], x.rows, vs[1]))]
    if nm == "topRows":
        n = vs[0] if vs else ta[0]
        return [(st, block(eng, st, this, ZERO, ZERO, n, x.cols))]
    if nm == "bottomRows":
        n = vs[0] if vs else ta[0]
        return [(st, block(eng, st, this, lite(x.rows - n), ZERO, n, x.cols))]
    if nm == "middleRows":
        return [(st, block(eng, st, this, vs[0], ZERO, vs[1], x.cols))]
    if len(vs) == 4:
        return [(st, block(eng, st, this, vs[0], vs[1], vs[2], vs[3]))]
    if len(vs) == 2 and len(ta) == 2:
        return [(st, block(eng, st, this, vs[0], vs[1], ta[0], ta[1]))]
    raise Unsupported("block")


@M("Eigen::operator<<")
@EM("operator<<")
def e_comma(eng, st, this, args, e, fr):
    if this is None:
        raise Unsupported("stream output of Eigen")
    x = val(eng, st, args[0])
    s = st
    if isinstance(x, V) and isinstance(x.sh, Scal):
        s = st.copy()
        eng.write(s, coeff_loc(eng, s, this, [ZERO], e, fr) if not is_mat(eng, s, this) else coeff_rm(eng, s, this, 0), coerce(x, REAL))
        return [(s, Obj("comma", loc=this, i=1))]
    raise Unsupported("comma initialiser")


def is_mat(eng, st, this):
    v = val(eng, st, this)
    return isinstance(v, V) and isinstance(v.sh, Mat)


def coeff_rm(eng, s, this, i):
    v = val(eng, s, this)
    c = num(v.l[1])
    r = num(v.l[0])
    if c is None or r is None:
        raise Unsupported("comma initialiser of symbolic matrix")
    return IdxL(this, z3.IntVal(i // c + (i % c) * r))


@M("Eigen::CommaInitializer::operator,")
def e_comma2(eng, st, this, args, e, fr):
    c = val(eng, st, this)
    x = val(eng, st, args[0])
    s = st.copy()
    eng.write(s, coeff_rm(eng, s, c.loc, c.i) if is_mat(eng, s, c.loc) else coeff_loc(eng, s, c.loc, [z3.IntVal(c.i)], e, fr), coerce(x, REAL))
    return [(s, Obj("comma", loc=c.loc, i=c.i + 1))]


@M("Eigen::CommaInitializer::finished")
def e_fin2(eng, st, this, args, e, fr):
    c = val(eng, st, this)
    return [(st, c.loc)]


@EM("operator==")
def e_eq(eng, st, this, args, e, fr):
    a, b = (this, args[0]) if this is not None else (args[0], args[1])
    x, y = ev_of(eng, st, a), ev_of(eng, st, b)
    n = num(x.rows)
    if num(x.cols) == 1 and n is not None and n <= 8:
        return [(st, boolv(lite(z3.And(*[x.fn(z3.IntVal(k), ZERO) == y.fn(z3.IntVal(k), ZERO) for k in range(n)]))))]
    i = z3.Int("i!eq")
    return [(st, boolv(z3.And(x.rows == y.rows, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < x.rows), x.fn(i, ZERO) == y.fn(i, ZERO))))))]


@EM("operator!=")
def e_ne(eng, st, this, args, e, fr):
    return [(s, boolv(mk_not(v.t()))) for s, v in e_eq(eng, st, this, args, e, fr)]


@EM("swap")
def e_swap(eng, st, this, args, e, fr):
    x, y = val(eng, st, this), val(eng, st, args[0])
    s = st.copy()
    eng.write(s, this, y)
    eng.write(s, args[0], x)
    return [(s, void())]
