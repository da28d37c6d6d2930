"""Models of the standard library, boost range, fmt and Eigen operations used by the verified code.
Each model is a trusted contract; the evidence lists the ones a proof used."""
import z3
from .val import *
from . import val as _v
from .front import norm

ZERO, ONE, TRUE, FALSE = z3.IntVal(0), z3.IntVal(1), z3.BoolVal(True), z3.BoolVal(False)
VOID = Opaque("void")


def void():
    return V(VOID, [])


def boolv(t):
    return V(BOOL, [t])


def intv(t, u=True):
    if isinstance(t, int):
        t = z3.IntVal(t)
    return V(UINT if u else INT, [lite(t)])


def realv(t):
    return V(REAL, [t])


MODELS = {}


def M(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f

    return d


def install(eng):
    eng.models.update(MODELS)


# ------------------------------------------------------------------ helpers
def val(eng, st, x):
    return eng.read(st, x) if isinstance(x, Loc) else x


def scal(eng, st, x):
    return val(eng, st, x).t()


def setv(eng, st, loc, v):
    s = st.copy()
    eng.write(s, loc, v)
    return s


def fresh_arr(eng, name, sort):
    return eng.fresh(name, z3.ArraySort(I, sort))


def copy_into(eng, st, arrs, off, src, n):
    """arrays with [off, off+n) replaced by src(j) (list of leaf terms for 0<=j<n).
    st updated in place (facts)."""
    nn = num(n)
    off = z3.IntVal(off) if isinstance(off, int) else off
    if nn is not None and nn <= 16:
        out = list(arrs)
        for j in range(nn):
            vs = src(z3.IntVal(j))
            for q in range(len(out)):
                out[q] = upd(out[q], lite(off + j), vs[q])
        return out
    i = z3.Int("i!cp")
    out = [eng.fresh("cp", a.sort()) for a in arrs]
    vs = src(lite(i - off))
    for q, a in enumerate(arrs):
        st.pc = st.pc + (
            z3.ForAll([i], z3.Implies(z3.And(off <= i, i < off + n), out[q][i] == vs[q]), patterns=[out[q][i]]),
            z3.ForAll([i], z3.Implies(z3.Or(i < off, i >= off + n), out[q][i] == a[i]), patterns=[out[q][i]]))
    return out


def src_of(eng, st, it):
    """element leaf function of an iterator-based range"""

    def f(j):
        l = eng.it_elem(st, It(it.cont, lite(it.i + j), it.proj, it.rev))
        v = eng.read(st, l) if isinstance(l, Loc) else l
        return list(v.l)

    return f


def range_of(eng, st, loc):
    """-> (state, It at first element, number of elements)"""
    v = val(eng, st, loc)
    if isinstance(v, Obj) and v.kind == "range":
        return st, v.it, v.n
    if isinstance(v, Obj) and hasattr(v, "elem_fn"):
        return st, It(v, ZERO), v.n
    if isinstance(v, View):
        return st, It(loc if isinstance(loc, Loc) else v, ZERO), v.n
    if isinstance(v, Ref):
        return range_of(eng, st, v.loc)
    if isinstance(v, V) and isinstance(v.sh, (Seq, MapS, Mat)):
        return st, It(loc if isinstance(loc, Loc) else ValL(v), ZERO), v.len()
    if isinstance(v, V) and isinstance(v.sh, Struct):
        # class with begin()/end()
        for f in eng.prog.fns.values():
            if "cls" in f and eng.prog.tstr(f["cls"]) == v.sh.name and f["nq"].endswith("::begin") and not f["params"]:
                rs = eng.inline(f, st, loc, [], None)
                fe = [g for g in eng.prog.fns.values() if "cls" in g and eng.prog.tstr(g["cls"]) == v.sh.name
                      and g["nq"].endswith("::end") and not g["params"]][0]
                if len(rs) == 1:
                    s2, b = rs[0]
                    re_ = eng.inline(fe, s2, loc, [], None)
                    if len(re_) == 1:
                        b, e2 = val(eng, s2, b), val(eng, re_[0][0], re_[0][1])
                        return re_[0][0], b, lite(e2.i - b.i)
    raise Unsupported("range of %r" % (v,))


def mk_range(it, n):
    return Obj("range", it=it, n=n)


def count_between(a, b):
    return lite(b.i - a.i)


# ------------------------------------------------------------------ smart pointers
@M("std::__shared_ptr_access::operator->", "std::unique_ptr::operator->", "std::__shared_ptr::get", "std::unique_ptr::get",
   "std::reference_wrapper::operator->")
def ptr_get(eng, st, this, args, e, fr):
    return [(st, val(eng, st, this))]


@M("std::__shared_ptr_access::operator*", "std::unique_ptr::operator*", "std::reference_wrapper::get",
   "std::reference_wrapper::operator type-parameter-0-0 &")
def ptr_deref(eng, st, this, args, e, fr):
    return [(st, eng.deref(st, val(eng, st, this)))]


@M("std::__shared_ptr::operator bool", "std::unique_ptr::operator bool")
def ptr_bool(eng, st, this, args, e, fr):
    return [(st, boolv(eng.nonnull(val(eng, st, this))))]


@M("std::shared_ptr::operator=", "std::unique_ptr::operator=")
def ptr_assign(eng, st, this, args, e, fr):
    v = val(eng, st, args[0])
    return [(setv(eng, st, this, v), this)]


@M("std::unique_ptr::reset", "std::__shared_ptr::reset", "std::shared_ptr::reset")
def ptr_reset(eng, st, this, args, e, fr):
    old = val(eng, st, this)
    return [(setv(eng, st, this, V(old.sh, [ZERO] if not args else val(eng, st, args[0]).l)), void())]


@M("std::shared_ptr::shared_ptr", "std::unique_ptr::unique_ptr", "std::weak_ptr::weak_ptr", "std::reference_wrapper::reference_wrapper")
def ptr_ctor(eng, st, this, args, e, fr):
    sh = eng.shape(e["t"])
    if not args:
        return [(st, V(sh, [ZERO]))]
    v = args[0]
    if isinstance(v, Loc):
        if norm(e["fn"]["qn"]).startswith("std::reference_wrapper") and isinstance(v, ObjL):
            return [(st, V(sh, [v.addr]))]
        v = val(eng, st, v)
    if isinstance(v, Ref) and isinstance(v.loc, ObjL):
        return [(st, V(sh, [v.loc.addr]))]
    return [(st, V(sh, v.l))]


@M("std::make_shared", "std::make_unique")
def make_obj(eng, st, this, args, e, fr):
    rt = eng.prog.types[eng.prog.deref(e["t"])]
    tt = rt["a"][0]["t"]
    cls = eng.prog.tstr(tt)
    rec = eng.prog.recs.get(eng.prog.types[tt].get("rid"))
    if rec is None:
        raise Unsupported("make_shared of " + cls)
    cs = [f for f in eng.prog.fns.values() if f.get("ctor") and eng.prog.tstr(f["cls"]) == cls
          and len([p for p in f["params"]]) >= len(args) and not is_copy_ctor(eng, f)]
    cs = [f for f in cs if all("d" in p for p in f["params"][len(args):])] or cs
    if len(cs) > 1:
        c2 = [f for f in cs if len(f["params"]) == len(args)]
        cs = c2 or cs
    if len(cs) > 1:
        b = eng.pick_overload(cs, st, args)
        cs = [b]
    s = st.copy()
    a = eng.new_obj(s, cls)
    loc = ObjL(a, cls)
    out = []
    if cs:
        f = cs[0]
        s = s.copy()
        for s2, k, p in eng.call_body(f, s, loc, args, fr):
            if k == "throw":
                eng.throws.append((s2, p))
            else:
                out.append((s2, V(eng.shape(e["t"]), [a])))
    else:
        if args and len(args) == 1 and isinstance(val(eng, s, args[0]), V) and isinstance(val(eng, s, args[0]).sh, Struct):
            eng.write(s, loc, val(eng, s, args[0]))
            return [(s, V(eng.shape(e["t"]), [a]))]
        if args:
            # aggregate initialisation is not used by make_shared
            raise Unsupported("constructor of %s is not extracted" % cls)
        for s2, k, p in eng.init_members(s, rec, loc, {}, fr, True):
            out.append((s2, V(eng.shape(e["t"]), [a])))
    return out


def is_copy_ctor(eng, f):
    if len(f["params"]) < 1:
        return False
    t = eng.prog.types[f["params"][0]["t"]]
    if t["k"] in ("l", "x"):
        return eng.prog.tstr(t["t"]) == eng.prog.tstr(f["cls"])
    return False


@M("std::dynamic_pointer_cast", "std::static_pointer_cast")
def ptr_cast(eng, st, this, args, e, fr):
    v = val(eng, st, args[0])
    return [(st, V(eng.shape(e["t"]), v.l))]


# ------------------------------------------------------------------ generic value functions
@M("std::exchange")
def exchange(eng, st, this, args, e, fr):
    old = val(eng, st, args[0])
    new = val(eng, st, args[1])
    s = setv(eng, st, args[0], coerce(new, old.sh) if isinstance(old, V) else new)
    return [(s, old)]


@M("std::swap", "std::vector::swap", "std::iter_swap")
def swap(eng, st, this, args, e, fr):
    a, b = (args[0], args[1]) if this is None else (this, args[0])
    if norm(e["fn"]["qn"]) == "std::iter_swap":
        a, b = eng.deref(st, val(eng, st, a)), eng.deref(st, val(eng, st, b))
    x, y = val(eng, st, a), val(eng, st, b)
    s = st.copy()
    eng.write(s, a, y)
    eng.write(s, b, x)
    return [(s, void())]


def minmax(eng, st, args, less):
    vs = [val(eng, st, a) for a in args]
    r = vs[0]
    if isinstance(r, V) and isinstance(r.sh, Seq) and len(vs) == 1:
        n = num(r.len())
        if n is None:
            raise Unsupported("min of symbolic list")
        vs = [r.idx(z3.IntVal(i)) for i in range(n)]
        r = vs[0]
    for x in vs[1:]:
        a, b = r.t(), x.t()
        if a.sort() != b.sort():
            a, b = coerce(r, REAL).t(), coerce(x, REAL).t()
        r = V(r.sh, [ite(lite(b < a if less else b > a), b, a)])
    return r


@M("std::min")
def smin(eng, st, this, args, e, fr):
    if len(args) > 2 or (len(args) == 2 and not isinstance(val(eng, st, args[1]), V)):
        raise Unsupported("std::min with comparator")
    return [(st, minmax(eng, st, args, True))]


@M("std::max")
def smax(eng, st, this, args, e, fr):
    if len(args) > 2 or (len(args) == 2 and not isinstance(val(eng, st, args[1]), V)):
        raise Unsupported("std::max with comparator")
    return [(st, minmax(eng, st, args, False))]


@M("std::clamp")
def sclamp(eng, st, this, args, e, fr):
    x, lo, hi = [scal(eng, st, a) for a in args]
    return [(st, V(val(eng, st, args[0]).sh, [ite(lite(x < lo), lo, ite(lite(hi < x), hi, x))]))]


@M("std::abs", "abs", "fabs", "std::fabs")
def sabs(eng, st, this, args, e, fr):
    v = val(eng, st, args[0])
    x = v.t()
    return [(st, V(v.sh, [ite(lite(x >= 0), x, lite(-x))]))]


SQRT = z3.Function("sqrt", R, R)


@M("sqrt", "std::sqrt")
def ssqrt(eng, st, this, args, e, fr):
    return [(st, realv(mk_sqrt(eng, coerce(val(eng, st, args[0]), REAL).t())))]


def mk_sqrt(eng, x):
    if "sqrt" not in eng.defs:
        eng.defs["sqrt"] = True
        t = z3.Real("x!sqrt")
        eng.axioms.append(z3.ForAll([t], z3.Implies(t >= 0, z3.And(SQRT(t) >= 0, SQRT(t) * SQRT(t) == t)), patterns=[SQRT(t)]))
    return SQRT(x)


def uf(name, *sorts):
    return z3.Function(name, *sorts)


@M("std::pow", "pow")
def spow(eng, st, this, args, e, fr):
    a, b = coerce(val(eng, st, args[0]), REAL).t(), val(eng, st, args[1])
    n = num(b.t())
    if n is None and z3.is_rational_value(b.t()) and b.t().denominator_as_long() == 1:
        n = b.t().numerator_as_long()
    if n is not None and 0 <= n <= 4:
        r = z3.RealVal(1)
        for _ in range(n):
            r = r * a
        return [(st, realv(lite(r)))]
    return [(st, realv(uf("pow", R, R, R)(a, coerce(b, REAL).t())))]


@M("std::log", "log", "std::exp", "exp", "remainder", "std::remainder", "std::floor", "floor", "std::ceil", "ceil", "std::round", "round")
def smath(eng, st, this, args, e, fr):
    nm = norm(e["fn"]["qn"]).split("::")[-1]
    xs = [coerce(val(eng, st, a), REAL).t() for a in args]
    if nm == "floor":
        return [(st, realv(z3.ToReal(z3.ToInt(xs[0]))))]
    if nm == "ceil":
        return [(st, realv(-z3.ToReal(z3.ToInt(-xs[0]))))]
    if nm == "remainder":
        # IEEE remainder: x - n*y with n integral and |r| <= |y|/2
        x, y = xs
        n = eng.fresh("remn", I)
        r = x - z3.ToReal(n) * y
        s = st.assume(z3.Implies(y > 0, z3.And(2 * r <= y, 2 * r >= -y)))
        return [(s, realv(r))]
    return [(st, realv(uf(nm, *([R] * len(xs) + [R]))(*xs)))]


@M("std::isnan", "isnan", "std::isinf", "isinf")
def sisnan(eng, st, this, args, e, fr):
    return [(st, boolv(FALSE))]


@M("std::isfinite", "isfinite")
def sisfinite(eng, st, this, args, e, fr):
    return [(st, boolv(TRUE))]


@M("std::make_pair")
def make_pair(eng, st, this, args, e, fr):
    a, b = [val(eng, st, x) for x in args]
    sh = eng.shape(e["t"])
    if isinstance(a, Py) or isinstance(b, Py):
        return [(st, Obj("pair", first=a, second=b))]
    return [(st, V(sh, coerce(a, sh.fields[0][1]).l + coerce(b, sh.fields[1][1]).l))]


@M("std::pair::pair")
def pair_ctor(eng, st, this, args, e, fr):
    sh = eng.shape(e["t"])
    if not args:
        return [(st, eng.zero(sh))]
    if len(args) == 1:
        v = val(eng, st, args[0])
        return [(st, coerce(v, sh) if isinstance(v, V) else v)]
    a, b = [val(eng, st, x) for x in args]
    if isinstance(a, Py) or isinstance(b, Py):
        return [(st, Obj("pair", first=a, second=b))]
    return [(st, V(sh, coerce(a, sh.fields[0][1]).l + coerce(b, sh.fields[1][1]).l))]


@M("std::tuple::tuple", "std::make_tuple")
def tuple_ctor(eng, st, this, args, e, fr):
    sh = eng.shape(e["t"])
    if not args:
        return [(st, eng.zero(sh))]
    ls = []
    for (n, s), a in zip(sh.fields, args):
        ls += coerce(val(eng, st, a), s).l
    return [(st, V(sh, ls))]


@M("std::tie")
def stie(eng, st, this, args, e, fr):
    return [(st, Obj("tie", locs=list(args)))]


@M("std::tuple::operator=", "std::pair::operator=")
def tuple_assign(eng, st, this, args, e, fr):
    v = val(eng, st, args[0])
    o = val(eng, st, this)
    if isinstance(o, Obj) and o.kind == "tie":
        s = st.copy()
        for l, (n, _) in zip(o.locs, v.sh.fields):
            eng.write(s, l, v.field(n))
        return [(s, this)]
    return [(setv(eng, st, this, v), this)]


@M("std::get")
def sget(eng, st, this, args, e, fr):
    x = args[0]
    v = val(eng, st, x)
    ta = e["fn"].get("ta") or []
    i = None
    for a in ta:
        if "v" in a:
            i = int(a["v"])
            break
    if i is None:
        raise Unsupported("std::get by type")
    if isinstance(v, Obj):
        return [(st, [v.first, v.second][i])]
    if isinstance(v.sh, Struct):
        f = v.sh.fields[i][0]
        return [(st, FieldL(x, v.sh.name, f) if isinstance(x, Loc) else v.field(f))]
    if isinstance(v.sh, Seq):
        return [(st, IdxL(x, z3.IntVal(i)) if isinstance(x, Loc) else v.idx(z3.IntVal(i)))]
    raise Unsupported("std::get")


@M("std::distance")
def sdistance(eng, st, this, args, e, fr):
    a, b = val(eng, st, args[0]), val(eng, st, args[1])
    return [(st, intv(b.i - a.i, False))]


@M("std::next", "std::prev")
def snext(eng, st, this, args, e, fr):
    a = val(eng, st, args[0])
    d = scal(eng, st, args[1]) if len(args) > 1 else ONE
    if norm(e["fn"]["qn"]) == "std::prev":
        d = -d
    return [(st, It(a.cont, lite(a.i + d), a.proj, a.rev))]


@M("std::advance")
def sadvance(eng, st, this, args, e, fr):
    a = val(eng, st, args[0])
    d = scal(eng, st, args[1])
    return [(setv(eng, st, args[0], It(a.cont, lite(a.i + d), a.proj, a.rev)), void())]


# ------------------------------------------------------------------ strings
@M("std::basic_string::basic_string", "std::basic_string_view::basic_string_view", "fmt::basic_string_view::basic_string_view",
   "std::basic_string::operator basic_string_view", "std::basic_string_view::operator basic_string", "std::to_string",
   "std::basic_string::c_str", "std::basic_string::data", "std::basic_string_view::data")
def str_ctor(eng, st, this, args, e, fr):
    q = norm(e["fn"]["qn"])
    if q == "std::to_string":
        return [(st, eng.fresh_val(STR, "str"))]
    src = args[0] if args else (this if not e["k"] == "ctor" else None)
    if src is None:
        return [(st, V(STR, [eng.strlit("")]))]
    v = val(eng, st, src)
    if isinstance(v, V) and v.sh == STR and (len(args) <= 1 or e["k"] != "ctor" or True):
        return [(st, v)]
    return [(st, eng.fresh_val(STR, "str"))]


STRLEN = z3.Function("strlen", StrS, I)


@M("std::basic_string::empty", "std::basic_string_view::empty", "std::basic_string::size", "std::basic_string::length",
   "std::basic_string_view::size")
def str_len(eng, st, this, args, e, fr):
    t = val(eng, st, this).t()
    if "strlen" not in eng.defs:
        eng.defs["strlen"] = True
        s = z3.Const("s!len", StrS)
        eng.axioms.append(z3.ForAll([s], STRLEN(s) >= 0, patterns=[STRLEN(s)]))
    for lit, c in eng.strs.items():
        if c.eq(t):
            n = z3.IntVal(len(lit.encode()))
            break
    else:
        n = STRLEN(t)
        em = eng.strlit("")
        st = st.assume(z3.And((n == 0) == (t == em), n >= 0))
    if norm(e["fn"]["qn"]).endswith("empty"):
        return [(st, boolv(lite(n == 0)))]
    return [(st, intv(n))]


@M("std::basic_string::operator=", "std::basic_string_view::operator=")
def str_assign(eng, st, this, args, e, fr):
    v = val(eng, st, args[0])
    return [(setv(eng, st, this, v), this)]


@M("std::basic_string::operator+=", "std::basic_string::append", "std::basic_string::push_back")
def str_append(eng, st, this, args, e, fr):
    return [(setv(eng, st, this, eng.fresh_val(STR, "str")), this)]


@M("fmt::format", "fmt::join", "fmt::vformat", "fmt::to_string", "std::basic_ostringstream::str", "std::basic_stringstream::str")
def fmt_format(eng, st, this, args, e, fr):
    return [(st, eng.fresh_val(STR, "str"))]


@M("fmt::format_to", "fmt::print", "std::flush", "std::endl", "fmt::basic_format_string::basic_format_string")
def fmt_skip(eng, st, this, args, e, fr):
    return [(st, void())]


@M("std::basic_ostream::operator<<", "std::operator<<")
def os_out(eng, st, this, args, e, fr):
    return [(st, this if this is not None else args[0])]


@M("std::operator+")
def str_plus(eng, st, this, args, e, fr):
    a, b = [val(eng, st, x) for x in args]
    if isinstance(a, V) and a.sh == STR or isinstance(b, V) and b.sh == STR:
        return [(st, eng.fresh_val(STR, "str"))]
    raise Unsupported("operator+")


@M("std::hash::operator()")
def std_hash(eng, st, this, args, e, fr):
    v = val(eng, st, args[0])
    return [(st, intv(uf("hash." + str(v.t().sort()), v.t().sort(), I)(v.t())))]


# ------------------------------------------------------------------ comparison operators
def eq_values(eng, st, a, b):
    """equality formula of two values"""
    if isinstance(a, V) and isinstance(b, V):
        if isinstance(a.sh, Scal):
            return eng.compare(st, "==", a, b)
        if isinstance(a.sh, Seq) and isinstance(b.sh, Seq):
            n = a.len()
            j = z3.Int("j!eq")
            body = mk_and([eq_leaf(x, y) for x, y in zip(a.idx(j).l, b.idx(j).l)])
            leneq = lite(n == b.len())
            nn = num(n)
            if nn is not None and nn <= 8:
                cs = [eq_values(eng, st, a.idx(z3.IntVal(i)), b.idx(z3.IntVal(i))) for i in range(nn)]
                return mk_and([leneq] + cs)
            return z3.And(leneq, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), body), patterns=[z3.Select(a.arrs()[0], j)]))
        if isinstance(a.sh, Struct):
            return mk_and([eq_values(eng, st, a.field(n), b.field(n)) for n, _ in a.sh.fields])
        if isinstance(a.sh, Opt) and isinstance(b.sh, Opt):
            return lite(z3.And(a.l[0] == b.l[0], z3.Implies(a.l[0], eq_values(eng, st, V(a.sh.elem, a.l[1:]), V(b.sh.elem, b.l[1:])))))
        if isinstance(a.sh, Opt):
            return lite(z3.And(a.l[0], eq_values(eng, st, V(a.sh.elem, a.l[1:]), b)))
        if isinstance(a.sh, MapS) and isinstance(b.sh, MapS):
            k = z3.Const("k!eq", a.sh.ksort)
            body = [a.mdom(k) == b.mdom(k)]
            if a.sh.val is not None:
                body.append(z3.Implies(a.mdom(k), mk_and([x == y for x, y in zip(a.mget(k).l, b.mget(k).l)])))
            return z3.ForAll([k], mk_and(body))
    if isinstance(a, It) or isinstance(b, It) or isinstance(a, Ref) or isinstance(b, Ref):
        return eng.compare(st, "==", a, b)
    raise Unsupported("equality of %r and %r" % (a, b))


def eq_leaf(x, y):
    return x == y


def op_args(this, args):
    return (args[0], args[1]) if this is None else (this, args[0])


@M("std::operator==", "__gnu_cxx::operator==", "boost::iterators::operator==", "std::_Rb_tree_iterator::operator==", "std::_Rb_tree_const_iterator::operator==",
   "std::__detail::operator==", "std::reverse_iterator::operator==")
def op_eq(eng, st, this, args, e, fr):
    a, b = op_args(this, args)
    if len(args) + (this is not None) < 2:
        raise Unsupported("operator==")
    return [(st, boolv(eq_values(eng, st, val(eng, st, a), val(eng, st, b))))]


@M("std::operator!=", "__gnu_cxx::operator!=", "boost::iterators::operator!=", "std::_Rb_tree_iterator::operator!=", "std::_Rb_tree_const_iterator::operator!=",
   "std::__detail::operator!=", "std::reverse_iterator::operator!=")
def op_ne(eng, st, this, args, e, fr):
    a, b = op_args(this, args)
    return [(st, boolv(mk_not(eq_values(eng, st, val(eng, st, a), val(eng, st, b)))))]


@M("std::operator<", "__gnu_cxx::operator<", "std::less::operator()")
def op_lt(eng, st, this, args, e, fr):
    a, b = (args[0], args[1]) if len(args) == 2 else (this, args[0])
    a, b = val(eng, st, a), val(eng, st, b)
    if isinstance(a, V) and isinstance(a.sh, Struct):
        # lexicographic
        r = FALSE
        for n, _ in reversed(a.sh.fields):
            x, y = a.field(n).t(), b.field(n).t()
            r = z3.Or(x < y, z3.And(x == y, r))
        return [(st, boolv(lite(r)))]
    if isinstance(a, V) and a.sh == STR:
        return [(st, boolv(uf("strless", StrS, StrS, B)(a.t(), b.t())))]
    return [(st, boolv(eng.compare(st, "<", a, b)))]


@M("std::plus::operator()")
def op_plus(eng, st, this, args, e, fr):
    a, b = val(eng, st, args[0]), val(eng, st, args[1])
    return [(st, V(a.sh, [lite(a.t() + b.t())]))]


# ------------------------------------------------------------------ iterators
ITERS = ["__gnu_cxx::__normal_iterator", "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "std::__detail::_Node_iterator",
         "std::__detail::_Node_const_iterator", "boost::iterators::detail::iterator_facade_base", "std::reverse_iterator",
         "std::_Deque_iterator", "std::__detail::_Node_iterator_base", "std::move_iterator", "boost::container::vec_iterator"]


def it_deref(eng, st, this, args, e, fr):
    it = val(eng, st, this)
    l = eng.it_elem(st, it)
    return [(st, l)]


def it_arrow(eng, st, this, args, e, fr):
    it = val(eng, st, this)
    l = eng.it_elem(st, it)
    v = eng.read(st, l) if isinstance(l, Loc) else l
    if isinstance(v, V) and isinstance(v.sh, Scal) and isinstance(v.sh.kind, tuple):
        return [(st, Ref(l))]
    return [(st, Ref(l if isinstance(l, Loc) else ValL(l)))]


def it_step(d):
    def f(eng, st, this, args, e, fr):
        it = val(eng, st, this)
        n = It(it.cont, lite(it.i + d), it.proj, it.rev)
        s = setv(eng, st, this, n)
        return [(s, it if args else this)]

    return f


def it_plus(sgn):
    def f(eng, st, this, args, e, fr):
        if this is None:
            a, b = val(eng, st, args[0]), val(eng, st, args[1])
        else:
            a, b = val(eng, st, this), val(eng, st, args[0])
        if isinstance(b, It):
            if sgn < 0:
                return [(st, intv(a.i - b.i, False))]
            a, b = b, a
        return [(st, It(a.cont, lite(a.i + sgn * b.t()), a.proj, a.rev))]

    return f


def it_pluseq(sgn):
    def f(eng, st, this, args, e, fr):
        a, b = val(eng, st, this), val(eng, st, args[0])
        return [(setv(eng, st, this, It(a.cont, lite(a.i + sgn * b.t()), a.proj, a.rev)), this)]

    return f


def it_sub(eng, st, this, args, e, fr):
    a, b = val(eng, st, this), val(eng, st, args[0])
    return [(st, eng.it_elem(st, a, b.t()))]


def it_copy(eng, st, this, args, e, fr):
    if not args:
        return [(st, Obj("nullit"))]
    return [(st, val(eng, st, args[0]))]


for _n in ITERS:
    MODELS[_n + "::operator*"] = it_deref
    MODELS[_n + "::operator->"] = it_arrow
    MODELS[_n + "::operator++"] = it_step(1)
    MODELS[_n + "::operator--"] = it_step(-1)
    MODELS[_n + "::operator+"] = it_plus(1)
    MODELS[_n + "::operator-"] = it_plus(-1)
    MODELS[_n + "::operator+="] = it_pluseq(1)
    MODELS[_n + "::operator-="] = it_pluseq(-1)
    MODELS[_n + "::operator[]"] = it_sub
    MODELS[_n + "::" + _n.split("::")[-1]] = it_copy
    MODELS[_n + "::base"] = it_copy
MODELS["__gnu_cxx::operator-"] = it_plus(-1)
MODELS["__gnu_cxx::operator+"] = it_plus(1)


@M("std::begin", "std::cbegin")
def sbegin(eng, st, this, args, e, fr):
    return seq_begin(eng, st, args[0], [], e, fr)


@M("std::end", "std::cend")
def send_(eng, st, this, args, e, fr):
    return seq_end(eng, st, args[0], [], e, fr)


@M("std::data")
def sdata(eng, st, this, args, e, fr):
    return seq_begin(eng, st, args[0], [], e, fr)


@M("std::size")
def ssize(eng, st, this, args, e, fr):
    return seq_size(eng, st, args[0], [], e, fr)


# ------------------------------------------------------------------ sequences
def cont_loc(eng, st, this):
    return this if isinstance(this, Loc) else ValL(this)


def seq_begin(eng, st, this, args, e, fr):
    v = val(eng, st, this)
    if isinstance(v, Obj) and v.kind == "range":
        return [(st, v.it)]
    return [(st, It(cont_loc(eng, st, this), ZERO))]


def seq_end(eng, st, this, args, e, fr):
    v = val(eng, st, this)
    if isinstance(v, Obj) and v.kind == "range":
        return [(st, It(v.it.cont, lite(v.it.i + v.n), v.it.proj, v.it.rev))]
    return [(st, It(cont_loc(eng, st, this), eng.seq_len(st, this)))]


def seq_rbegin(eng, st, this, args, e, fr):
    return [(st, It(cont_loc(eng, st, this), ZERO, None, True))]


def seq_rend(eng, st, this, args, e, fr):
    return [(st, It(cont_loc(eng, st, this), eng.seq_len(st, this), None, True))]


def seq_size(eng, st, this, args, e, fr):
    v = val(eng, st, this)
    if isinstance(v, Obj) and v.kind == "range":
        return [(st, intv(v.n))]
    return [(st, intv(eng.seq_len(st, this)))]


def seq_empty(eng, st, this, args, e, fr):
    v = val(eng, st, this)
    if isinstance(v, Obj) and v.kind == "range":
        return [(st, boolv(lite(v.n == 0)))]
    return [(st, boolv(lite(eng.seq_len(st, this) == 0)))]


def bounds(eng, st, i, n, e, fr, what):
    if eng.opts.get("bounds"):
        eng.ob(st, lite(z3.And(i >= 0, i < n)), "%s: %s within bounds" % (eng.where(e, fr), what), "bounds")


def seq_at(eng, st, this, args, e, fr):
    i = scal(eng, st, args[0])
    n = eng.seq_len(st, this)
    if norm(e["fn"]["qn"]).endswith("::at"):
        out = []
        for s, ok in eng.fork(st, lite(z3.And(i >= 0, i < n))):
            if ok:
                out.append((s, eng.elem(s, cont_loc(eng, s, this), i)))
            else:
                eng.throws.append((s, "std::out_of_range"))
        return out
    bounds(eng, st, i, n, e, fr, "index")
    return [(st, eng.elem(st, cont_loc(eng, st, this), i))]


def seq_front(eng, st, this, args, e, fr):
    bounds(eng, st, ZERO, eng.seq_len(st, this), e, fr, "front")
    v = val(eng, st, this)
    if isinstance(v, Obj) and v.kind == "range":
        return [(st, eng.it_elem(st, v.it))]
    return [(st, eng.elem(st, cont_loc(eng, st, this), ZERO))]


def seq_back(eng, st, this, args, e, fr):
    v = val(eng, st, this)
    if isinstance(v, Obj) and v.kind == "range":
        bounds(eng, st, ZERO, v.n, e, fr, "back")
        return [(st, eng.it_elem(st, v.it, v.n - 1))]
    n = eng.seq_len(st, this)
    bounds(eng, st, ZERO, n, e, fr, "back")
    return [(st, eng.elem(st, cont_loc(eng, st, this), lite(n - 1)))]


def seq_data(eng, st, this, args, e, fr):
    return [(st, It(cont_loc(eng, st, this), ZERO))]


def store_elem(eng, st, v, i, x):
    """value v (Seq) with element i := x (handles boxed); st in place"""
    if v.sh.kind == "boxed":
        cls = v.sh.elem.kind[1]
        a = eng.new_obj(st, cls)
        if isinstance(x, ObjL):
            eng.write(st, ObjL(a, cls), eng.read(st, x))
        else:
            eng.write(st, ObjL(a, cls), x)
        return v.with_idx(i, V(v.sh.elem, [a]))
    return v.with_idx(i, x)


def seq_push(eng, st, this, args, e, fr):
    v = val(eng, st, this)
    x = val(eng, st, args[0])
    s = st.copy()
    n = v.len()
    nv = store_elem(eng, s, v, n, x).with_len(lite(n + 1))
    eng.write(s, this, nv)
    return [(s, void())]


def seq_emplace_back(eng, st, this, args, e, fr):
    v = val(eng, st, this)
    n = v.len()
    out = []
    for s, x in build_elem(eng, st, v, args, e, fr):
        s = s.copy()
        if isinstance(x, ObjL):
            nv = v.with_idx(n, V(v.sh.elem, [x.addr])).with_len(lite(n + 1))
        else:
            nv = v.with_idx(n, x).with_len(lite(n + 1))
        eng.write(s, this, nv)
        out.append((s, eng.elem(s, this, n)))
    return out


def elem_type(eng, e, this=None):
    """type index of the element type of the container a member call is made on"""
    c = e["fn"].get("cls")
    if c is None:
        return None
    t = eng.prog.types[eng.prog.deref(c)]
    a = t.get("a")
    return a[0]["t"] if a else None


def build_elem(eng, st, v, args, e, fr):
    """construct an element of sequence v from constructor arguments -> [(st, value or ObjL)]"""
    es = v.sh.elem
    boxed = v.sh.kind == "boxed"
    if len(args) == 1:
        x = val(eng, st, args[0])
        if boxed:
            if isinstance(args[0], ObjL) or isinstance(x, V) and isinstance(x.sh, Struct):
                s = st.copy()
                cls = es.kind[1]
                a = eng.new_obj(s, cls)
                eng.write(s, ObjL(a, cls), x)
                return [(s, ObjL(a, cls))]
        else:
            try:
                return [(st, coerce(x, es))]
            except Unsupported:
                pass
    if not args and not boxed:
        return [(st, eng.zero(es))]
    if isinstance(es, Struct) and es.name == "pair" and len(args) == 2:
        return [(st, V(es, coerce(val(eng, st, args[0]), es.fields[0][1]).l + coerce(val(eng, st, args[1]), es.fields[1][1]).l))]
    cls = es.kind[1] if boxed else getattr(es, "name", None)
    if cls is None:
        if isinstance(es, Seq) and args:
            # vector of vectors: (n) or (n, x)
            n = scal(eng, st, args[0])
            return [(st, eng.zero(es).with_len(n))]
        raise Unsupported("emplace element")
    cs = [f for f in eng.prog.fns.values() if f.get("ctor") and eng.prog.tstr(f["cls"]) == cls and not is_copy_ctor(eng, f)
          and len(f["params"]) >= len(args)]
    c2 = [f for f in cs if len(f["params"]) == len(args)] or cs
    if not c2:
        raise Unsupported("constructor of %s not extracted" % cls)
    f = c2[0] if len(c2) == 1 else eng.pick_overload(c2, st, args)
    s = st.copy()
    if boxed:
        a = eng.new_obj(s, cls)
        loc = ObjL(a, cls)
    else:
        uid = eng.uid("elem")
        s.vars[uid] = eng.undef(es, "undef")
        loc = VarL(uid)
    out = []
    for s2, k, p in eng.call_body(f, s, loc, args, fr):
        if k == "throw":
            eng.throws.append((s2, p))
            continue
        out.append((s2, loc if boxed else eng.read(s2, loc)))
    return out


def seq_pop(eng, st, this, args, e, fr):
    v = val(eng, st, this)
    bounds(eng, st, ZERO, v.len(), e, fr, "pop_back")
    return [(setv(eng, st, this, v.with_len(lite(v.len() - 1))), void())]


def seq_pop_front(eng, st, this, args, e, fr):
    v = val(eng, st, this)
    bounds(eng, st, ZERO, v.len(), e, fr, "pop_front")
    s = st.copy()
    na = copy_into(eng, s, [z3.K(I, z) for z in [sel(a, ZERO) for a in v.arrs()]], ZERO, lambda j: [sel(a, lite(j + 1)) for a in v.arrs()], lite(v.len() - 1))
    eng.write(s, this, v.with_arrs(na, lite(v.len() - 1)))
    return [(s, void())]


def seq_clear(eng, st, this, args, e, fr):
    v = val(eng, st, this)
    return [(setv(eng, st, this, eng.zero(v.sh)), void())]


def seq_resize(eng, st, this, args, e, fr):
    v = val(eng, st, this)
    n = scal(eng, st, args[0])
    x = coerce(val(eng, st, args[1]), v.sh.elem).l if len(args) > 1 else eng.zero(v.sh.elem).l
    old = v.len()
    s = st.copy()
    if num(old) == 0:
        na = [z3.K(I, t) for t in x]
    elif num(old) is not None and num(n) is not None:
        na = list(v.arrs())
        for i in range(num(old), num(n)):
            na = [upd(a, z3.IntVal(i), t) for a, t in zip(na, x)]
    else:
        i = z3.Int("i!rs")
        na = [eng.fresh("rs", a.sort()) for a in v.arrs()]
        for a, b, t in zip(na, v.arrs(), x):
            s.pc = s.pc + (z3.ForAll([i], a[i] == z3.If(z3.And(0 <= i, i < old), b[i], t), patterns=[a[i]]),)
    eng.write(s, this, v.with_arrs(na, n))
    return [(s, void())]


def seq_noop(eng, st, this, args, e, fr):
    return [(st, void())]


def seq_insert(eng, st, this, args, e, fr):
    pos = val(eng, st, args[0])
    v = val(eng, st, this)
    n = v.len()
    s = st.copy()
    at_end = eqz(pos.i, n)
    if len(args) == 3 and isinstance(val(eng, st, args[1]), It):
        b, f = val(eng, st, args[1]), val(eng, st, args[2])
        cnt = count_between(b, f)
        if v.sh.kind == "boxed":
            raise Unsupported("insert into boxed sequence")
        src = src_of(eng, st, b)
    elif len(args) == 2:
        x = val(eng, st, args[1])
        if isinstance(x, V) and isinstance(x.sh, Seq) and x.sh.elem == v.sh.elem and not (isinstance(v.sh.elem, Seq)):
            cnt = x.len()
            src = lambda j: [sel(a, j) for a in x.arrs()]
        else:
            cnt = ONE
            xl = coerce(x, v.sh.elem).l
            src = lambda j: list(xl)
    elif len(args) == 3:
        cnt = scal(eng, st, args[1])
        xl = coerce(val(eng, st, args[2]), v.sh.elem).l
        src = lambda j: list(xl)
    else:
        raise Unsupported("insert")
    if at_end:
        na = copy_into(eng, s, list(v.arrs()), n, src, cnt)
    else:
        i = z3.Int("i!ins")
        na = [eng.fresh("ins", a.sort()) for a in v.arrs()]
        sv = src(lite(i - pos.i))
        for q, (a, b) in enumerate(zip(na, v.arrs())):
            s.pc = s.pc + (z3.ForAll([i], a[i] == z3.If(i < pos.i, b[i], z3.If(i < pos.i + cnt, sv[q], b[i - cnt])), patterns=[a[i]]),
                           z3.ForAll([i], z3.And(z3.Implies(i < pos.i, a[i] == b[i]), z3.Implies(i >= pos.i, a[i + cnt] == b[i])), patterns=[b[i]]))
    eng.write(s, this, v.with_arrs(na, lite(n + cnt)))
    return [(s, It(this, pos.i))]


def eqz(a, b):
    return z3.is_true(z3.simplify(a == b))


def seq_assign(eng, st, this, args, e, fr):
    v = val(eng, st, this)
    r = seq_from_args(eng, st, v.sh, args, e, fr)
    return [(setv(eng, s, this, x), void()) for s, x in r]


def seq_opassign(eng, st, this, args, e, fr):
    x = val(eng, st, args[0])
    o = val(eng, st, this)
    if isinstance(x, V):
        x = coerce(x, o.sh)
    s = setv(eng, st, this, x)
    return [(s, this)]


def seq_erase(eng, st, this, args, e, fr):
    v = val(eng, st, this)
    a = val(eng, st, args[0])
    b = val(eng, st, args[1]).i if len(args) > 1 else lite(a.i + 1)
    n = v.len()
    s = st.copy()
    nn = lite(n - (b - a.i))
    if eqz(b, n):
        eng.write(s, this, v.with_len(lite(a.i)))
        return [(s, It(this, a.i))]
    i = z3.Int("i!er")
    na = [eng.fresh("er", x.sort()) for x in v.arrs()]
    for x, o in zip(na, v.arrs()):
        s.pc = s.pc + (z3.ForAll([i], x[i] == z3.If(i < a.i, o[i], o[i + (b - a.i)]), patterns=[x[i]]),)
    eng.write(s, this, v.with_arrs(na, nn))
    return [(s, It(this, a.i))]


def seq_from_args(eng, st, sh, args, e, fr):
    s = st.copy()
    vs = [val(eng, st, a) for a in args]
    # drop allocator arguments
    vs = [x for x in vs if not (isinstance(x, V) and isinstance(x.sh, Opaque))]
    if not vs:
        return [(s, eng.zero(sh))]
    x = vs[0]
    if isinstance(x, V) and isinstance(x.sh, Seq):
        return [(s, coerce(x, sh))]
    if isinstance(x, V) and isinstance(x.sh, Mat):
        return [(s, coerce(x, sh))]
    if isinstance(x, It):
        n = count_between(x, vs[1])
        return [(s, seq_from_range(eng, s, sh, x, n))]
    if isinstance(x, V) and isinstance(x.sh, Scal) and x.sh.sort == I:
        fill = coerce(vs[1], sh.elem).l if len(vs) > 1 else eng.zero(sh.elem).l
        if sh.kind == "boxed":
            raise Unsupported("sized boxed sequence")
        return [(s, V(sh, [x.t()] + [z3.K(I, t) for t in fill]))]
    raise Unsupported("sequence constructor")


def seq_from_range(eng, s, sh, it, n):
    """new sequence value from iterator range; s in place"""
    z = eng.zero(sh)
    base = val(eng, s, it.cont)
    if isinstance(base, V) and isinstance(base.sh, Seq) and base.sh.elem == sh.elem and num(it.i) == 0 and it.proj is None and not it.rev:
        return z.with_arrs(base.arrs(), n)
    src = src_of(eng, s, it)

    def src2(j):
        l = src(j)
        # convert int->real
        out = []
        for t, so in zip(l, sh.elem.sorts()):
            if t.sort() == I and so == R:
                t = z3.ToReal(t)
            out.append(t)
        return out

    na = copy_into(eng, s, list(z.arrs()), ZERO, src2, n)
    return z.with_arrs(na, n)


def seq_ctor(eng, st, this, args, e, fr):
    return seq_from_args(eng, st, eng.shape(e["t"]), args, e, fr)


for _n in ["std::vector", "std::array", "std::deque", "std::list", "std::initializer_list", "boost::container::vector",
           "boost::iterator_range_detail::iterator_range_base", "boost::iterator_range", "boost::sub_range"]:
    for _a, _f in dict(begin=seq_begin, cbegin=seq_begin, end=seq_end, cend=seq_end, rbegin=seq_rbegin, crbegin=seq_rbegin, rend=seq_rend,
                       crend=seq_rend, size=seq_size, empty=seq_empty, at=seq_at, front=seq_front, back=seq_back, data=seq_data,
                       push_back=seq_push, emplace_back=seq_emplace_back, pop_back=seq_pop, pop_front=seq_pop_front, clear=seq_clear,
                       resize=seq_resize, reserve=seq_noop, shrink_to_fit=seq_noop, insert=seq_insert, assign=seq_assign,
                       erase=seq_erase).items():
        MODELS[_n + "::" + _a] = _f
    MODELS[_n + "::operator[]"] = seq_at
    MODELS[_n + "::operator="] = seq_opassign
    MODELS[_n + "::" + _n.split("::")[-1]] = seq_ctor


@M("std::array::fill")
def arr_fill(eng, st, this, args, e, fr):
    v = val(eng, st, this)
    x = coerce(val(eng, st, args[0]), v.sh.elem)
    return [(setv(eng, st, this, V(v.sh, [z3.K(I, t) for t in x.l])), void())]


@M("std::_Bit_reference::operator bool")
def bit_read(eng, st, this, args, e, fr):
    return [(st, boolv(val(eng, st, this).t()))]


@M("std::_Bit_reference::operator=")
def bit_write(eng, st, this, args, e, fr):
    return [(setv(eng, st, this, boolv(val(eng, st, args[0]).t())), this)]


@M("std::allocator::allocator", "std::less::less", "std::back_insert_iterator::back_insert_iterator")
def alloc_ctor(eng, st, this, args, e, fr):
    return [(st, V(Opaque("alloc"), []))]


@M("std::back_inserter")
def back_inserter(eng, st, this, args, e, fr):
    return [(st, Obj("backins", loc=args[0]))]


@M("std::inserter")
def inserter(eng, st, this, args, e, fr):
    v = val(eng, st, args[0])
    return [(st, Obj("backins", loc=args[0]))]


# ------------------------------------------------------------------ algorithms
def out_write(eng, s, out, j, v):
    """write v at output iterator out + j ; s in place"""
    if isinstance(out, Obj) and out.kind == "backins":
        c = val(eng, s, out.loc)
        if isinstance(c.sh, MapS):
            r = set_insert_val(eng, s, out.loc, v)
            if len(r) != 1:
                raise Unsupported("forking inserter")
            return r[0][0]
        n = c.len()
        eng.write(s, out.loc, store_elem(eng, s, c, n, v).with_len(lite(n + 1)))
        return s
    l = eng.it_elem(s, It(out.cont, lite(out.i + j), out.proj, out.rev))
    eng.write(s, l, v)
    return s


def algo_loop(eng, st, fr, e, n, body):
    """run body(state, i) -> [(state, kind, payload)] for i in [0,n) as a loop; returns states"""

    def step(s1, it):
        out = []
        for s2, t in eng.fork(s1, lite(it < n)):
            if not t:
                out.append((s2, "exit", None))
                continue
            out += body(s2, it)
        return out

    res = []
    for s, k, p in eng.loop(st, fr, step, dict(ln=e.get("ln", "?")), bound=n):
        if k == "norm":
            res.append(s)
        elif k == "throw":
            eng.throws.append((s, p))
        else:
            raise Unsupported("algorithm outcome")
    return res


def callv(eng, st, f, args, fr):
    f = val(eng, st, f)
    if isinstance(f, Lam):
        return eng.call_lam(f, st, args, fr)
    if isinstance(f, Obj) and f.kind == "fn":
        return eng.invoke(f.fn, st, None, args, dict(args=[], fn=f.fn, t=0), fr)
    if isinstance(f, Obj) and f.kind == "memfn":
        this = args[0]
        v = val(eng, st, this)
        if isinstance(v, V) and isinstance(v.sh, Scal) and isinstance(v.sh.kind, tuple):
            this = eng.deref(st, v)
        return eng.invoke(f.fn, st, this, args[1:], dict(args=[], fn=f.fn, t=0), fr)
    if isinstance(f, Obj) and hasattr(f, "call"):
        return f.call(eng, st, args, fr)
    raise Unsupported("call of %r" % (f,))


def elem_at(eng, s, it, j):
    l = eng.it_elem(s, It(it.cont, lite(it.i + j), it.proj, it.rev))
    return l


def rng(eng, st, args):
    """first two iterator args"""
    a, b = val(eng, st, args[0]), val(eng, st, args[1])
    return a, count_between(a, b)


def search(eng, st, a, n, pred, e, fr):
    """-> [(state, index term or None)]"""
    u = eng.uid("found")
    s = st.copy()
    s.vars[u] = V(INT, [z3.IntVal(-1)])

    def body(s1, i):
        out = []
        for s2, r in pred(s1, elem_at(eng, s1, a, i)):
            c = eng.truth(s2, r)
            for s3, t in eng.fork(s2, c):
                if t:
                    s3 = s3.copy()
                    s3.vars[u] = V(INT, [i])
                    out.append((s3, "break", None))
                else:
                    out.append((s3, "next", None))
        return out

    save = eng.opts["merge"]
    eng.opts["merge"] = False
    try:
        res = algo_loop(eng, s, fr, e, n, body)
    finally:
        eng.opts["merge"] = save
    out = []
    for s1 in res:
        f = s1.vars[u].t()
        s1 = s1.copy()
        del s1.vars[u]
        out.append((s1, None if num(f) == -1 else f))
    return out


def mk_pred(eng, f, fr):
    return lambda s, el: callv(eng, s, f, [el], fr)


@M("std::find_if", "std::find_if_not")
def find_if(eng, st, this, args, e, fr):
    a, n = rng(eng, st, args)
    p = mk_pred(eng, args[2], fr)
    if norm(e["fn"]["qn"]).endswith("_not"):
        p0 = p
        p = lambda s, el: [(s2, boolv(mk_not(eng.truth(s2, r)))) for s2, r in p0(s, el)]
    out = []
    for s, f in search(eng, st, a, n, p, e, fr):
        out.append((s, It(a.cont, lite(a.i + (n if f is None else f)), a.proj, a.rev)))
    return out


@M("std::find")
def find(eng, st, this, args, e, fr):
    a, n = rng(eng, st, args)
    x = val(eng, st, args[2])

    def p(s, el):
        return [(s, boolv(eq_values(eng, s, val(eng, s, el), x)))]

    out = []
    for s, f in search(eng, st, a, n, p, e, fr):
        out.append((s, It(a.cont, lite(a.i + (n if f is None else f)), a.proj, a.rev)))
    return out


@M("std::any_of", "std::all_of", "std::none_of")
def any_of(eng, st, this, args, e, fr):
    q = norm(e["fn"]["qn"])
    a, n = rng(eng, st, args)
    p = mk_pred(eng, args[2], fr)
    if q == "std::all_of":
        p0 = p
        p = lambda s, el: [(s2, boolv(mk_not(eng.truth(s2, r)))) for s2, r in p0(s, el)]
    out = []
    for s, f in search(eng, st, a, n, p, e, fr):
        r = f is not None
        if q != "std::any_of":
            r = not r
        out.append((s, boolv(TRUE if r else FALSE)))
    return out


@M("std::for_each")
def for_each(eng, st, this, args, e, fr):
    a, n = rng(eng, st, args)

    def body(s, i):
        return [(s2, "next", None) for s2, _ in callv(eng, s, args[2], [elem_at(eng, s, a, i)], fr)]

    return [(s, val(eng, s, args[2])) for s in algo_loop(eng, st, fr, e, n, body)]


@M("std::transform")
def transform(eng, st, this, args, e, fr):
    a, n = rng(eng, st, args)
    two = len(args) == 5
    out = val(eng, st, args[3] if two else args[2])
    b = val(eng, st, args[2]) if two else None
    f = args[-1]

    def body(s, i):
        r = []
        xs = [elem_at(eng, s, a, i)] + ([elem_at(eng, s, b, i)] if two else [])
        for s2, v in callv(eng, s, f, xs, fr):
            v = val(eng, s2, v)
            s2 = out_write(eng, s2.copy(), out, i, v)
            r.append((s2, "next", None))
        return r

    res = algo_loop(eng, st, fr, e, n, body)
    return [(s, out if isinstance(out, Obj) else It(out.cont, lite(out.i + n), out.proj, out.rev)) for s in res]


@M("std::copy", "std::move_backward", "std::copy_n")
def copy(eng, st, this, args, e, fr):
    if norm(e["fn"]["qn"]) == "std::copy_n":
        a, n = val(eng, st, args[0]), scal(eng, st, args[1])
    else:
        a, n = rng(eng, st, args)
    out = val(eng, st, args[2])
    s = st.copy()
    if isinstance(out, Obj):
        c = val(eng, s, out.loc)
        if isinstance(c.sh, MapS) or c.sh.kind == "boxed":
            def body(s1, i):
                s1 = s1.copy()
                s1 = out_write(eng, s1, out, i, val(eng, s1, elem_at(eng, s1, a, i)))
                return [(s1, "next", None)]
            return [(s1, out) for s1 in algo_loop(eng, st, fr, e, n, body)]
        na = copy_into(eng, s, list(c.arrs()), c.len(), src_of(eng, st, a), n)
        eng.write(s, out.loc, c.with_arrs(na, lite(c.len() + n)))
        return [(s, out)]
    block_copy(eng, s, out, src_of(eng, st, a), n)
    return [(s, It(out.cont, lite(out.i + n), out.proj, out.rev))]


def resolve_seq(eng, st, cont, i):
    """follow views: -> (location of the underlying Seq value, index)"""
    while True:
        if isinstance(cont, View):
            cont, i = cont.cont, cont.at(i)
            continue
        v = val(eng, st, cont)
        if isinstance(v, View):
            if num(v.stride) != 1:
                raise Unsupported("strided view copy")
            cont, i = v.cont, v.at(i)
            continue
        return cont, i


def block_copy(eng, s, out, src, n):
    """write src(j), 0<=j<n at output iterator; s in place"""
    cont, i = resolve_seq(eng, s, out.cont, out.i)
    c = val(eng, s, cont)
    if isinstance(c.sh, Mat):
        na = copy_into(eng, s, [c.l[2]], i, src, n)
        eng.write(s, cont, V(c.sh, [c.l[0], c.l[1], na[0]]))
        return
    so = c.sh.elem.sorts()

    def src2(j):
        return [z3.ToReal(t) if t.sort() == I and q == R else t for t, q in zip(src(j), so)]

    na = copy_into(eng, s, list(c.arrs()), i, src2, n)
    eng.write(s, cont, c.with_arrs(na))


@M("std::fill", "std::fill_n")
def fill(eng, st, this, args, e, fr):
    if norm(e["fn"]["qn"]) == "std::fill_n":
        a, n = val(eng, st, args[0]), scal(eng, st, args[1])
    else:
        a, n = rng(eng, st, args)
    x = val(eng, st, args[2])
    s = st.copy()
    block_copy(eng, s, a, lambda j: list(x.l), n)
    return [(s, void())]


@M("std::iota")
def iota(eng, st, this, args, e, fr):
    a, n = rng(eng, st, args)
    x = val(eng, st, args[2])
    s = st.copy()
    block_copy(eng, s, a, lambda j: [lite(x.t() + j)], n)
    return [(s, void())]


@M("std::accumulate", "std::reduce")
def accumulate(eng, st, this, args, e, fr):
    a, n = rng(eng, st, args)
    u = eng.uid("acc")
    s = st.copy()
    s.vars[u] = val(eng, st, args[2])

    def body(s1, i):
        r = []
        el = elem_at(eng, s1, a, i)
        if len(args) > 3:
            for s2, v in callv(eng, s1, args[3], [VarL(u), el], fr):
                v = val(eng, s2, v)
                s2 = s2.copy()
                s2.vars[u] = coerce(v, s1.vars[u].sh)
                r.append((s2, "next", None))
        else:
            s1 = s1.copy()
            o = s1.vars[u]
            x = coerce(val(eng, s1, el), o.sh)
            s1.vars[u] = V(o.sh, [lite(o.t() + x.t())])
            r.append((s1, "next", None))
        return r

    out = []
    for s1 in algo_loop(eng, s, fr, e, n, body):
        out.append((s1, s1.vars[u]))
    return out


@M("std::transform_reduce")
def transform_reduce(eng, st, this, args, e, fr):
    a, n = rng(eng, st, args)
    if len(args) != 5:
        raise Unsupported("transform_reduce")
    u = eng.uid("acc")
    s = st.copy()
    s.vars[u] = val(eng, st, args[2])

    def body(s1, i):
        r = []
        for s2, x in callv(eng, s1, args[4], [elem_at(eng, s1, a, i)], fr):
            op = val(eng, s2, args[3])
            if isinstance(op, V):
                q = norm(eng.prog.tstr(eng.prog.deref(e["args"][3]["t"]))) if "t" in e["args"][3] else ""
                raise Unsupported("transform_reduce op " + q)
            for s3, v in callv(eng, s2, args[3], [VarL(u), x], fr):
                v = val(eng, s3, v)
                s3 = s3.copy()
                s3.vars[u] = coerce(v, s1.vars[u].sh)
                r.append((s3, "next", None))
        return r

    return [(s1, s1.vars[u]) for s1 in algo_loop(eng, s, fr, e, n, body)]


@M("std::is_sorted")
def is_sorted(eng, st, this, args, e, fr):
    a, n = rng(eng, st, args)
    if len(args) > 2:
        raise Unsupported("is_sorted with comparator")
    i = z3.Int("i!so")
    x = src_of(eng, st, a)(i)[0]
    y = src_of(eng, st, a)(i + 1)[0]
    return [(st, boolv(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i + 1 < n), x <= y))))]


@M("std::sort", "std::stable_sort")
def sort(eng, st, this, args, e, fr):
    """contract: the result is an ordered permutation (by default operator<, scalar elements)"""
    a, n = rng(eng, st, args)
    if len(args) > 2:
        raise Unsupported("sort with comparator")
    cont, off = resolve_seq(eng, st, a.cont, a.i)
    c = val(eng, st, cont)
    if num(off) != 0 or not eqz(n, c.len()) or not isinstance(c.sh.elem, Scal):
        raise Unsupported("partial sort")
    s = st.copy()
    old = c.arrs()[0]
    new = eng.fresh("sorted", old.sort())
    p = eng.fresh("perm", z3.ArraySort(I, I))
    q = eng.fresh("pinv", z3.ArraySort(I, I))
    i, j = z3.Ints("i!so j!so")
    rgi = z3.And(0 <= i, i < n)
    s.pc = s.pc + (
        z3.ForAll([i], z3.Implies(rgi, z3.And(0 <= p[i], p[i] < n, q[p[i]] == i, new[i] == old[p[i]])), patterns=[new[i]]),
        z3.ForAll([i], z3.Implies(rgi, z3.And(0 <= q[i], q[i] < n, p[q[i]] == i, new[q[i]] == old[i])), patterns=[old[i]]),
        z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n), new[i] <= new[j]), patterns=[z3.MultiPattern(new[i], new[j])]))
    eng.write(s, cont, c.with_arrs([new]))
    return [(s, void())]


@M("std::mem_fn")
def mem_fn(eng, st, this, args, e, fr):
    return [(st, args[0])]


# ------------------------------------------------------------------ maps and sets
def map_begin(eng, st, this, args, e, fr):
    return [(st, It(cont_loc(eng, st, this), ZERO))]


def map_key(eng, st, m, k):
    return coerce(val(eng, st, k), m.sh.kshape).t()


def map_find(eng, st, this, args, e, fr):
    m = val(eng, st, this)
    k = map_key(eng, st, m, args[0])
    out = []
    for s, t in eng.fork(st, m.mdom(k)):
        if t:
            out.append((s, It(cont_loc(eng, s, this), sel(m.l[3], k))))
        else:
            out.append((s, It(cont_loc(eng, s, this), m.l[0])))
    return out


def map_count(eng, st, this, args, e, fr):
    m = val(eng, st, this)
    k = map_key(eng, st, m, args[0])
    if norm(e["fn"]["qn"]).endswith("contains"):
        return [(st, boolv(m.mdom(k)))]
    return [(st, intv(ite(m.mdom(k), ONE, ZERO)))]


def map_at(eng, st, this, args, e, fr):
    m = val(eng, st, this)
    k = map_key(eng, st, m, args[0])
    out = []
    for s, t in eng.fork(st, m.mdom(k)):
        if t:
            out.append((s, KeyL(cont_loc(eng, s, this), k)))
        else:
            eng.throws.append((s, "std::out_of_range"))
    return out


def map_add_key(eng, s, m, k):
    """map value with new key k (known to be absent); value leaves unchanged. s in place (facts)"""
    n = lite(m.l[0] + 1)
    keys = eng.fresh("keys", m.l[1].sort())
    pos = eng.fresh("pos", m.l[3].sort())
    dom = upd(m.l[2], k, TRUE)
    nm = V(m.sh, (n, keys, dom, pos) + m.l[4:])
    s.pc = s.pc + tuple(eng._wf(MapS(m.sh.ksort, m.sh.kshape, None, m.sh.kind), nm.l[:4], 0))
    # order of the other keys is preserved
    p = z3.Select(pos, k)
    i = z3.Int("i!mk")
    if m.sh.kind in ("umap", "uset"):
        return nm
    s.pc = s.pc + (0 <= p, p < n, keys[p] == k,
                   z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), keys[i] == z3.If(i < p, m.l[1][i], z3.If(i == p, k, m.l[1][i - 1]))), patterns=[keys[i]]))
    return nm


def map_index(eng, st, this, args, e, fr):
    m = val(eng, st, this)
    k = map_key(eng, st, m, args[0])
    out = []
    for s, t in eng.fork(st, m.mdom(k)):
        if not t:
            s = s.copy()
            nm = map_add_key(eng, s, m, k)
            nm = nm.mset(k, eng.zero(m.sh.val))
            eng.write(s, this, nm)
        out.append((s, KeyL(this, k)))
    return out


def map_insert_kv(eng, st, this, k, mkval, assign=False):
    """-> [(state, It, inserted)]"""
    m = val(eng, st, this)
    out = []
    for s, t in eng.fork(st, m.mdom(k)):
        s = s.copy()
        if t:
            if assign:
                eng.write(s, this, m.mset(k, mkval(s)))
            out.append((s, It(this, sel(m.l[3], k)), FALSE))
        else:
            nm = map_add_key(eng, s, m, k)
            if m.sh.val is not None:
                nm = nm.mset(k, mkval(s))
            eng.write(s, this, nm)
            out.append((s, It(this, sel(nm.l[3], k)), TRUE))
    return out


def map_emplace(eng, st, this, args, e, fr):
    m = val(eng, st, this)
    q = norm(e["fn"]["qn"])
    if m.sh.val is None:
        if len(args) == 2 and isinstance(val(eng, st, args[0]), It) and isinstance(val(eng, st, args[1]), It):
            a, n = rng(eng, st, args)

            def body(s, i):
                v = val(eng, s, elem_at(eng, s, a, i))
                return [(s2, "next", None) for s2, _, _ in map_insert_kv(eng, s, this, coerce(v, m.sh.kshape).t(), None)]

            return [(s, void()) for s in algo_loop(eng, st, fr, e, n, body)]
        k = map_key(eng, st, m, args[-1])
        mk = None
    elif len(args) == 1 and q.endswith("::insert"):
        p = val(eng, st, args[0])
        if isinstance(p, Obj):
            k = coerce(p.first, m.sh.kshape).t()
            mk = lambda s: p.second
        else:
            k = coerce(p.field("first"), m.sh.kshape).t()
            mk = lambda s: p.field("second")
    elif len(args) == 2:
        k = map_key(eng, st, m, args[0])
        x = val(eng, st, args[1])
        if isinstance(x, It):
            raise Unsupported("map range insert")
        try:
            coerce(x, m.sh.val)
            mk = lambda s: x
        except Unsupported:
            fake = V(Seq(m.sh.val), [ZERO] + [z3.K(I, t) for t in eng.zero(m.sh.val).l])
            rs = build_elem(eng, st, fake, args[1:], e, fr)
            if len(rs) != 1:
                raise Unsupported("forking element constructor")
            st, y = rs[0]
            mk = lambda s: y
    elif len(args) == 1 and q.endswith("emplace"):
        k = map_key(eng, st, m, args[0])
        mk = lambda s: eng.zero(m.sh.val)
    else:
        # emplace(key, ctor args...)
        k = map_key(eng, st, m, args[0])
        fake = V(Seq(m.sh.val), [ZERO] + [z3.K(I, t) for t in eng.zero(m.sh.val).l])
        rs = build_elem(eng, st, fake, args[1:], e, fr)
        if len(rs) != 1:
            raise Unsupported("forking element constructor")
        st, y = rs[0]
        mk = lambda s: y
    out = []
    for s, it, ins in map_insert_kv(eng, st, this, k, mk, q.endswith("insert_or_assign")):
        out.append((s, Obj("pair", first=it, second=boolv(ins))))
    return out


def set_insert_val(eng, st, loc, v):
    m = val(eng, st, loc)
    k = coerce(v, m.sh.kshape).t()
    # no fork: merged
    s = st.copy()
    had = m.mdom(k)
    nm = map_add_key(eng, s, m, k)
    raise Unsupported("inserter into set")


def map_erase(eng, st, this, args, e, fr):
    m = val(eng, st, this)
    a = val(eng, st, args[0])
    out = []
    if isinstance(a, It):
        k = sel(m.l[1], a.i)
        forks = [(st, True)]
    else:
        k = coerce(a, m.sh.kshape).t()
        forks = eng.fork(st, m.mdom(k))
    for s, t in forks:
        if not t:
            out.append((s, intv(0)))
            continue
        s = s.copy()
        n = lite(m.l[0] - 1)
        keys = eng.fresh("keys", m.l[1].sort())
        pos = eng.fresh("pos", m.l[3].sort())
        nm = V(m.sh, (n, keys, upd(m.l[2], k, FALSE), pos) + m.l[4:])
        p = sel(m.l[3], k)
        i = z3.Int("i!er")
        s.pc = s.pc + tuple(eng._wf(MapS(m.sh.ksort, m.sh.kshape, None, m.sh.kind), nm.l[:4], 0)) + (
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), keys[i] == z3.If(i < p, m.l[1][i], m.l[1][i + 1])), patterns=[keys[i]]),)
        eng.write(s, this, nm)
        out.append((s, It(this, p) if isinstance(a, It) else intv(1)))
    return out


def map_ctor(eng, st, this, args, e, fr):
    sh = eng.shape(e["t"])
    if not args:
        return [(st, eng.zero(sh))]
    v = val(eng, st, args[0])
    if isinstance(v, V) and isinstance(v.sh, MapS):
        return [(st, v)]
    if isinstance(v, V) and isinstance(v.sh, Seq) and num(v.len()) is not None or isinstance(v, It):
        u = eng.uid("m")
        s = st.copy()
        s.vars[u] = eng.zero(sh)
        if isinstance(v, It):
            a, n = rng(eng, st, args)
        else:
            a, n = It(ValL(v), ZERO), v.len()
        def body(s1, i):
            x = val(eng, s1, elem_at(eng, s1, a, i))
            if sh.val is None:
                r = map_insert_kv(eng, s1, VarL(u), coerce(x, sh.kshape).t(), None)
            else:
                r = map_insert_kv(eng, s1, VarL(u), coerce(x.field("first"), sh.kshape).t(), lambda s: x.field("second"))
            return [(s2, "next", None) for s2, _, _ in r]
        return [(s1, s1.vars[u]) for s1 in algo_loop(eng, s, fr, e, n, body)]
    if isinstance(v, V) and isinstance(v.sh, Opaque):
        return [(st, eng.zero(sh))]
    raise Unsupported("map constructor")


def map_bound(upper):
    def f(eng, st, this, args, e, fr):
        m = val(eng, st, this)
        k = map_key(eng, st, m, args[0])
        s = st.copy()
        p = eng.fresh("lb", I)
        i = z3.Int("i!lb")
        ks = m.l[1]
        cmp1 = (lambda x: x <= k) if upper else (lambda x: x < k)
        s.pc = s.pc + (0 <= p, p <= m.l[0],
                       z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p), cmp1(ks[i])), patterns=[ks[i]]),
                       z3.ForAll([i], z3.Implies(z3.And(p <= i, i < m.l[0]), z3.Not(cmp1(ks[i]))), patterns=[ks[i]]))
        return [(s, It(cont_loc(eng, s, this), p))]

    return f


for _n in ["std::map", "std::set", "std::unordered_map", "std::unordered_set", "boost::container::flat_map", "boost::container::flat_set",
           "std::multiset"]:
    for _a, _f in dict(begin=map_begin, cbegin=map_begin, end=seq_end, cend=seq_end, size=seq_size, empty=seq_empty, find=map_find,
                       count=map_count, contains=map_count, at=map_at, emplace=map_emplace, insert=map_emplace, insert_or_assign=map_emplace,
                       try_emplace=map_emplace, emplace_hint=map_emplace, erase=map_erase, clear=seq_clear, reserve=seq_noop,
                       lower_bound=map_bound(False), upper_bound=map_bound(True), rbegin=seq_rbegin, rend=seq_rend).items():
        MODELS[_n + "::" + _a] = _f
    MODELS[_n + "::operator[]"] = map_index
    MODELS[_n + "::operator="] = seq_opassign
    MODELS[_n + "::" + _n.split("::")[-1]] = map_ctor


@M("boost::range_detail::map_values_forwarder::map_values_forwarder", "boost::range_detail::map_keys_forwarder::map_keys_forwarder",
   "boost::adaptors::reversed::reversed")
def fw_ctor(eng, st, this, args, e, fr):
    return [(st, V(Opaque(norm(e["fn"]["qn"])), []))]


@M("boost::range_detail::operator|")
def range_pipe(eng, st, this, args, e, fr):
    tn = eng.prog.tstr(eng.prog.deref(e["args"][1]["t"]))
    s, it, n = range_of(eng, st, args[0])
    if "map_values" in tn:
        return [(s, mk_range(It(it.cont, it.i, "second", it.rev), n))]
    if "map_keys" in tn:
        return [(s, mk_range(It(it.cont, it.i, "first", it.rev), n))]
    if "reverse" in tn:
        return [(s, mk_range(It(it.cont, it.i, it.proj, True), n))]
    raise Unsupported("range adaptor " + tn)


@M("boost::adaptors::reverse", "boost::range_detail::reverse")
def range_rev(eng, st, this, args, e, fr):
    s, it, n = range_of(eng, st, args[0])
    return [(s, mk_range(It(it.cont, it.i, it.proj, True), n))]


@M("boost::make_iterator_range", "boost::make_iterator_range_n")
def make_iter_range(eng, st, this, args, e, fr):
    if len(args) == 1:
        s, it, n = range_of(eng, st, args[0])
        return [(s, mk_range(it, n))]
    a, n = rng(eng, st, args)
    return [(st, mk_range(a, n))]


@M("boost::iterator_range_detail::iterator_range_base::operator bool")
def range_bool(eng, st, this, args, e, fr):
    return [(st, boolv(lite(val(eng, st, this).n != 0)))]


# ------------------------------------------------------------------ optional
@M("std::optional::optional")
def opt_ctor(eng, st, this, args, e, fr):
    sh = eng.shape(e["t"])
    if not args:
        return [(st, eng.zero(sh))]
    v = val(eng, st, args[0])
    if isinstance(v, V) and isinstance(v.sh, Opaque):
        return [(st, eng.zero(sh))]
    return [(st, coerce(v, sh))]


@M("std::optional::operator bool", "std::optional::has_value", "std::_Optional_base_impl::_M_is_engaged")
def opt_has(eng, st, this, args, e, fr):
    return [(st, boolv(val(eng, st, this).l[0]))]


@M("std::optional::operator*", "std::optional::value")
def opt_get(eng, st, this, args, e, fr):
    v = val(eng, st, this)
    if norm(e["fn"]["qn"]).endswith("value"):
        out = []
        for s, t in eng.fork(st, v.l[0]):
            if t:
                out.append((s, OptL(cont_loc(eng, s, this))))
            else:
                eng.throws.append((s, "std::bad_optional_access"))
        return out
    if eng.opts.get("bounds"):
        eng.ob(st, v.l[0], "%s: optional has a value" % eng.where(e, fr), "bounds")
    return [(st, OptL(cont_loc(eng, st, this)))]


@M("std::optional::operator->")
def opt_arrow(eng, st, this, args, e, fr):
    return [(st, Ref(OptL(cont_loc(eng, st, this))))]


@M("std::optional::value_or")
def opt_value_or(eng, st, this, args, e, fr):
    v = val(eng, st, this)
    d = coerce(val(eng, st, args[0]), v.sh.elem)
    return [(st, V(v.sh.elem, [ite(v.l[0], a, b) for a, b in zip(v.l[1:], d.l)]))]


@M("std::optional::operator=", "std::optional::emplace")
def opt_assign(eng, st, this, args, e, fr):
    o = val(eng, st, this)
    v = val(eng, st, args[0]) if args else None
    if isinstance(v, V) and isinstance(v.sh, Opaque):
        nv = eng.zero(o.sh)
    elif v is None:
        nv = V(o.sh, (TRUE,) + eng.zero(o.sh.elem).l)
    else:
        nv = coerce(v, o.sh)
    return [(setv(eng, st, this, nv), this)]


@M("std::optional::reset")
def opt_reset(eng, st, this, args, e, fr):
    o = val(eng, st, this)
    return [(setv(eng, st, this, V(o.sh, (FALSE,) + o.l[1:])), void())]


# ------------------------------------------------------------------ precice leaf types
@M("precice::utils::DoubleAggregator::DoubleAggregator")
def da_ctor(eng, st, this, args, e, fr):
    if not args:
        return [(st, realv(z3.RealVal(0)))]
    return [(st, coerce(val(eng, st, args[0]), REAL))]


@M("precice::utils::DoubleAggregator::value", "precice::utils::DoubleAggregator::operator double")
def da_value(eng, st, this, args, e, fr):
    return [(st, val(eng, st, this))]


@M("precice::utils::DoubleAggregator::add")
def da_add(eng, st, this, args, e, fr):
    v = val(eng, st, this)
    x = val(eng, st, args[0])
    return [(setv(eng, st, this, realv(lite(v.t() + coerce(x, REAL).t()))), this)]


@M("precice::utils::DoubleAggregator::operator=")
def da_assign(eng, st, this, args, e, fr):
    return [(setv(eng, st, this, coerce(val(eng, st, args[0]), REAL)), this)]


@M("precice::io::TXTTableWriter::writeData", "precice::io::TXTTableWriter::addData", "precice::io::TXTTableWriter::TXTTableWriter")
def tw(eng, st, this, args, e, fr):
    return [(st, void())]


# span ---------------------------------------------------------------
@M("precice::span::span", "std::span::span")
def span_ctor(eng, st, this, args, e, fr):
    if not args:
        return [(st, View(ValL(eng.zero(Seq(REAL))), ZERO, ZERO))]
    v = val(eng, st, args[0])
    if isinstance(v, View):
        return [(st, v)]
    if isinstance(v, It):
        b = val(eng, st, args[1])
        n = count_between(v, b) if isinstance(b, It) else b.t()
        return [(st, View(v.cont, v.i, n))]
    if isinstance(v, V) and isinstance(v.sh, (Seq, Mat)):
        return [(st, View(cont_loc(eng, st, args[0]), ZERO, v.len()))]
    if isinstance(v, Ref):
        return span_ctor(eng, st, this, [v.loc], e, fr)
    raise Unsupported("span of %r" % (v,))


def span_sub(which):
    def f(eng, st, this, args, e, fr):
        v = val(eng, st, this)
        a = [scal(eng, st, x) for x in args]
        if which == "first":
            return [(st, View(v.cont, v.off, a[0]))]
        if which == "last":
            return [(st, View(v.cont, lite(v.off + v.n - a[0]), a[0]))]
        n = a[1] if len(a) > 1 else lite(v.n - a[0])
        nn = num(n)
        if nn is not None and (nn < 0 or nn > 2**62):
            n = lite(v.n - a[0])
        return [(st, View(v.cont, lite(v.off + a[0]), n))]

    return f


for _n in ("precice::span", "std::span"):
    for _a, _f in dict(begin=seq_begin, end=seq_end, cbegin=seq_begin, cend=seq_end, size=seq_size, empty=seq_empty, data=seq_data,
                       front=seq_front, back=seq_back, subspan=span_sub("sub"), first=span_sub("first"), last=span_sub("last")).items():
        MODELS[_n + "::" + _a] = _f
    MODELS[_n + "::operator[]"] = seq_at
    MODELS[_n + "::operator="] = lambda eng, st, this, args, e, fr: [(setv(eng, st, this, val(eng, st, args[0])), this)]

from . import eig  # noqa: E402  (registers the Eigen models)
