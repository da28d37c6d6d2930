"""What is sent about a mesh, its partition and its data, and what the other side makes of it."""
import z3
from dv.contract import Contract, Run, View_, field
from dv.lib import materialize, val
from spec.common import *
from spec import bbox
from spec.bbox import lo, hi, shape_ok, L

FILES = ["com/SerializedPartitioning.cpp", "com/SerializedMesh.cpp", "com/SerializedStamples.cpp", "mesh/BoundingBox.cpp", "mesh/Vertex.cpp",
         "mesh/Mesh.cpp", "cplscheme/CouplingData.cpp", "mesh/Data.cpp", "time/Waveform.cpp"]
S = "precice::com::serialize::"


def prog():
    return cached_extract("ser", FILES, ["precice::com::serialize::.*", "precice::mesh::(Vertex|Edge|Triangle|Tetrahedron)::.*"])


def span_of(c, i):
    """(length, elements) of a span argument"""
    return c.eng.read(c.st, c.argv(i).cont)


def fld(v, *path):
    """leaves of a field of a value"""
    for p in path:
        v = v.field(p)
    return v


def bbox_contracts(d):
    """one bounding box"""
    arg = lambda c: c.args[0]

    def ok(v):
        n, a = v.l
        return z3.And(n == 1 + 2 * d, a[0] == d)
    out = [
        Contract(S + "SerializedBoundingBox::serialize", requires=lambda c: L("box", [shape_ok(c, d, arg(c))]),
                 ensures=lambda c: [("dimension, minimum corner, maximum corner", z3.And([ok(fld(c.res, "coords"))] + [z3.And(fld(c.res, "coords").l[1][1 + i] == lo(c, i, arg(c)), fld(c.res, "coords").l[1][1 + d + i] == hi(c, i, arg(c))) for i in range(d)]))]),
        Contract(S + "SerializedBoundingBox::toBoundingBox", requires=lambda c: [("valid", ok(c.v("coords")))],
                 ensures=lambda c: [("the box that was serialised", z3.And([fld(c.res, "_dimensions").t() == d, fld(c.res, "_boundMin").l[0] == d, fld(c.res, "_boundMax").l[0] == d] + [z3.And(fld(c.res, "_boundMin").l[1][i] == c.v("coords").l[1][1 + i], fld(c.res, "_boundMax").l[1][i] == c.v("coords").l[1][1 + d + i]) for i in range(d)]))]),
    ]
    return out


def boxmap_contracts(d):
    """boxes of many ranks"""
    i_, j = z3.Int("i!b"), z3.Int("j!b")

    def boxes(m):
        n, keys, dom, pos = m.l[:4]
        o = m.sh.val.off
        f = lambda nm: m.l[4 + o[nm][0]:4 + o[nm][0] + o[nm][1].n]
        return n, keys, dom, f("_dimensions")[0], f("_boundMin"), f("_boundMax")

    def shape(m):
        n, keys, dom, dm, mn, mx = boxes(m)
        k = keys[j]
        K = z3.K(I, z3.IntVal(d))   # values of keys that are not in the map are arbitrary, so they may be chosen alike
        return z3.And(dm == K, mn[0] == K, mx[0] == K, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), k >= 0), patterns=[keys[j]]))

    def post(c):
        m = c.argv(0)
        n, keys, dom, dm, mn, mx = boxes(m)
        info, co = fld(c.res, "info").l, fld(c.res, "coords").l
        rng = z3.And(0 <= j, j < n)
        k = keys[j]
        r = [("an empty map is sent as a single zero", z3.Implies(n == 0, z3.And(info[0] == 1, info[1][0] == 0, co[0] == 0))),
             ("header", z3.Implies(n > 0, z3.And(info[0] == 2 + n, info[1][0] == n, info[1][1] == d, co[0] == 2 * d * n))),
             ("the rank of every box", z3.Implies(n > 0, z3.ForAll([j], z3.Implies(rng, info[1][2 + j] == k))))]
        for i in range(d):
            r.append(("corners of every box, direction %d" % i, z3.Implies(n > 0, z3.ForAll([j], z3.Implies(rng, z3.And(co[1][2 * d * j + i] == mn[1][k][i], co[1][2 * d * j + d + i] == mx[1][k][i]))))))
        return r
    def rpre(c):
        info, co = c.v("info").l, c.v("coords").l
        n = info[1][0]
        return [("valid", z3.And(info[0] == 2 + n, n >= 1, info[1][1] == d, co[0] == 2 * d * n)),
                ("ranks ascend, as they do in the map that was serialised", z3.ForAll([i_, j], z3.Implies(z3.And(0 <= i_, i_ < j, j < n), info[1][2 + i_] < info[1][2 + j])))]

    def rpost(c):
        info, co = c.v("info").l, c.v("coords").l
        n0 = info[1][0]
        n, keys, dom, dm, mn, mx = boxes(c.res)
        k = info[1][2 + j]
        out = [("number of boxes", n == n0), ("every rank has a box", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n0), z3.And(dom[k], dm[k] == d, mn[0][k] == d, mx[0][k] == d))))]
        for i in range(d):
            out.append(("corners, direction %d" % i, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n0), z3.And(mn[1][k][i] == co[1][2 * d * j + i], mx[1][k][i] == co[1][2 * d * j + d + i])))))
        return out
    def hint(c):
        info, co = c.eng.read(c.st0, field(c.eng, c.st0, ObjL(z3.IntVal(1), S + "SerializedBoundingBoxMap"), "info")).l, c.eng.read(c.st0, field(c.eng, c.st0, ObjL(z3.IntVal(1), S + "SerializedBoundingBoxMap"), "coords")).l
        if not c.has("bbm"):
            return []
        n, keys, dom, dm, mn, mx = boxes(c.cur("bbm"))
        key = info[1][2 + j]
        q = lambda f: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < c.k), f), patterns=[info[1][2 + j]])
        r = [("n", n == c.k), ("keys", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < c.k), keys[j] == info[1][2 + j]), patterns=[keys[j]])), ("dom", q(dom[key])),
             ("sizes", q(z3.And(dm[key] == d, mn[0][key] == d, mx[0][key] == d)))]
        for i in range(d):
            r.append(("corners %d" % i, q(z3.And(mn[1][key][i] == co[1][2 * d * j + i], mx[1][key][i] == co[1][2 * d * j + d + i]))))
        return r
    return [(Contract(S + "SerializedBoundingBoxMap::toBoundingBoxMap", requires=rpre, ensures=rpost), hint),
            Contract(S + "SerializedBoundingBoxMap::serialize", requires=lambda c: [("boxes of dimension %d on ranks" % d, shape(c.argv(0)))], ensures=post)]


def mesh_contracts(d, conn):
    j = z3.Int("j!m")

    def parts(c):
        m = c.args[0]
        vs, es, ts, te = (c.v(f, m) for f in ("_vertices", "_edges", "_triangles", "_tetrahedra"))
        return m, vs, es, ts, te

    def vf(vs, nm):
        o, sh = vs.sh.elem.off[nm]
        return vs.l[1 + o:1 + o + sh.n]

    def req(c):
        m, vs, es, ts, te = parts(c)
        r = [("dimension", c.v("_dimensions", m).t() == d)]
        if not conn:
            r.append(("no connectivity", z3.And(es.l[0] == 0, ts.l[0] == 0, te.l[0] == 0)))
        else:
            r.append(("connectivity", z3.And(es.l[0] + ts.l[0] + te.l[0] > 0, vs.l[0] > 0)))
        return r

    def post(c):
        m, vs, es, ts, te = parts(c)
        n = vs.l[0]
        sz, co, ids = fld(c.res, "sizes").l, fld(c.res, "coords").l, fld(c.res, "ids").l
        rng = z3.And(0 <= j, j < n)
        q = lambda f, r=rng: z3.ForAll([j], z3.Implies(r, f))
        xyz, gid, lid = vf(vs, "_coords")[0], vf(vs, "_globalIndex")[0], vf(vs, "_id")[0]
        out = [("sizes", z3.And(sz[0] == 5, sz[1][0] == d, sz[1][1] == n, sz[1][2] == es.l[0], sz[1][3] == ts.l[0], sz[1][4] == te.l[0])),
               ("number of coordinates", co[0] == n * d)]
        for i in range(d):
            out.append(("coordinate %d of every vertex" % i, q(co[1][d * j + i] == xyz[j][i])))
        VID = c.eng.read_heap_id if False else None
        if not conn:
            out += [("one identifier per vertex", ids[0] == n), ("global index of every vertex", q(ids[1][j] == gid[j]))]
        else:
            out += [("number of identifiers", ids[0] == 2 * n + 2 * es.l[0] + 3 * ts.l[0] + 4 * te.l[0]), ("global index of every vertex", q(ids[1][2 * j] == gid[j])), ("local identifier of every vertex", q(ids[1][2 * j + 1] == lid[j]))]
            off = 2 * n
            for nm, e, k in (("edge", es, 2), ("triangle", ts, 3), ("tetrahedron", te, 4)):
                ptr = e.l[1]
                for i in range(k):
                    hid = c.eng.read(c.st, field(c.eng, c.st, ObjL(ptr[j][i], "precice::mesh::Vertex"), "_id")).t()
                    out.append(("vertex %d of every %s" % (i, nm), q(ids[1][off + k * j + i] == hid, z3.And(0 <= j, j < e.l[0]))))
                off = off + k * e.l[0]
        return out
    return [Contract(S + "SerializedMesh::serialize", requires=req, ensures=post)]


def add_contracts(d, conn):
    """what the receiver builds"""
    j = z3.Int("j!m")

    def q(c, f, r):
        return z3.ForAll([j], z3.Implies(r, f))

    def vf(vs, nm):
        o, sh = vs.sh.elem.off[nm]
        return vs.l[1 + o:1 + o + sh.n]

    def head(c):
        sz, co, ids = c.v("sizes").l, c.v("coords").l, c.v("ids").l
        return sz, co, ids, sz[1][1], sz[1][2], sz[1][3], sz[1][4]

    def req(c):
        sz, co, ids, n, ne, nt, nq = head(c)
        m = c.args[0]
        out = [("sizes", z3.And(sz[0] == 5, sz[1][0] == d, n >= 0, ne >= 0, nt >= 0, nq >= 0, co[0] == n * d)),
               ("empty mesh of the same dimension", z3.And(c.v("_dimensions", m).t() == d, c.v("_vertices", m).l[0] >= 0))]
        if not conn:
            out.append(("one identifier per vertex", z3.And(ne == 0, nt == 0, nq == 0, ids[0] == n)))
        return out

    def post(c):
        sz, co, ids, n, ne, nt, nq = head(c)
        m = c.args[0]
        vs, v0 = c.v("_vertices", m), c.old.v("_vertices", m)
        n0 = v0.l[0]
        rng = z3.And(0 <= j, j < n)
        out = [("number of vertices", vs.l[0] == n0 + n), ("global index", q(c, vf(vs, "_globalIndex")[0][n0 + j] == ids[1][j], rng)),
               ("vertex IDs go on", q(c, z3.And(vf(vs, "_id")[0][n0 + j] == n0 + j, vf(vs, "_dim")[0][n0 + j] == d), rng)),
               ("earlier vertices stay", q(c, z3.And([x[j] == y[j] for x, y in zip(vs.l[1:], v0.l[1:])]), z3.And(0 <= j, j < n0)))]
        for i in range(d):
            out.append(("coordinate %d" % i, q(c, vf(vs, "_coords")[0][n0 + j][i] == co[1][d * j + i], rng)))
        return out
    return [Contract(S + "SerializedMesh::addToMesh", requires=req, modifies=lambda c: [c.loc("_vertices", c.args[0])], ensures=post)]


CDN = "precice::cplscheme::CouplingData"
CD_ADDR = {"cd": 20, "_data": 21, "_mesh": 22}   # the objects involved are distinct


def cd_args(eng, st, f, run=None):
    out = []
    for p in f["params"]:
        if eng.prog.tstr(eng.prog.deref(p["t"])) == CDN:
            out.append(ObjL(z3.IntVal(20), CDN))
        else:
            out.append(Contract_sym(eng, st, p))
    return out


def Contract_sym(eng, st, p):
    r = Run.__new__(Run)
    r.eng = eng
    return Run.sym_arg(r, st, p)


def cd_setup(eng, st):
    cd = ObjL(z3.IntVal(20), CDN)
    for f, cls in (("_data", "precice::mesh::Data"), ("_mesh", "precice::mesh::Mesh")):
        l = field(eng, st, cd, f)
        v = eng.read(st, l)
        eng.write(st, l, V(v.sh, [z3.IntVal(CD_ADDR[f])]))
        eng.dyn[CD_ADDR[f]] = cls
    eng.dyn[20] = CDN
    return []


def stample_contracts(T, grad):
    """T time steps of data, serialised so that all values of one vertex component are neighbours"""
    CD = lambda c: c.args[-1]
    j = z3.Int("j!s")

    def size(c):
        return c.v("_mesh._vertices", CD(c)).l[0] * c.v("_data._dimensions", CD(c)).t()

    def W(c):
        return c.v("_data._waveform._stampleStorage", CD(c))

    def leaf(sh, path):
        o = 0
        for p in path:
            a, sh = sh.off[p]
            o += a
        return o, sh

    def vals(w, *path):
        o, sh = leaf(w.sh.elem, path)
        return w.l[1 + o:1 + o + sh.n]

    def req(c):
        w = W(c)
        n = size(c)
        r = [("time steps", w.l[0] == T), ("size", c.v("_data._dimensions", CD(c)).t() >= 1), ("gradients", c.v("_data._hasGradient", CD(c)).t() == z3.BoolVal(grad))]
        r.append(("all samples have the size of the data", z3.And([vals(w, "sample", "values")[0][i] == n for i in range(T)])))
        if grad:
            md = c.v("_mesh._dimensions", CD(c)).t()
            g = vals(w, "sample", "gradients")
            gs = c.v("_data._sample.gradients", CD(c)).l
            r.append(("gradient sizes", z3.And([z3.And(g[0][i] == md, g[1][i] == n) for i in range(T)] + [gs[0] == md, gs[1] == n, md >= 2, md <= 3])))
        return r

    def post(c):
        w = W(c)
        n = size(c)
        x = fld(c.res, "_values").l
        out = [("time steps", fld(c.res, "_timeSteps").t() == T), ("number of values", x[0] == T * n)]
        for i in range(T):
            out.append(("values of time step %d" % i, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), x[1][T * j + i] == vals(w, "sample", "values")[1][i][j]))))
        if grad:
            gn = c.v("_mesh._dimensions", CD(c)).t() * n
            y = fld(c.res, "_gradients").l
            out.append(("room for all gradients", y[0] >= T * gn))
            for i in range(T):
                out.append(("gradients of time step %d" % i, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < gn), y[1][T * j + i] == vals(w, "sample", "gradients")[2][i][j]))))
        return out

    def dreq(c):
        ts = span_of(c, 0)
        n = size(c)
        return [("time steps", z3.And(ts.l[0] == T, c.v("_timeSteps").t() == T)), ("size", z3.And(c.v("_data._dimensions", CD(c)).t() >= 1, c.v("_values").l[0] == T * n)), ("gradients", c.v("_data._hasGradient", CD(c)).t() == z3.BoolVal(grad)),
                ("gradient sizes", z3.BoolVal(True) if not grad else z3.And(c.v("_data._sample.gradients", CD(c)).l[0] == c.v("_mesh._dimensions", CD(c)).t(), c.v("_data._sample.gradients", CD(c)).l[1] == n, c.v("_mesh._dimensions", CD(c)).t() >= 2, c.v("_mesh._dimensions", CD(c)).t() <= 3,
                                                                            c.v("_gradients").l[0] >= T * c.v("_mesh._dimensions", CD(c)).t() * n)),
                ("times ascend", z3.And([ts.l[1][i] + rv(1e-9) < ts.l[1][i + 1] for i in range(T - 1)]))]

    def dpost(c):
        w, ts = W(c), span_of(c.old, 0)
        n = size(c)
        x = c.v("_values").l
        out = [("exactly the time steps received", w.l[0] == T)]
        for i in range(T):
            out.append(("time stamp %d" % i, vals(w, "timestamp")[0][i] == ts.l[1][i]))
            out.append(("values of time step %d" % i, z3.And(vals(w, "sample", "values")[0][i] == n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), vals(w, "sample", "values")[1][i][j] == x[1][T * j + i])))))
        if grad:
            md = c.v("_mesh._dimensions", CD(c)).t()
            y = c.v("_gradients").l
            g = vals(w, "sample", "gradients")
            for i in range(T):
                out.append(("gradients of time step %d" % i, z3.And(g[0][i] == md, g[1][i] == n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < md * n), g[2][i][j] == y[1][T * j + i])))))
        return out
    return [Contract(S + "SerializedStamples::serialize", requires=req, ensures=post),
            Contract(S + "SerializedStamples::deserializeInto", requires=dreq, modifies=lambda c: ["*"], ensures=dpost)]


def build(prop, tier):
    P = prog()
    runs = []
    if prop == "C07":
        for T in (1, 2, 3):
            for grad in (False, True):
                R = Run(P, "%d time step%s%s" % (T, "s" if T > 1 else "", " with gradients" if grad else ""), {})
                for c in stample_contracts(T, grad):
                    R.verify(c, setup=cd_setup, args=cd_args)
                runs.append(R)
    if prop == "C06":
        for d in (2, 3):
            R = Run(P, "serialised boxes %dD" % d, {})
            for c in bbox_contracts(d):
                R.verify(c)
            for c in boxmap_contracts(d):
                if isinstance(c, tuple):
                    R.eng.loop_hints = [c[1]]
                    c = c[0]
                R.verify(c)
            runs.append(R)
        for d in (2, 3):
            R = Run(P, "received mesh %dD" % d, {})
            for c in add_contracts(d, False):
                R.verify(c)
            runs.append(R)
            for conn in (False, True):
                R = Run(P, "serialised mesh %dD%s" % (d, " with connectivity" if conn else ""), {})
                R.eng.contracts[S + "SerializedMesh::assertValid"] = lambda eng, st, this, args, e, fr: [(st, void())]
                for c in mesh_contracts(d, conn):
                    R.verify(c)
                runs.append(R)
    return runs
