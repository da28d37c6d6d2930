"""Bounding boxes: containment, overlap, expansion."""
import z3
from dv.contract import Contract, Run
from dv.lib import materialize, val
from spec.common import *

FILES = ["mesh/BoundingBox.cpp", "mesh/Vertex.cpp"]
BB = "precice::mesh::BoundingBox"
DMAX = rv(1.7976931348623157e308)


def lo(c, i, base=None):
    v = c.v("_boundMin", base)
    return v.l[1][i]


def hi(c, i, base=None):
    v = c.v("_boundMax", base)
    return v.l[1][i]


def shape_ok(c, d, base=None):
    return z3.And((c["_dimensions"] if base is None else c.v("_dimensions", base).t()) == d, c.v("_boundMin", base).l[0] == d, c.v("_boundMax", base).l[0] == d)


def L(label, fs):
    return [("%s %d" % (label, i), f) for i, f in enumerate(fs)]


def contracts(d):
    dims = range(d)
    pre = lambda c: L("box of dimension %d" % d, [shape_ok(c, d)])
    other = lambda c: c.args[0]
    pre2 = lambda c: pre(c) + L("other box of the same dimension", [shape_ok(c, d, c.args[0])])
    vco = lambda c: c.v("_coords", c.args[0]).l[0]
    vpre = lambda c: pre(c) + [("vertex of the same dimension", c.v("_dim", c.args[0]).t() == d)]
    BOX = lambda c: [c.loc("_boundMin"), c.loc("_boundMax")]
    same_shape = lambda c: [("shape kept", shape_ok(c, d))]

    def mn(a, b): return z3.If(a < b, a, b)
    def mx(a, b): return z3.If(a > b, a, b)
    def longest(c):
        r = hi(c, 0) - lo(c, 0)
        for i in range(1, d):
            r = mx(r, hi(c, i) - lo(c, i))
        return r
    isdef = lambda c: None
    default = lambda c: z3.And([z3.And(lo(c, i) == DMAX, hi(c, i) == -DMAX) for i in dims])
    plain = lambda c: z3.And([z3.And(lo(c, i) <= hi(c, i), lo(c, i) >= -DMAX / 4, hi(c, i) <= DMAX / 4) for i in dims])
    out = [
        Contract(BB + "::contains", requires=vpre, ensures=lambda c: [("a vertex is contained iff every coordinate lies in the closed interval", c.res == z3.And([z3.And(lo(c, i) <= vco(c)[i], vco(c)[i] <= hi(c, i)) for i in dims]))]),
        Contract(BB + "::overlapping", requires=lambda c: pre2(c) + L("both boxes are ordered", [z3.And([z3.And(lo(c, i) <= hi(c, i), lo(c, i, other(c)) <= hi(c, i, other(c))) for i in dims])]),
                 ensures=lambda c: [("overlap iff the closed intervals intersect in every direction", c.res == z3.And([z3.And(lo(c, i) <= hi(c, i, other(c)), lo(c, i, other(c)) <= hi(c, i)) for i in dims]))]),
        Contract(BB + "::expandBy", requires=pre2, pred="precice::mesh::BoundingBox&", modifies=BOX,
                 ensures=lambda c: same_shape(c) + [("smallest box containing both", z3.And([z3.And(lo(c, i) == mn(lo(c.old, i), lo(c.old, i, other(c))), hi(c, i) == mx(hi(c.old, i), hi(c.old, i, other(c)))) for i in dims]))]),
        Contract(BB + "::expandBy", requires=vpre, pred="precice::mesh::Vertex&", modifies=BOX,
                 ensures=lambda c: same_shape(c) + [("smallest box containing the box and the vertex", z3.And([z3.And(lo(c, i) == mn(lo(c.old, i), vco(c.old)[i]), hi(c, i) == mx(hi(c.old, i), vco(c.old)[i])) for i in dims]))]),
        Contract(BB + "::expandBy", requires=lambda c: pre(c) + [("a box with points", plain(c))], pred="double", modifies=BOX,
                 ensures=lambda c: same_shape(c) + [("moved outwards by the value on every side", z3.And([z3.And(lo(c, i) == lo(c.old, i) - c.arg(0), hi(c, i) == hi(c.old, i) + c.arg(0)) for i in dims]))]),
        Contract(BB + "::expandBy", requires=lambda c: pre(c) + [("default box", default(c))], pred="double", modifies=BOX,
                 ensures=lambda c: same_shape(c) + [("the empty box stays empty", default(c))]),
        Contract(BB + "::scaleBy", requires=lambda c: pre(c) + [("a box with points", plain(c))], modifies=BOX,
                 ensures=lambda c: same_shape(c) + [("grows by factor times the longest edge on every side", z3.And([z3.And(lo(c, i) == lo(c.old, i) - c.arg(0) * longest(c.old), hi(c, i) == hi(c.old, i) + c.arg(0) * longest(c.old)) for i in dims]))]),
        Contract(BB + "::scaleBy", requires=lambda c: pre(c) + [("default box", default(c))], modifies=BOX, ensures=lambda c: same_shape(c) + [("the empty box stays empty", default(c))]),
        Contract(BB + "::longestEdgeLength", requires=pre, ensures=lambda c: [("longest edge", c.res == longest(c))]),
        Contract(BB + "::getEdgeLength", requires=lambda c: pre(c) + [("axis", z3.And(c.arg(0) >= 0, c.arg(0) < d))], ensures=lambda c: [("edge length", z3.And(z3.Or(c.res == hi(c, c.arg(0)) - lo(c, c.arg(0)), c.res == lo(c, c.arg(0)) - hi(c, c.arg(0))), c.res >= 0))]),
        Contract(BB + "::isDefault", requires=lambda c: pre(c) + [("a box with points", plain(c))], ensures=lambda c: [("a box with points is not the empty one", z3.Not(c.res))]),
        Contract(BB + "::isDefault", requires=lambda c: pre(c) + [("default box", default(c))], ensures=lambda c: [("the empty box is recognised", c.res)]),
        Contract(BB + "::center", requires=lambda c: pre(c) + [("a box with points", plain(c))],
                 ensures=lambda c: [("midpoint", z3.And([vec(c)[1][i] * 2 == lo(c, i) + hi(c, i) for i in dims] + [vec(c)[0] == d]))]),
        Contract(BB + "::minCorner", requires=pre, ensures=lambda c: [("minimum corner", z3.And([vec(c)[1][i] == lo(c, i) for i in dims] + [vec(c)[0] == d]))]),
        Contract(BB + "::maxCorner", requires=pre, ensures=lambda c: [("maximum corner", z3.And([vec(c)[1][i] == hi(c, i) for i in dims] + [vec(c)[0] == d]))]),
        Contract(BB + "::getDimension", requires=pre, ensures=lambda c: [("dimension", c.res == d)]),
        Contract(BB + "::dataVector", requires=pre, ensures=lambda c: [("minimum and maximum alternate", z3.And([z3.And(vec(c)[1][2 * i] == lo(c, i), vec(c)[1][2 * i + 1] == hi(c, i)) for i in dims] + [vec(c)[0] == 2 * d]))]),
        Contract(BB + "::getArea", requires=lambda c: pre(c) + [("a box with points", plain(c)), ("mask of the same dimension", vecof(c, 0)[0] == d)],
                 ensures=lambda c: [("product of the edge lengths of the live axes", c.res == area(c, d))]),
    ]
    return out


def area(c, d):
    r = z3.RealVal(1)
    for i in range(d):
        r = z3.If(vecof(c, 0)[1][i], r, r * (hi(c, i) - lo(c, i)))
    return r


def vec(c):
    v = c.eng.read(c.st, c.res_) if not isinstance(c.res_, V) else c.res_
    if not isinstance(v, V):
        v = materialize(c.eng, c.st, v, c.eng.shape_of("Eigen::Matrix<double, -1, 1, 0, -1, 1>"))
    return v.l[0], v.l[1]


def vecof(c, i):
    v = c.argv(i)
    return v.l[0], v.l[1]


ASSUMPTIONS = ["floating-point numbers are exact reals, bounded by a quarter of the largest double where a box with points is meant"]


def build(prop, tier):
    P = cached_extract("bbox", FILES, ["precice::mesh::BoundingBox::.*"])
    runs = []
    for d in (2, 3):
        R = Run(P, "BoundingBox %dD" % d, {})
        for i, c in enumerate(contracts(d)):
            R.verify(c, label="%s (%d)" % (c.qn.split("::")[-1], i))
        runs.append(R)
    return runs
