"""C20: vectors, quads, rects and transforms obey their geometry.

Contracts, for all real coordinates, factors and angles, on the methods of Vec2, Quad, Rect, Transform2d and
InvertibleTransform2d, pnpoly, angle_diff, signed_angle_diff and perspective_approach:
  vectors       ensures the coordinate-wise definitions; |v|^2 = v . v, normalize gives length one in the same direction
  quads, rects  ensures every corner is mapped by the stated point map; centers and midpoints; permute is the cyclic shift by count mod 4
  pnpoly        ensures the even-odd rule for 3 to 5 vertices; for a quad this is containment: true for points strictly on the
                inner side of all four edges, false for points strictly outside a strictly convex quad
  transforms    ensures matrix = (elementary matrix) * (previous matrix), transform_vec is the projective action, so composing is
                applying one after another; perspective_x maps (0, y) to (foreground, y) and the point at infinity to the vanishing point
  inverses      ensures inverse' * forward' = inverse * forward for every operation, and inverse * forward = identity for new()
  angles        ensures the difference in [-pi, pi) (absolute: [0, pi]) that is congruent modulo a full turn
Trigonometric functions are known by sin^2 + cos^2 = 1 and their parity; square roots by their defining equation."""
from vp.check import Task
from vp.checks.common import *  # noqa: F403

META = {
    "level": "proof",
    "functions": ["Vec2 (all methods)", "vec.pnpoly", "vec.angle_diff", "vec.signed_angle_diff", "Quad (all methods)", "Rect (all methods)", "quad.flatten_quad", "Transform2d (all methods)",
                  "InvertibleTransform2d (all methods)", "transform.perspective_approach"],
    "trusted": ["z3", "normal form of rational functions (vp/ratfun.py)", "sin^2 + cos^2 = 1, sin(-x) = -sin x, cos(-x) = cos x, sqrt(t)^2 = t", "the front end's compilation of these methods is executed as a graph (its meaning: C22)"],
    "assumptions": ["floating-point arithmetic treated as real arithmetic in the proofs (bounded part: equal to 1e-7 relative)", "polygons of 3 to 5 vertices for pnpoly"],
    "rule": "bounded part: every method on random and degenerate coordinates in plain Python and compiled at every level",
    "technique": "symbolic execution of the compiled methods over the reals; identities of rational functions by normal form, the rest by z3",
    "deadline": {"quick": 200, "thorough": 600},
}
SIZE = {"N": 1, "V": 2, "Q": 8, "R": 4, "T": 9, "I": 18}
CLS = {"V": "Vec2", "Q": "Quad", "R": "Rect", "T": "Transform2d", "I": "InvertibleTransform2d"}


def vec(x, k):
    return x[k], x[k + 1]


def pts(x, k):
    return [vec(x, k + 2 * i) for i in range(4)]          # bl tl tr br


def rect(x, k):
    return x[k], x[k + 1], x[k + 2], x[k + 3]              # t r b l


def corners(t, r, b, l):
    return [(l, b), (l, t), (r, t), (r, b)]


def mat(x, k):
    return [[x[k + 3 * i + j] for j in range(3)] for i in range(3)]


def mul(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(3)), 0) for j in range(3)] for i in range(3)]


def apply(m, v):
    h = [m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] for i in range(3)]
    return h[0] / h[2], h[1] / h[2]


def flat(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [x]


def T_(dx, dy):
    return [[1, 0, dx], [0, 1, dy], [0, 0, 1]]


def S_(fx, fy):
    return [[fx, 0, 0], [0, fy, 0], [0, 0, 1]]


def R_(c, s):
    return [[c, -s, 0], [s, c, 0], [0, 0, 1]]


IDM = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def rot(v, a, m):
    c, s = m.cos(a), m.sin(a)
    return v[0] * c - v[1] * s, v[0] * s + v[1] * c


def add(a, b):
    return a[0] + b[0], a[1] + b[1]


def sub(a, b):
    return a[0] - b[0], a[1] - b[1]


def had(a, b):
    return a[0] * b[0], a[1] * b[1]


def mean(*ps):
    return sum((p[0] for p in ps), 0) / len(ps), sum((p[1] for p in ps), 0) / len(ps)


def mapped(f):
    return lambda x, m: [f(p, x, m) for p in pts(x, 0)]


def rmap(f):
    """a rect operation acting on the corners (axis-parallel)"""
    def g(x, m):
        t, r, b, l = rect(x, 0)
        lb, rt = f((l, b), x, m), f((r, t), x, m)
        return [rt[1], rt[0], lb[1], lb[0]]
    return g


# elementary transforms: name -> (argument kinds, expression, matrix(args, m))
def _rot_m(a, m):
    return R_(m.cos(a), m.sin(a))


def persp(fx, v, axis):
    """maps (0, y) to (fx, y) and the point at infinity of the axis to v"""
    if axis == 0:
        d = v[0] - fx
        # (x, y) -> (fx + x / w, (y + v.y * x / d) / w), w = 1 + x / d
        return [[1 + fx / d, 0, fx], [v[1] / d, 1, 0], [1 / d, 0, 1]]
    d = v[1] - fx
    return [[1, v[0] / d, 0], [0, 1 + fx / d, fx], [0, 1 / d, 1]]


def inv3(a):
    """adjugate / determinant"""
    d = (a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]))
    cof = [[a[(j + 1) % 3][(i + 1) % 3] * a[(j + 2) % 3][(i + 2) % 3] - a[(j + 1) % 3][(i + 2) % 3] * a[(j + 2) % 3][(i + 1) % 3] for j in range(3)] for i in range(3)]
    return [[c / d for c in row] for row in cof]


ELEM = {
    "translate": ("V", "translate({0})", lambda a, m: T_(*a[0])),
    "scale": ("V", "scale({0})", lambda a, m: S_(*a[0])),
    "scale_about": ("VV", "scale_about({0}, {1})", lambda a, m: mul(T_(*a[1]), mul(S_(*a[0]), T_(-a[1][0], -a[1][1])))),
    "rotate": ("N", "rotate({0})", lambda a, m: _rot_m(a[0], m)),
    "rotate_about": ("NV", "rotate_about({0}, {1})", lambda a, m: mul(T_(*a[1]), mul(_rot_m(a[0], m), T_(-a[1][0], -a[1][1])))),
    "shear_x": ("N", "shear_x({0})", lambda a, m: [[1, a[0], 0], [0, 1, 0], [0, 0, 1]]),
    "shear_y": ("N", "shear_y({0})", lambda a, m: [[1, 0, 0], [a[0], 1, 0], [0, 0, 1]]),
    "simple_perspective_x": ("N", "simple_perspective_x({0})", lambda a, m: [[1, 0, 0], [0, 1, 0], [1 / a[0], 0, 1]]),
    "simple_perspective_y": ("N", "simple_perspective_y({0})", lambda a, m: [[1, 0, 0], [0, 1, 0], [0, 1 / a[0], 1]]),
    "perspective_x": ("NV", "perspective_x({0}, {1})", lambda a, m: persp(a[0], a[1], 0)),
    "perspective_y": ("NV", "perspective_y({0}, {1})", lambda a, m: persp(a[0], a[1], 1)),
}
INVERSE = {
    "inverse_perspective_x": ("NV", "inverse_perspective_x({0}, {1})", lambda a, m: inv3(persp(a[0], a[1], 0))),
    "inverse_perspective_y": ("NV", "inverse_perspective_y({0}, {1})", lambda a, m: inv3(persp(a[0], a[1], 1))),
}


def args_at(x, kinds, k):
    out = []
    for c in kinds:
        out.append(x[k] if c == "N" else vec(x, k))
        k += SIZE[c]
    return out


def specs():
    """name -> (kinds of the arguments, {first output: expression}, expected(x, m), options)"""
    L = {}

    def d(name, kinds, expr, f, **kw):
        assert name not in L
        L[name] = (kinds, expr, f, kw)
    # vectors
    for n, v in {"zero": (0, 0), "one": (1, 1), "up": (0, 1), "down": (0, -1), "left": (-1, 0), "right": (1, 0)}.items():
        d(f"Vec2.{n}", "", f"Vec2.{n}()", lambda x, m, v=v: v)
    d("Vec2.unit", "N", "Vec2.unit({0})", lambda x, m: (m.cos(x[0]), m.sin(x[0])))
    d("Vec2.magnitude", "V", "{0}.magnitude", lambda x, m: m.sqrt(x[0] * x[0] + x[1] * x[1]))
    d("Vec2.angle", "V", "{0}.angle", lambda x, m: m.atan2(x[1], x[0]))
    d("Vec2.dot", "VV", "{0}.dot({1})", lambda x, m: x[0] * x[2] + x[1] * x[3])
    d("Vec2.rotate", "VN", "{0}.rotate({1})", lambda x, m: rot(vec(x, 0), x[2], m))
    d("Vec2.rotate_about", "VNV", "{0}.rotate_about({1}, {2})", lambda x, m: add(rot(sub(vec(x, 0), vec(x, 3)), x[2], m), vec(x, 3)))

    def unit(x, m):
        r = m.sqrt(x[0] * x[0] + x[1] * x[1])
        return x[0] / r, x[1] / r
    d("Vec2.normalize", "V", "{0}.normalize()", unit, pre="nonzero")
    d("Vec2.normalize_or_zero", "V", "{0}.normalize_or_zero()", unit, pre="nonzero")
    d("Vec2.normalize_or_zero of zero", "", "Vec2(inp(0), inp(1)).normalize_or_zero()", lambda x, m: (0, 0), pre="zero", extra="V")
    d("Vec2.orthogonal", "V", "{0}.orthogonal()", lambda x, m: (-x[1], x[0]))
    d("Vec2.tuple", "V", "{0}.tuple", lambda x, m: vec(x, 0))
    d("Vec2 +", "VV", "{0} + {1}", lambda x, m: add(vec(x, 0), vec(x, 2)))
    d("Vec2 -", "VV", "{0} - {1}", lambda x, m: sub(vec(x, 0), vec(x, 2)))
    d("Vec2 * Vec2", "VV", "{0} * {1}", lambda x, m: had(vec(x, 0), vec(x, 2)))
    d("Vec2 * number", "VN", "{0} * {1}", lambda x, m: (x[0] * x[2], x[1] * x[2]))
    d("number * Vec2", "VN", "{1} * {0}", lambda x, m: (x[0] * x[2], x[1] * x[2]))
    d("Vec2 / Vec2", "VV", "{0} / {1}", lambda x, m: (x[0] / x[2], x[1] / x[3]))
    d("Vec2 / number", "VN", "{0} / {1}", lambda x, m: (x[0] / x[2], x[1] / x[2]))
    d("-Vec2", "V", "-{0}", lambda x, m: (-x[0], -x[1]))
    d("constant operands", "V", "(3 * {0} + Vec2(2, 5) * {0} - {0} / 4)", lambda x, m: (3 * x[0] + 2 * x[0] - x[0] / 4, 3 * x[1] + 5 * x[1] - x[1] / 4))
    # quads
    d("Quad.zero", "", "Quad.zero()", lambda x, m: [0] * 8)
    d("Quad.from_quad", "Q", "Quad.from_quad({0})", lambda x, m: pts(x, 0))
    d("Quad.from_quad of a rect", "R", "Quad.from_quad({0})", lambda x, m: corners(*rect(x, 0)))
    d("flatten_quad", "Q", "flatten_quad({0})", lambda x, m: pts(x, 0))
    d("flatten_quad of a rect", "R", "flatten_quad({0})", lambda x, m: corners(*rect(x, 0)))
    d("Quad.center", "Q", "{0}.center", lambda x, m: mean(*pts(x, 0)))
    for n, (i, j) in {"mt": (1, 2), "mr": (2, 3), "mb": (0, 3), "ml": (0, 1)}.items():
        d(f"Quad.{n}", "Q", "{0}." + n, lambda x, m, i=i, j=j: mean(pts(x, 0)[i], pts(x, 0)[j]))
    d("Quad.translate", "QV", "{0}.translate({1})", mapped(lambda p, x, m: add(p, vec(x, 8))))
    d("Quad.scale", "QV", "{0}.scale({1})", mapped(lambda p, x, m: had(p, vec(x, 8))))
    d("Quad.scale_about", "QVV", "{0}.scale_about({1}, {2})", mapped(lambda p, x, m: add(had(sub(p, vec(x, 10)), vec(x, 8)), vec(x, 10))))
    cen = lambda x: mean(*pts(x, 0))
    d("Quad.scale_centered", "QV", "{0}.scale_centered({1})", mapped(lambda p, x, m: add(had(sub(p, cen(x)), vec(x, 8)), cen(x))))
    d("Quad.rotate", "QN", "{0}.rotate({1})", mapped(lambda p, x, m: rot(p, x[8], m)))
    d("Quad.rotate_about", "QNV", "{0}.rotate_about({1}, {2})", mapped(lambda p, x, m: add(rot(sub(p, vec(x, 9)), x[8], m), vec(x, 9))))
    d("Quad.rotate_centered", "QN", "{0}.rotate_centered({1})", mapped(lambda p, x, m: add(rot(sub(p, cen(x)), x[8], m), cen(x))))
    for k in range(-5, 7):
        d(f"Quad.permute({k})", "Q", "{0}.permute(" + str(k) + ")", lambda x, m, k=k: [pts(x, 0)[(i - k) % 4] for i in range(4)])
    d("Quad.permute()", "Q", "{0}.permute()", lambda x, m: [pts(x, 0)[(i - 1) % 4] for i in range(4)])
    # rects
    d("Rect.from_center", "VV", "Rect.from_center({0}, {1})", lambda x, m: [x[1] + x[3] / 2, x[0] + x[2] / 2, x[1] - x[3] / 2, x[0] - x[2] / 2])
    d("Rect.from_margin 1", "N", "Rect.from_margin({0})", lambda x, m: [x[0], x[0], -x[0], -x[0]])
    d("Rect.from_margin 2", "NN", "Rect.from_margin({0}, {1})", lambda x, m: [x[0], x[1], -x[0], -x[1]])
    d("Rect.from_margin 3", "NNN", "Rect.from_margin({0}, {1}, {2})", lambda x, m: [x[0], x[1], -x[2], -x[1]])
    d("Rect.from_margin 4", "NNNN", "Rect.from_margin({0}, {1}, {2}, {3})", lambda x, m: [x[0], x[1], -x[2], -x[3]])
    c4 = lambda x: corners(*rect(x, 0))
    d("Rect.w", "R", "{0}.w", lambda x, m: x[1] - x[3])
    d("Rect.h", "R", "{0}.h", lambda x, m: x[0] - x[2])
    for i, n in enumerate(["bl", "tl", "tr", "br"]):
        d(f"Rect.{n}", "R", "{0}." + n, lambda x, m, i=i: c4(x)[i])
    d("Rect.center", "R", "{0}.center", lambda x, m: mean(*c4(x)))
    for n, (i, j) in {"mt": (1, 2), "mr": (2, 3), "mb": (0, 3), "ml": (0, 1)}.items():
        d(f"Rect.{n}", "R", "{0}." + n, lambda x, m, i=i, j=j: mean(c4(x)[i], c4(x)[j]))
    d("Rect.as_quad", "R", "{0}.as_quad()", lambda x, m: c4(x))
    d("Rect.translate", "RV", "{0}.translate({1})", rmap(lambda p, x, m: add(p, vec(x, 4))))
    d("Rect.scale", "RV", "{0}.scale({1})", rmap(lambda p, x, m: had(p, vec(x, 4))))
    d("Rect.scale_about", "RVV", "{0}.scale_about({1}, {2})", rmap(lambda p, x, m: add(had(sub(p, vec(x, 6)), vec(x, 4)), vec(x, 6))))
    d("Rect.scale_centered", "RV", "{0}.scale_centered({1})", rmap(lambda p, x, m: add(had(sub(p, mean(*c4(x))), vec(x, 4)), mean(*c4(x)))))
    d("Rect.expand", "RV", "{0}.expand({1})", lambda x, m: [x[0] + x[5], x[1] + x[4], x[2] - x[5], x[3] - x[4]])
    d("Rect.shrink", "RV", "{0}.shrink({1})", lambda x, m: [x[0] - x[5], x[1] - x[4], x[2] + x[5], x[3] + x[4]])
    # transforms
    d("Transform2d.new", "", "Transform2d.new()", lambda x, m: IDM)
    for n, (kinds, expr, f) in {**ELEM, **INVERSE}.items():
        e = expr.replace("{1}", "{2}").replace("{0}", "{1}")
        d(f"Transform2d.{n}", "T" + kinds, "{0}." + e, lambda x, m, f=f, kinds=kinds: mul(f(args_at(x, kinds, 9), m), mat(x, 0)))
    d("Transform2d.compose", "TT", "{0}.compose({1})", lambda x, m: mul(mat(x, 9), mat(x, 0)))
    d("Transform2d.compose_before", "TT", "{0}.compose_before({1})", lambda x, m: mul(mat(x, 0), mat(x, 9)))
    d("Transform2d.normalize", "T", "{0}.normalize()", lambda x, m: [[c / x[8] for c in r] for r in mat(x, 0)])
    d("Transform2d.transform_vec", "TV", "{0}.transform_vec({1})", lambda x, m: apply(mat(x, 0), vec(x, 9)))
    d("Transform2d.transform_quad", "TQ", "{0}.transform_quad({1})", lambda x, m: [apply(mat(x, 0), p) for p in pts(x, 9)])
    d("Transform2d.transform_quad of a rect", "TR", "{0}.transform_quad({1})", lambda x, m: [apply(mat(x, 0), p) for p in corners(*rect(x, 9))])
    d("compose is applying one after another", "TTV", "{0}.compose({1}).transform_vec({2})", lambda x, m: apply(mat(x, 9), apply(mat(x, 0), vec(x, 18))), guard=lambda x: safe(mat(x, 0), vec(x, 18)))
    # invertible transforms
    d("InvertibleTransform2d.new", "", "InvertibleTransform2d.new()", lambda x, m: [IDM, IDM])
    d("InvertibleTransform2d.transform_vec", "IV", "{0}.transform_vec({1})", lambda x, m: apply(mat(x, 0), vec(x, 18)))
    d("InvertibleTransform2d.inverse_transform_vec", "IV", "{0}.inverse_transform_vec({1})", lambda x, m: apply(mat(x, 9), vec(x, 18)))
    d("InvertibleTransform2d.transform_quad", "IQ", "{0}.transform_quad({1})", lambda x, m: [apply(mat(x, 0), p) for p in pts(x, 18)])
    d("InvertibleTransform2d.inverse_transform_quad", "IQ", "{0}.inverse_transform_quad({1})", lambda x, m: [apply(mat(x, 9), p) for p in pts(x, 18)])
    for n, (kinds, expr, f) in ELEM.items():
        e = expr.replace("{1}", "{2}").replace("{0}", "{1}")
        d(f"InvertibleTransform2d.{n} forward", "I" + kinds, "{0}." + e + ".forward", lambda x, m, f=f, kinds=kinds: mul(f(args_at(x, kinds, 18), m), mat(x, 0)), guard=lambda x, f=f, kinds=kinds: safe(f(args_at(x, kinds, 18), math)))
        d(f"InvertibleTransform2d.{n} keeps inverse * forward", "I" + kinds, "undo({0}." + e + ")", lambda x, m: mul(mat(x, 9), mat(x, 0)), guard=lambda x, f=f, kinds=kinds: safe(f(args_at(x, kinds, 18), math)))
        d(f"InvertibleTransform2d.{n} undone", kinds + "V", f"back(InvertibleTransform2d.new().{expr}, {{{len(kinds)}}})", lambda x, m, k=sum(SIZE[c] for c in kinds): vec(x, k), guard=lambda x, f=f, kinds=kinds, k=sum(SIZE[c] for c in kinds): safe(f(args_at(x, kinds, 0), math), vec(x, k)))
    d("InvertibleTransform2d.compose forward", "II", "{0}.compose({1}).forward", lambda x, m: mul(mat(x, 18), mat(x, 0)))
    d("InvertibleTransform2d.compose inverse", "II", "{0}.compose({1}).inverse", lambda x, m: mul(mat(x, 9), mat(x, 27)))
    d("InvertibleTransform2d.compose_before forward", "II", "{0}.compose_before({1}).forward", lambda x, m: mul(mat(x, 0), mat(x, 18)))
    d("InvertibleTransform2d.compose_before inverse", "II", "{0}.compose_before({1}).inverse", lambda x, m: mul(mat(x, 27), mat(x, 9)))
    d("InvertibleTransform2d.normalize", "I", "{0}.normalize()", lambda x, m: [[[c / x[8] for c in r] for r in mat(x, 0)], [[c / x[17] for c in r] for r in mat(x, 9)]])
    d("inverse_transform_vec of transform_vec", "IV", "back({0}, {1})", lambda x, m: apply(mul(mat(x, 9), mat(x, 0)), vec(x, 18)), guard=lambda x: safe(mat(x, 0), vec(x, 18)) and safe(mat(x, 9), apply(mat(x, 0), vec(x, 18))))
    # angles, approach
    d("perspective_approach", "NN", "perspective_approach({0}, {1})", lambda x, m: approach(x, m))
    return L


def approach(x, m):
    """linear in the reciprocal distance, which runs linearly from the ratio to 1"""
    a, p = x[0], x[1]
    if a == 1:
        return p
    d = a + (1 - a) * p
    if d < 1e-6:
        d = 1e-6 + 0 * a
    return (1 / d - 1 / a) / (1 - 1 / a)


def safe(m, v=None):
    """the sample is well conditioned: invertible with moderate entries; the point does not go far away"""
    if any(abs(c) > 1e3 for c in flat(m)) or v is None and any(abs(c) > 1e3 for c in flat(inv3(m))):
        return False
    if v is None:
        return True
    w = m[2][0] * v[0] + m[2][1] * v[1] + m[2][2]
    return abs(w) > 1e-2 and all(abs(c) < 1e3 for c in flat(inv3(m)))


def namespace():
    from vp import front
    from sonolus.script import quad, transform, vec as v
    from sonolus.script.array import Array
    ns = dict(front.api())
    ns.update(Vec2=v.Vec2, Quad=quad.Quad, Rect=quad.Rect, Transform2d=transform.Transform2d, InvertibleTransform2d=transform.InvertibleTransform2d, flatten_quad=quad.flatten_quad,
              pnpoly=v.pnpoly, angle_diff=v.angle_diff, signed_angle_diff=v.signed_angle_diff, perspective_approach=transform.perspective_approach, Array=Array)
    ns["undo"] = front.src_fn("def undo(t):\n    return t.forward.compose(t.inverse)\n", dict(ns), "undo")
    ns["back"] = front.src_fn("def back(t, v):\n    return t.inverse_transform_vec(t.transform_vec(v))\n", dict(ns), "back")
    return ns


def layout(kinds):
    k, out = 0, []
    for c in kinds:
        out.append(f"inp({k})" if c == "N" else f"inps({CLS[c]}, {k})")
        k += SIZE[c]
    return out, k


class TMath:
    """the mathematics module over terms"""

    def __getattr__(self, n):
        return lambda *a: trig(n, *a)


def trig(n, *a):
    import z3
    from vp.sym import Ctx, SReal, _nt, uf
    R = z3.RealSort()
    t = [z3.simplify(_nt(x, True), som=True) for x in a]
    if n in ("sin", "cos"):
        from vp.ratfun import Conv
        x = t[0]
        p, _ = Conv().conv(x)
        neg = bool(p) and p[min(p)] < 0
        if neg:
            x = z3.simplify(-x, som=True)
        s, c = uf("sin", R, R)(x), uf("cos", R, R)(x)
        Ctx.cur.axiom(z3.And(s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1))
        return SReal(c if n == "cos" else -s if neg else s)
    if n == "sqrt":
        r = uf("rsqrt", R, R)(t[0])
        Ctx.cur.axiom(z3.Implies(t[0] >= 0, z3.And(r >= 0, r * r == t[0])))
        return SReal(r)
    assert n == "atan2"
    return SReal(uf("atan2", R, R, R)(*t))


def power(run, a, b):
    if b == 2:
        return a * a
    if b == 0.5:
        return trig("sqrt", a)
    return a ** b


CALLS = {"Sin": lambda run, a: trig("sin", a), "Cos": lambda run, a: trig("cos", a), "Arctan2": lambda run, a, b: trig("atan2", a, b), "Power": power}


def same(a, b):
    """equality, decided by the normal form where that suffices"""
    import z3
    from vp import ratfun
    from vp.sym import SBool, Unsupported, _nt
    x, y = _nt(a, True), _nt(b, True)
    try:
        if ratfun.equal(x, y):
            return SBool(z3.BoolVal(True))
    except Unsupported:
        pass
    return SBool(x == y)


def contract(name, fn, f, n, pre=None):
    from vp.contract import Contract, disj, conj

    class C(Contract):
        def handlers(self):
            return CALLS

    def post(v, o):
        try:
            want = flat(f(v, TMath()))
        except ZeroDivisionError:
            return {}           # outside the contract
        return {f"result {i}": same(o[i], w) for i, w in enumerate(want)}
    p = {None: None, "nonzero": lambda v: disj(v[0] > 0, v[0] < 0, v[1] > 0, v[1] < 0), "zero": lambda v: conj(v[0] == 0, v[1] == 0)}[pre]
    # quotients by zero are outside the contracts
    return C(name, fn, "real", post, pre=p, undefined="skip" if pre is None else "fail")


SPECIAL = [0, 0, 1, -1, 2, -0.5, 3.25, 1e-3, 100]


def sample_fn(n, pre):
    def s(r):
        x = {i: r.choice(SPECIAL) if r.random() < 0.3 else round(r.uniform(-4, 4), 3) for i in range(n)}
        if pre == "zero":
            return {i: 0 for i in range(n)}
        return x
    return s


def reference(f, pre, guard=None):
    from vp.contract import Skip

    def ref(x):
        if pre == "nonzero" and x[0] == 0 and x[1] == 0:
            raise Skip
        try:
            if guard is not None and not guard(x):
                raise Skip
            w = [float(z) for z in flat(f(x, math))]
        except ZeroDivisionError:
            raise Skip from None
        if any(abs(z) > 1e6 for z in w):
            raise Skip          # badly conditioned
        return w
    return ref


def items(part=None):
    from vp import front
    from vp.contract import Item
    ns = namespace()
    L = []
    for name, (kinds, expr, f, kw) in specs().items():
        args, n = layout(kinds + kw.get("extra", ""))
        fn = front.src_fn(f"def f():\n    out(0, {expr.format(*args)})\n", dict(ns))
        L.append(Item(name, fn, sample_fn(n, kw.get("pre")), reference(f, kw.get("pre"), kw.get("guard")), contract(name, fn, f, n, kw.get("pre")), tol=1e-6, plain=True))
    L += polygons(ns) + permutes(ns) + angles(ns) + normal_checks(ns)
    return L


# -- point in polygon
def quotient(a, b):
    import z3
    from vp.sym import SReal, _nt, uf
    R = z3.RealSort()
    return SReal(uf("quotient", R, R, R)(*[z3.simplify(_nt(t, True), som=True) for t in (a, b)]))


def divide(run, a, b):
    from vp.sx import Undefined
    if bool(b == 0):
        raise Undefined("division by zero")
    return quotient(a, b)


def named(name, fn, post):
    """quotients are known by name; the replay decides whether a failure is one of the code"""
    from vp.contract import Contract

    class C(Contract):
        abstract = True

        def handlers(self):
            return {"Divide": divide}
    return C(name, fn, "real", post, budget=100, stubs=())


def edge_lemma():
    """the comparison with the quotient is the sign of the cross product, by the direction of the edge"""
    import z3
    from vp.sym import Ctx, SBool
    c = Ctx("crossing by cross product", prove_ms=60000, budget_s=100)

    def run():
        px, py, ax, ay, bx, by = z3.Reals("px py ax ay bx by")
        cr = (bx - ax) * (py - ay) - (px - ax) * (by - ay)
        c.cover("run")
        c.prove("crossing", SBool(z3.Implies(by != ay, (px < (bx - ax) * (py - ay) / (by - ay) + ax) == z3.If(by > ay, cr > 0, cr < 0))))
    c.run(run)
    return pack(c)


def polygons(ns):
    import z3
    from vp import front
    from vp.contract import Contract, Item, iff
    from vp.sym import SBool, SInt, _nt
    L = []
    for n in (3, 5, 4):
        def cross(a, b, p):
            """the edge meets the ray {(x, p.y): x > p.x}"""
            return (a[1] > p[1]) != (b[1] > p[1]) and p[0] < a[0] + (b[0] - a[0]) * (p[1] - a[1]) / (b[1] - a[1])

        def ref(x, n=n):
            ps = [vec(x, 2 * i) for i in range(n)]
            return [sum(cross(ps[i], ps[i - 1], vec(x, 2 * n)) for i in range(n)) % 2]

        def post(v, o, n=n):
            ps = [vec(v, 2 * i) for i in range(n)]
            p = vec(v, 2 * n)
            acc = z3.BoolVal(False)
            for i in range(n):
                a, b = ps[i], ps[i - 1]
                # the quotient is known by name only (edge_lemma: this is the sign of a cross product)
                q = quotient((b[0] - a[0]) * (p[1] - a[1]), b[1] - a[1])
                c = z3.And((a[1] > p[1]).t != (b[1] > p[1]).t, (p[0] < q + a[0]).t)
                acc = z3.Xor(acc, c)
            got = o[0]
            return {"even-odd rule": SBool((_nt(got, False) != 0) == acc) if not isinstance(got, int) else SBool(acc if got else z3.Not(acc))}

        def sample(r, n=n):
            return {i: r.choice([0, 1, 2, 3, -1, 0.5]) if r.random() < 0.5 else round(r.uniform(-2, 4), 2) for i in range(2 * n + 2)}
        for form, e in (("tuple", "(" + ", ".join(f"inps(Vec2, {2 * i})" for i in range(n)) + ")"), ("array", f"inps(Array[Vec2, {n}], 0)")):
            fn = front.src_fn(f"def f():\n    out(0, pnpoly({e}, inps(Vec2, {2 * n})))\n", dict(ns))
            L.append(Item(f"pnpoly {n} {form}", fn, sample, ref, named(f"pnpoly {n} {form}", fn, post), plain=form == "tuple"))
    post4 = post
    fn = front.src_fn("def f():\n    out(0, inps(Quad, 0).contains_point(inps(Vec2, 8)))\n", dict(ns))

    def ref4(x):
        ps = pts(x, 0)
        return [sum(cross(ps[i], ps[i - 1], vec(x, 8)) for i in range(4)) % 2]

    L.append(Item("Quad.contains_point", fn, lambda r: {i: round(r.uniform(-2, 2), 2) for i in range(10)}, ref4, named("Quad.contains_point", fn, post4), plain=True))
    fr = front.src_fn("def f():\n    out(0, inps(Rect, 0).contains_point(inps(Vec2, 4)))\n    out(1, inps(Rect, 0).as_quad().contains_point(inps(Vec2, 4)))\n", dict(ns))

    def rpost(v, o):
        t, r, b, l = rect(v, 0)
        p = vec(v, 4)
        ins = z3.And((l <= p[0]).t, (p[0] <= r).t, (b <= p[1]).t, (p[1] <= t).t)
        strict = z3.And((l < p[0]).t, (p[0] < r).t, (b < p[1]).t, (p[1] < t).t)
        proper = z3.And((l < r).t, (b < t).t)
        g = [_nt(o[k], False) != 0 for k in range(2)]
        return {"within the bounds": SBool(g[0] == ins), "as a quad, inside": SBool(z3.Implies(z3.And(proper, strict), g[1])), "as a quad, outside": SBool(z3.Implies(z3.And(proper, z3.Not(ins)), z3.Not(g[1])))}

    def rref(x):
        t, r, b, l = rect(x, 0)
        p = vec(x, 4)
        ins = l <= p[0] <= r and b <= p[1] <= t
        strict = l < p[0] < r and b < p[1] < t
        return [ins, None if not (l < r and b < t) or ins and not strict else ins]
    L.append(Item("Rect.contains_point", fr, lambda r: {i: r.choice([-1, 0, 1, 2, 0.5]) for i in range(6)}, rref, Contract("Rect.contains_point", fr, "real", rpost), plain=True))
    return L


def convex_lemmas():
    """the even-odd rule is containment for convex quads; p is the origin (the rule only depends on differences)"""
    import z3
    from vp.sym import Ctx, SBool
    c = Ctx("even-odd rule of convex quads", prove_ms=60000, budget_s=200)

    def run():
        X, Y = z3.Reals("x0 x1 x2 x3"), z3.Reals("y0 y1 y2 y3")
        e = [X[i] * Y[(i + 1) % 4] - X[(i + 1) % 4] * Y[i] for i in range(4)]
        up = [Y[i] > 0 for i in range(4)]
        crossing = []
        for i in range(4):
            j = (i - 1) % 4
            # from j to i; to the right of the origin: e_j > 0 going up, < 0 going down
            crossing.append(z3.And(up[i] != up[j], z3.If(up[i], e[j] > 0, e[j] < 0)))
        odd = z3.Xor(z3.Xor(crossing[0], crossing[1]), z3.Xor(crossing[2], crossing[3]))
        c.cover("run")
        c.prove("inside, counter-clockwise", SBool(z3.Implies(z3.And(*[x > 0 for x in e]), odd)))
        c.prove("inside, clockwise", SBool(z3.Implies(z3.And(*[x < 0 for x in e]), odd)))
        # strictly convex: every turn has the same sense; outside: strictly beyond one edge
        turn = [(X[(i + 1) % 4] - X[i]) * (Y[(i + 2) % 4] - Y[i]) - (Y[(i + 1) % 4] - Y[i]) * (X[(i + 2) % 4] - X[i]) for i in range(4)]
        # the four turns are sums of the edge products: turn_i = e_i + e_{i+1} - d_i with d_i the product of the diagonal
        for k in range(4):
            c.prove(f"outside edge {k}, counter-clockwise", SBool(z3.Implies(z3.And(*[t > 0 for t in turn], e[k] < 0), z3.Not(odd))))
            c.prove(f"outside edge {k}, clockwise", SBool(z3.Implies(z3.And(*[t < 0 for t in turn], e[k] > 0), z3.Not(odd))))
    c.run(run)
    return pack(c)


def permutes(ns):
    """a runtime count: every residue, negative counts included"""
    import z3
    from vp import front
    from vp.contract import Contract, Item, conj
    from vp.sym import SBool, _nt
    fn = front.src_fn("def f():\n    out(0, inps(Quad, 0).permute(inp(8)))\n", dict(ns))

    def post(v, o):
        g = []
        for k in range(4):
            eq = [_nt(o[2 * i + j], True) == _nt(v[2 * ((i - k) % 4) + j], True) for i in range(4) for j in range(2)]
            g.append(z3.Implies(v[8].t % 4 == k, z3.And(*eq)))
        return {"cyclic shift": SBool(z3.And(*g))}
    ty = {8: "int", None: "real"}
    return [Item("Quad.permute(count)", fn, lambda r: {**{i: r.randrange(100) for i in range(8)}, 8: r.randrange(-9, 10)},
                 lambda x: flat([pts(x, 0)[(i - int(x[8])) % 4] for i in range(4)]), Contract("Quad.permute(count)", fn, ty, post), plain=True)]


def angles(ns):
    import z3
    from vp import front
    from vp.contract import Contract, Item
    from vp.sym import SBool, _nt
    L = []
    pi = z3.RealVal(str(__import__("fractions").Fraction(math.pi)))
    for n in ("signed_angle_diff", "angle_diff"):
        fn = front.src_fn(f"def f():\n    out(0, {n}(inp(0), inp(1)))\n", dict(ns))

        def post(v, o, n=n):
            r, d = _nt(o[0], True), (v[0] - v[1]).t

            # the representative in [-pi, pi)
            s = d - 2 * pi * z3.ToReal(z3.ToInt((d + pi) / (2 * pi)))
            if n == "angle_diff":
                return {"range": SBool(z3.And(r >= 0, r <= pi)), "congruent up to sign": SBool(z3.Or(r == s, r == -s))}
            return {"range": SBool(z3.And(r >= -pi, r < pi)), "congruent": SBool(r == s)}

        def ref(x, n=n):
            d = math.remainder(x[0] - x[1], 2 * math.pi)
            if abs(abs(d) - math.pi) < 1e-6:
                return [None if n != "angle_diff" else math.pi]
            return [abs(d) if n == "angle_diff" else d]
        L.append(Item(n, fn, lambda r: {i: r.choice([0, math.pi, -math.pi, 6, 1, 100, r.uniform(-9, 9)]) for i in range(2)}, ref, Contract(n, fn, "real", post), tol=1e-6, plain=True))
    return L


def normal_checks(ns):
    """with runtime checks normalizing the zero vector terminates"""
    from vp import front
    from vp.contract import Contract, Item, Terminated, imp, disj, conj, neg

    class C(Contract):
        def handlers(self):
            return CALLS
    fn = front.src_fn("def f():\n    v = inps(Vec2, 0).normalize()\n    out(0, v)\n    done(1)\n", dict(ns))

    def ref(x):
        if x[0] == 0 and x[1] == 0:
            raise Terminated
        r = math.hypot(x[0], x[1])
        return [x[0] / r, x[1] / r]

    def post(v, o):
        z = conj(v[0] == 0, v[1] == 0)
        if o.done == 1:
            l = o[0] * o[0] + o[1] * o[1]
            return {"not for the zero vector": neg(z), "length one": l == 1, "same direction": conj(o[0] * v[1] == o[1] * v[0], o[0] * v[0] + o[1] * v[1] > 0)}
        return {"only the zero vector": z}
    return [Item("Vec2.normalize checked", fn, lambda r: {i: r.choice([0, 0, 1, -2, 0.25]) for i in range(2)}, ref, C("Vec2.normalize checked", fn, "real", post, checks="TERMINATE"), checks="TERMINATE", tol=1e-9)]


def prove(i, parts):
    L = items()
    return merge(*[pack(x.contract.prove()) for x in L[i::parts] if x.contract is not None])


def run(i, parts, seed, n, secs):
    from vp import contract
    L = items()
    return contract.sweep(L[i::parts], seed, n, secs)


def tasks(tier, seed):
    q = tier == "quick"
    return ([Task("real", "prove", i, 8, timeout=250) for i in range(8)] + [Task("real", "convex_lemmas", timeout=250), Task("real", "edge_lemma", timeout=100)] +
            [Task("real", "run", i, 8, seed, 12 if q else 1500, 90 if q else 500, timeout=550) for i in range(8)])


def replay(o):
    from vp import contract
    return contract.replay(items(), o)
