"""C19: offset polygons."""
from pvc.env import task

O = "offset_polygon"


def polygon(E, axis):
    """polygon of any number of vertices in a plane normal to the axis"""
    n = E.int("n", lo=3)
    p = E.arr("points", [n, 3])
    h = E.real("h")
    E.tie("points", [n], lambda i: (i, axis), lambda i: h)
    for c in range(3):
        if c != axis:
            w = E.int(f"w{c}", lo=1)
            E.assume(E.le(w, n - 1))
            E.assume(E.neg(E.eq(p[0, c], p[w, c])))
    return n, p


class Vertex:
    """directions of the edges at a vertex, their lengths, and the turn between them"""

    def __init__(self, E, p, plane, i, prv, nxt):
        a, b = plane
        self.q = [p[i, a], p[i, b]]
        self.f = [p[i, a] - p[prv, a], p[i, b] - p[prv, b]]
        self.e = [p[nxt, a] - p[i, a], p[nxt, b] - p[i, b]]
        self.f2, self.e2 = (v[0] * v[0] + v[1] * v[1] for v in (self.f, self.e))

    def units(self, E):
        self.lf, self.le = E.sqrt(self.f2), E.sqrt(self.e2)
        self.u, self.v = [x / self.lf for x in self.f], [x / self.le for x in self.e]
        self.cos = self.u[0] * self.v[0] + self.u[1] * self.v[1]
        return self


def mk(axis, sign, ccw, as_mesh):
    @task("C19", f"offset-axis{axis}-{'out' if sign > 0 else 'in'}-{'ccw' if ccw else 'cw'}", [O], secs=150, n_conc=40)
    def t(E):
        n, p = polygon(E, axis)
        plane = [k for k in range(3) if k != axis]
        d = E.real("distance", lo=0.01)
        nxt = lambda i: E.ite(E.eq(i, n - 1), 0, i + 1)
        prv = lambda i: E.ite(E.eq(i, 0), n - 1, i - 1)

        def regular(i, j=None, k=None):
            V = Vertex(E, p, plane, i, prv(i) if j is None else j, nxt(i) if k is None else k)
            return V

        def long_enough(V):
            return E.both(E.le(0.0001, V.e2), E.le(0.0001, V.f2), E.le(0.01, E.sqrt(V.e2)), E.le(0.01, E.sqrt(V.f2)))

        def turn(V):
            return E.both(E.le(0.0002, 1 + V.cos), E.le(0.01, E.sqrt(0.5 * (1 + V.cos))))

        edges = E.given([n], lambda i, j=None, k=None: long_enough(regular(i, j, k)))
        turns = E.given([n], lambda i, j=None, k=None: turn(regular(i, j, k).units(E)))
        E.ready()
        arg = E.polygon("mesh", n, p) if as_mesh else p
        out = E.fn(O)(arg, d if sign > 0 else -d)
        o = [p[n - 1, c] for c in plane]
        area = E.total(n, lambda i: (p[i, plane[0]] - o[0]) * (p[nxt(i), plane[1]] - o[1]) - (p[nxt(i), plane[0]] - o[0]) * (p[i, plane[1]] - o[1]))
        E.assume(E.lt0(-area if ccw else area))
        s = (1 if ccw else -1) * sign
        E.shape("as many vertices", out.points, [n, 3])
        E.shape("a single polygon", out.faces, [n + 1])
        E.prove("a single polygon of all vertices", E.eq(out.faces[0], n))
        E.forall("vertices in order", [n], lambda i: E.eq(out.faces[i + 1], i))
        E.forall("same plane", [n], lambda i: E.eq(out.points[i, axis], p[i, axis]))

        def moved(which, i, j, k):
            edges(i, j, k)
            turns(i, j, k)
            V = regular(i, j, k).units(E)
            b = [x + y for x, y in zip(V.u, V.v)]
            E.lemma_eq("length of the bisector", b[0] * b[0] + b[1] * b[1], 2 + 2 * V.cos)
            w = [out.points[i, plane[c]] - V.q[c] for c in range(2)]
            g, l = (V.e, V.le) if which == "next" else (V.f, V.lf)
            return E.same(s * (w[0] * g[1] - w[1] * g[0]), d * l, 1e-4)

        for which in ("next", "previous"):
            name = f"vertices at the distance from the line of the {which} edge, on the right side"
            E.case(name, lambda: moved(which, 0, n - 1, 1))
            E.case(name, lambda: moved(which, n - 1, n - 2, 0))
            E.forall(name, [n - 2], lambda i: moved(which, i + 1, i, i + 2))
        E.unchanged("points unchanged")


for ax in range(3):
    for si in (1, -1):
        mk(ax, si, (ax + (si > 0)) % 2 == 0, si > 0 and ax == 1)


@task("C19", "offset-zero", [O])
def zero(E):
    n, p = polygon(E, 2)
    E.ready()
    out = E.fn(O)(p, 0.0)
    E.shape("as many vertices", out.points, [n, 3])
    E.forall("a copy", [n, 3], lambda i, c: E.eq(out.points[i, c], p[i, c], 1e-6))
    E.unchanged("points unchanged")


@task("C19", "offset-not-planar", [O])
def slanted(E):
    n = E.int("n", lo=3)
    p = E.arr("points", [n, 3])
    w = [E.int(f"w{c}", lo=1) for c in range(3)]
    d = E.real("distance")
    E.assume(E.neg(E.eq(d, 0)))
    for c in range(3):
        E.assume(E.le(w[c], n - 1))
        E.assume(E.neg(E.eq(p[0, c], p[w[c], c])))
    E.ready()
    _, e = E.attempt(lambda: E.fn(O)(p, d))
    E.prove("a polygon that is not parallel to a coordinate plane raises ValueError", isinstance(e, ValueError))
    E.unchanged("points unchanged")


@task("C19", "offset-no-polygon", [O])
def nothing(E):
    m = E.polyline("line", E.int("n", lo=2))
    d = E.real("distance")
    E.ready()
    _, e = E.attempt(lambda: E.fn(O)(m, d))
    E.prove("a mesh without polygon raises ValueError", isinstance(e, ValueError))
    E.unchanged("mesh unchanged")
