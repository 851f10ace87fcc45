"""C16: decimated polylines, by the contract of the recursive function."""
from pvc.env import task

D = "decimate_rdp"
CLEAN = ["clean() keeps the vertices of the lines where they are (no line collapses: kept neighbours do not coincide)"]


def distance(E, tol):
    """no farther than the tolerance from the line through a and b, from a if they coincide"""

    def near(px, py, pz, ax, ay, az, bx, by, bz):
        u = [bx - ax, by - ay, bz - az]
        w = [ax - px, ay - py, az - pz]
        x = [u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]]
        sq = lambda v: v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
        un = E.sqrt(sq(u))
        return E.either(E.both(E.lt(0, un), E.le(E.sqrt(sq(x)), tol * un, 1e-6)), E.both(E.le(un, 0), E.le(E.sqrt(sq(w)), tol, 1e-6)))

    return E.predicate("near", near, 9)


def kept(E, th, near, k, P, n, Q, tol):
    W = th.witness(k, P, n, Q)
    M = W.size
    E.prove("at least two points", E.le(2, M))
    E.forall("points of the original", [M, 3], lambda i, c: E.eq(Q[i, c], P[W.keep(i), c], 1e-6))
    E.forall("of which there are", [M], lambda i: E.both(E.le(0, W.keep(i)), E.le(W.keep(i), n - 1)))
    E.forall("in their order", [M - 1], lambda i: E.le(W.keep(i) + 1, W.keep(i + 1)))
    E.prove("begins with the first", E.eq(W.keep(0), 0))
    E.prove("ends with the last", E.eq(W.keep(M - 1), n - 1))

    def bracket(i):
        W.near(i)
        s, a, b = W.around(i)
        return E.both(E.le(0, s), E.le(s, M - 2), E.eq(a, W.keep(s)), E.eq(b, W.keep(s + 1)), E.le(a, i), E.le(i, b))

    def within(i):
        W.near(i)
        s, a, b = W.around(i)
        args = [P[j, c] for j in (i, a, b) for c in range(3)]
        near.unfold(*args)
        E.extremes(i)
        return near(*args)

    E.forall("each point lies between two kept points", [n], bracket)
    E.forall("no point farther than the tolerance from the line through the kept points around it", [n], within)
    return M


@task("C16", "decimate-one", [D], secs=90, branch_ms=400, assumes=CLEAN)
def one(E):
    n = E.int("n", lo=2)
    tol = E.real("tolerance", lo=0)
    m = E.polyline("line", n)
    E.ready()
    near = distance(E, tol)
    th = E.thinning(near)
    out = E.fn(D)(m, tol)
    P = m.points
    M = E.line_size(out, th, 0)
    kept(E, th, near, 0, P, n, E.line(out, 0, [M]), tol)
    E.line_sizes("a single polyline", out, [M])
    E.unchanged("mesh unchanged")


@task("C16", "decimate-two", [D], secs=200, branch_ms=400, assumes=CLEAN)
def two(E):
    n, l = E.int("n", lo=2), E.int("l", lo=2)
    tol = E.real("tolerance", lo=0)
    m = E.polylines("line", [n, l])
    E.ready()
    near = distance(E, tol)
    th = E.thinning(near, modular=True)  # decimate-one proves the contract for the body
    out = E.fn(D)(m, tol)
    M = [E.line_size(out, th, k) for k in range(2)]
    for k in range(2):
        P = m.points[:n] if k == 0 else m.points[n:]
        kept(E, th, near, k, P, [n, l][k], E.line(out, k, M), tol)
    E.line_sizes("two polylines", out, M)
    E.unchanged("mesh unchanged")


@task("C16", "decimate-segments", [D], secs=60, assumes=CLEAN)
def segments(E):
    n = E.int("n", lo=3)
    tol = E.real("tolerance", lo=0)
    m = E.polyline("line", n, segments=True)
    E.ready()
    out = E.fn(D)(m, tol)
    E.segments("lines of two points are unchanged", out, n - 1, lambda k: m.points[k], lambda k: m.points[k + 1])
    E.unchanged("mesh unchanged")
