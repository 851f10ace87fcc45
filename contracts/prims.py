"""C20, C21: circular and quadrilateral primitives."""
from pvc.env import task
from .lines import resolution

H = "core._helpers."


def offset(E):
    """the center argument and the translation it stands for"""
    if E.bool("centered"):
        c = E.vec("center", 3)
        return c, [c[k] for k in range(3)]
    return None, [0.0, 0.0, 0.0]


def mix(a, b, t):
    return a + t * (b - a)


# ---------------------------------------------------------------- C20
def annular(E, name, full, me=(None, None)):
    r0, r1 = E.real("inner", lo=0.0), E.real("outer")
    E.assume(E.lt0(r0 - r1))
    t0, t1 = (0.0, 360.0) if full else (E.real("theta_min"), E.real("theta_max"))
    rr, tr, nr = resolution(E, "r", me[0])
    ra, ta, na = resolution(E, "theta", me[1])
    c, o = offset(E)
    E.ready()
    args = [r0, r1] if full else [r0, r1, t0, t1]
    m = E.fn(name)(*args, r_resolution=rr, theta_resolution=ra, r_method=me[0], theta_method=me[1], center=c)
    dims = [na + 1, nr + 1, 1]
    E.dimensions("angle first, radius second", m, dims)
    P = m.points
    ang = lambda i: E.rad(mix(t0, t1, ta(i)))
    rad = lambda j: mix(r0, r1, tr(j))
    at = lambda i, j: E.lin((i, j, 0), dims)
    E.forall("points at the radius and angle around the center, x", [na + 1, nr + 1], lambda i, j: E.eq(P[at(i, j), 0], o[0] + rad(j) * E.cos(ang(i)), 1e-4))
    E.forall("points at the radius and angle around the center, y", [na + 1, nr + 1], lambda i, j: E.eq(P[at(i, j), 1], o[1] + rad(j) * E.sin(ang(i)), 1e-4))
    E.forall("points in the plane of the center", [na + 1, nr + 1], lambda i, j: E.eq(P[at(i, j), 2], o[2], 1e-5))
    E.unchanged("arguments unchanged")


def suffix(me):
    return "".join(f"-{m}" for m in me if m)


def mk_annular(name, full, *me):
    @task("C20", name.lower() + suffix(me), [name, H + "generate_arc", H + "translate"])
    def t(E):
        annular(E, name, full, me)


for nm, fu in (("AnnularSector", False), ("Annulus", True)):
    mk_annular(nm, fu, None, None)
    mk_annular(nm, fu, "log", "log_r")


def shell(E, name, full, me):
    r0, r1 = E.real("inner", lo=0.0), E.real("outer")
    E.assume(E.lt0(r0 - r1))
    h = E.real("height")
    t0, t1 = (0.0, 360.0) if full else (E.real("theta_min"), E.real("theta_max"))
    nr, tr, _ = resolution(E, "r", me[0] or "constant")
    na, ta, _ = resolution(E, "theta", me[1] or "constant")
    rz, tz, nz = resolution(E, "z", me[2])
    c, o = offset(E)
    E.ready()
    args = [r0, r1] if full else [r0, r1, t0, t1]
    m = E.fn(name)(*args, height=h, r_resolution=nr, theta_resolution=na, z_resolution=rz,
                   r_method=me[0], theta_method=me[1], z_method=me[2], center=c)
    dims = [na + 1, nr + 1, nz + 1]
    E.dimensions("angle first, radius second, height third", m, dims)
    P = m.points
    ang = lambda i: E.rad(mix(t0, t1, ta(i)))
    rad = lambda j: mix(r0, r1, tr(j))
    at = lambda i, j, k: E.lin((i, j, k), dims)
    E.forall("points at the radius and angle around the center, x", dims, lambda i, j, k: E.eq(P[at(i, j, k), 0], o[0] + rad(j) * E.cos(ang(i)), 1e-4))
    E.forall("points at the radius and angle around the center, y", dims, lambda i, j, k: E.eq(P[at(i, j, k), 1], o[1] + rad(j) * E.sin(ang(i)), 1e-4))
    E.forall("half of the height on each side", dims, lambda i, j, k: E.eq(P[at(i, j, k), 2], o[2] + (tz(k) - 0.5) * h, 1e-4))
    E.unchanged("arguments unchanged")


def mk_shell(name, full, *me):
    @task("C20", name.lower() + suffix(me), [name, H + "generate_arc", H + "translate"])
    def t(E):
        shell(E, name, full, me)


for nm, fu in (("CylindricalShellSector", False), ("CylindricalShell", True)):
    mk_shell(nm, fu, None, None, None)
    mk_shell(nm, fu, "log", "log_r", "constant")
    mk_shell(nm, fu, None, "log", "log_r")


def mk_sector(me):
    @task("C20", "sector" + suffix((me,)), ["Sector", H + "generate_arc"])
    def t(E):
        sector(E, me)


for me in (None, "log"):
    mk_sector(me)


def sector(E, me):
    r = E.real("radius")
    E.assume(E.lt0(-r))
    t0, t1 = E.real("theta_min"), E.real("theta_max")
    ra, ta, n = resolution(E, "theta", me)
    c, o = offset(E)
    E.ready()
    m = E.fn("Sector")(r, t0, t1, ra, me, c)
    P = m.points
    E.shape("the center and the points of the arc", P, [n + 2, 3])
    for k in range(3):
        E.prove(f"first point at the center, coordinate {k}", E.eq(P[0, k], o[k], 1e-5))
    ang = lambda i: E.rad(mix(t0, t1, ta(i)))
    E.forall("points of the arc, x", [n + 1], lambda i: E.eq(P[i + 1, 0], o[0] + r * E.cos(ang(i)), 1e-4))
    E.forall("points of the arc, y", [n + 1], lambda i: E.eq(P[i + 1, 1], o[1] + r * E.sin(ang(i)), 1e-4))
    E.forall("points of the arc, z", [n + 1], lambda i: E.eq(P[i + 1, 2], o[2], 1e-5))
    E.cells("triangles joining the center to consecutive points of the arc", m, n, 5, 3, lambda i, v: 0 if v == 0 else i + v)
    E.unchanged("arguments unchanged")


def mk_circle(me):
    @task("C20", "circle" + suffix((me,)), ["Circle", "Sector", H + "generate_arc"])
    def t(E):
        r = E.real("radius")
        E.assume(E.lt0(-r))
        ra, ta, n = resolution(E, "theta", me)
        c, o = offset(E)
        E.ready()
        m = E.fn("Circle")(r, ra, me, c)

        def corner(i, v):
            if v == 0:
                return o
            a = E.rad(360.0 * ta(i + v - 1))
            return [o[0] + r * E.cos(a), o[1] + r * E.sin(a), o[2]]

        E.corners("triangles joining the center to consecutive points of the circle", m, n, 5, 3, corner)
        E.unchanged("arguments unchanged")


for me in (None, "log_r"):
    mk_circle(me)


@task("C20", "radii-invalid", ["AnnularSector", "Annulus", "CylindricalShell", "CylindricalShellSector", "Sector"])
def radii_invalid(E):
    r0, r1 = E.real("inner"), E.real("outer")
    ok = E.both(E.le(0, r0), E.lt0(r0 - r1))
    for f in ("AnnularSector", "Annulus", "CylindricalShell", "CylindricalShellSector"):
        _, e = E.attempt(lambda: E.fn(f)(r0, r1))
        E.prove(f"{f}: ValueError exactly for radii that are not 0 <= inner < outer", E.iff(E.neg(ok), isinstance(e, ValueError)))
    _, e = E.attempt(lambda: E.fn("Sector")(r0))
    E.prove("Sector: ValueError exactly for a radius that is not positive", E.iff(E.le(r0, 0), isinstance(e, ValueError)))
    _, e = E.attempt(lambda: E.fn("Circle")(r0))
    E.prove("Circle: ValueError exactly for a radius that is not positive", E.iff(E.le(r0, 0), isinstance(e, ValueError)))


# ---------------------------------------------------------------- C21
def quad(E, name, me):
    rx, tx, nx = resolution(E, "x", me[0])
    ry, ty, ny = resolution(E, "y", me[1])
    c, o = offset(E)
    z = lambda k, v: v if k < 2 else 0.0
    if name == "Quadrilateral":
        d = E.choice("dim", [2, 3])
        p = E.arr("points", [4, d])
        q = [[p[k, j] if j < d else 0.0 for j in range(3)] for k in range(4)]
        E.ready()
        m = E.fn(name)(p, rx, ry, x_method=me[0], y_method=me[1], center=c)
    elif name == "Rectangle":
        dx, dy = E.real("dx"), E.real("dy")
        q = [[0.0, 0.0, 0.0], [dx, 0.0, 0.0], [dx, dy, 0.0], [0.0, dy, 0.0]]
        E.ready()
        m = E.fn(name)(dx, dy, rx, ry, x_method=me[0], y_method=me[1], center=c)
    else:
        dx = E.real("dx")
        ry, ty, ny = rx, tx, nx
        q = [[0.0, 0.0, 0.0], [dx, 0.0, 0.0], [dx, dx, 0.0], [0.0, dx, 0.0]]
        E.ready()
        m = E.fn(name)(dx, rx, method=me[0], center=c)
    dims = [nx + 1, ny + 1, 1]
    E.dimensions("subdivisions along each axis", m, dims)
    P = m.points
    for k in range(3):
        E.forall(f"linear between the opposite sides, coordinate {k}", [nx + 1, ny + 1],
                 lambda i, j: E.eq(P[E.lin((i, j, 0), dims), k], o[k] + mix(mix(q[0][k], q[1][k], tx(i)), mix(q[3][k], q[2][k], tx(i)), ty(j)), 1e-4))
    E.unchanged("arguments unchanged")


def mk_quad(name, *me):
    @task("C21", name.lower() + suffix(me), [name, H + "generate_line_from_two_points", H + "translate"])
    def t(E):
        quad(E, name, me)


for nm in ("Quadrilateral", "Rectangle", "Square"):
    mk_quad(nm, None, None)
    mk_quad(nm, "log", "log_r")


def hybrid(E, name, me):
    """a sector and a rectangle, one with the other removed: two patches joined at the diagonal"""
    outside = name in ("RectangleSector", "SquareSector")  # the arc is outside
    square = "Square" in name
    dx = E.real("dx")
    dy = dx if square else E.real("dy")
    r = E.real("radius")
    rx, tx, nx = resolution(E, "x", me[0] or "constant")
    one = square or not outside  # a single subdivision along both sides
    ry, ty, ny = (rx, tx, nx) if one else resolution(E, "y", me[1] or "constant")
    rr, tr, nr = resolution(E, "r", me[2])
    c, o = offset(E)
    E.ready()
    f = E.fn(name)
    if name == "RectangleSector":
        call = lambda: f(dx, dy, r, rx, ry, rr, me[0], me[1], me[2], c)
    elif name == "SquareSector":
        call = lambda: f(dx, r, rx, rr, me[0], me[2], c)
    elif name == "SectorRectangle":
        call = lambda: f(r, dx, dy, rr, rx, me[2], me[0], c)
    else:
        call = lambda: f(r, dx, rr, rx, me[2], me[0], c)
    m, e = E.attempt(call)
    if outside:
        ok = E.both(E.le(0, r), E.le(dx * dx + dy * dy, r * r))
    else:
        ok = E.both(E.lt0(-r), E.lt0(r - dx), E.lt0(r - dy))
    E.prove("ValueError exactly if the radius is invalid", E.iff(E.neg(ok), isinstance(e, ValueError)))
    if e is not None:
        return
    ang = lambda t, end: E.rad(mix(45.0, end, t))
    arc = lambda t, end: (r * E.cos(ang(t, end)), r * E.sin(ang(t, end)), 0.0)
    side_y = lambda t: (dx, mix(dy, 0.0, t), 0.0)
    side_x = lambda t: (mix(dx, 0.0, t), dy, 0.0)

    def patch(n, t, side, end):
        def point(i, j):
            a, b = side(t(i)), arc(t(i), end)
            a, b = (a, b) if outside else (b, a)
            return [o[k] + mix(a[k], b[k], tr(j)) for k in range(3)]

        return n, nr, point

    E.pieces("both halves between the sides of the rectangle and the arc, joined at the diagonal", m, [patch(ny, ty, side_y, 0.0), patch(nx, tx, side_x, 90.0)])
    E.unchanged("arguments unchanged")


def mk_hybrid(name, *me):
    @task("C21", name.lower() + suffix(me), [name, H + "generate_line_from_two_points", H + "generate_arc", H + "translate"])
    def t(E):
        hybrid(E, name, me)


for nm in ("RectangleSector", "SquareSector", "SectorRectangle", "SectorSquare"):
    mk_hybrid(nm, None, None, None)
    mk_hybrid(nm, "log", "log" if "Sq" in nm or nm[0] == "S" else "log_r", "log_r")


# ---------------------------------------------------------------- C22
def mk_regular(given):
    @task("C22", "regular-line" + ("" if given else "-default"), ["RegularLine"], secs=90)
    def t(E):
        n = E.int("n", lo=2)
        p = E.arr("points", [n, 3])
        r = E.int("resolution", lo=1) if given else n
        L = E.arclength(p, n)
        E.assume(E.neg(E.eq0(L(n - 1))))
        E.ready()
        line = E.fn("RegularLine")(p, r) if given else E.fn("RegularLine")(p)
        Q = line.points
        E.shape("one point more than steps", Q, [r + 1, 3])
        E.same_sums(L)
        for c in range(3):
            E.prove(f"begins at the first point, coordinate {c}", E.eq(Q[0, c], p[0, c], 1e-5))
            E.prove(f"ends at the last point, coordinate {c}", E.eq(Q[r, c], p[n - 1, c], 1e-5))

        E.unchanged("points unchanged")
        if not given:
            return

        def inner(what):
            def f(k):
                k = k + 1
                _ = Q[k, 0]
                x = L(n - 1) * (k / r)
                s = E.located(L, k, x)
                return what(k, s, x)
            return f

        # witness of "there is a segment": where the position was located
        E.forall("the segment exists", [r - 1], inner(lambda k, s, x: E.both(E.le(0, s), E.le(s, n - 2))))
        E.forall("the segment has the position", [r - 1], inner(lambda k, s, x: E.both(E.le(L(s), x, 1e-5), E.le(x, L(s + 1), 1e-5))))
        for c in range(3):
            E.forall(f"points at equal distances along the polyline, coordinate {c}", [r - 1],
                     inner(lambda k, s, x: E.eq(Q[k, c], p[s, c] + (x - L(s)) * ((p[s + 1, c] - p[s, c]) / (L(s + 1) - L(s))), 1e-4)))


mk_regular(True)
mk_regular(False)


def mk_curved(turn):
    @task("C22", "curved-line" + ("-turn" if turn else ""), ["CurvedLine"], secs=90)
    def t(E):
        o, a = E.arr("origin", [3]), E.arr("start", [3])
        length = E.real("length", gt=0.0)
        n = E.int("resolution", lo=1)
        E.assume(E.neg(E.both(*[E.eq0(a[c]) for c in range(3)])))
        norm = E.sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2])
        E.ready()
        line = E.fn("CurvedLine")(o, length, a, resolution=n)
        Q = line.points
        E.shape("one point more than steps", Q, [n + 1, 3])
        for c in range(3):
            E.prove(f"begins at the origin, coordinate {c}", E.eq(Q[0, c], o[c], 1e-5))
            E.forall(f"straight steps of equal length, coordinate {c}", [n], lambda k: E.eq(Q[k + 1, c], Q[k, c] + length / n * (a[c] / norm), 1e-4))
        E.unchanged("arguments unchanged")


mk_curved(False)
