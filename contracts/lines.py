"""C01 (and parts of C20): subdivisions, arcs and straight lines."""
from pvc.env import task

F = "core._helpers."
R = [F + "resolution_to_perc", F + "generate_surface_from_two_lines"]


def positions(E, resolution, method):
    """relative positions of the subdivisions of the unit square, seen from outside: (number, position k)"""
    m = E.fn("StructuredSurface")([(0.0, 0.0, 0.0), (1.0, 0.0, 0.0)], [(0.0, 1.0, 0.0), (1.0, 1.0, 0.0)], "xy", resolution, method)
    n = m.dimensions[1]
    return n, lambda k: m.points[E.lin((0, k), (2, n)), 1]


@task("C01", "resolution-int", R)
def resolution_int(E):
    n = E.int("resolution")
    m = E.choice("method", [None, "constant"])
    size, p = positions(E, n, m)
    N = E.ite(E.le(n, 1), 1, n)
    E.prove("number of positions is max(1, n) + 1", E.eq(size, N + 1))
    E.forall("position k is k / n", [N + 1], lambda k: E.eq(p(k) * N, k))
    E.prove("first is exactly 0", E.eq0(p(0)))
    E.prove("last is exactly 1", E.eq0(p(N) - 1.0))


@task("C01", "resolution-none", R)
def resolution_none(E):
    m = E.choice("method", [None, "constant", "log", "log_r"])
    size, p = positions(E, None, m)
    E.prove("two positions", E.eq(size, 2))
    E.prove("from 0 to 1", E.both(E.eq(p(0), 0), E.eq(p(1), 1)))


@task("C01", "resolution-log", R)
def resolution_log(E):
    n = E.int("resolution")
    m = E.choice("method", ["log", "log_r"])
    size, p = positions(E, n, m)
    N = E.ite(E.le(n, 1), 1, n)
    E.prove("number of positions is max(1, n) + 1", E.eq(size, N + 1))
    E.prove("first is exactly 0", E.eq0(p(0)))
    E.prove("last is exactly 1", E.eq0(p(N) - 1.0))
    E.forall("strictly ascending", [N], lambda k: E.lt(p(k), p(k + 1)))
    E.forall("within [0, 1]", [N + 1], lambda k: E.both(E.le(0, p(k)), E.le(p(k), 1)))
    if m == "log_r":
        E.forall("log_r: position is log10(1 + 9 k / n)", [N + 1], lambda k: E.eq(p(k), E.log10(1 + 9 * (k / N)), 1e-6))
    else:
        E.forall("log: position is 1 - log10(1 + 9 (n - k) / n)", [N + 1], lambda k: E.eq(p(k), 1 - E.log10(1 + 9 * ((N - k) / N)), 1e-6))


@task("C01", "resolution-array", R)
def resolution_array(E):
    n = E.int("n", lo=1)
    a = E.arr("resolution", [n])
    E.ready()
    size, p = positions(E, a, None)
    E.prove("as many positions as given", E.eq(size, n))
    E.forall("ascending", [n - 1], lambda k: E.le(p(k), p(k + 1)))
    E.forall("only positions given", [n], lambda k: E.exists([n], lambda i: E.eq(p(k), a[i], 1e-6)))
    E.forall("all positions given", [n], lambda i: E.exists([n], lambda k: E.eq(p(k), a[i], 1e-6)))
    E.unchanged("array passed in is unchanged")


@task("C01", "resolution-ascending", R)
def resolution_ascending(E):
    m = E.int("m", lo=1)
    a = E.ascending("t", m)
    E.ready()
    size, p = positions(E, a, E.choice("method", [None, "log"]))
    E.prove("as many positions as given", E.eq(size, m + 1))
    E.forall("ascending positions are used as given", [m + 1], lambda k: E.eq(p(k), a[k], 1e-6))
    E.unchanged("array passed in is unchanged")


@task("C01", "resolution-invalid", R)
def resolution_invalid(E):
    n = E.int("resolution")
    _, e = E.attempt(lambda: positions(E, n, "linear"))
    E.prove("unknown method raises ValueError", isinstance(e, ValueError))
    a = E.arr("a", [E.int("p", lo=1), 2])
    _, e = E.attempt(lambda: positions(E, a, None))
    E.prove("two-dimensional resolution raises ValueError", isinstance(e, ValueError))


def resolution(E, name="resolution", method=None):
    """a resolution argument and the relative positions it stands for: (value, positions t(k), number of positions)"""
    if method is not None:
        n = E.int(name, lo=1)
        return n, (lambda k: E.log10(1 + 9 * (k / n)) if method == "log_r" else 1 - E.log10(1 + 9 * ((n - k) / n)) if method == "log" else k / n), n
    kind = E.choice(name + ".kind", ["int", "array"])
    if kind == "int":
        n = E.int(name, lo=1)
        return n, (lambda k: k / n), n
    m = E.int(name + ".m", lo=1)
    a = E.ascending(name + ".t", m)
    return a, (lambda k: a[k]), m


def mk_arc(method):
    @task("C01,C20", "arc" + (f"-{method}" if method else ""), [F + "generate_arc"])
    def t(E):
        arc(E, method)


def arc(E, method):
    r, a, b = E.real("radius"), E.real("theta_min"), E.real("theta_max")
    res, t, n = resolution(E, method=method)
    E.ready()
    m = E.fn(F + "generate_arc")(r, a, b, res, method)
    p = m.points
    E.shape("one point per position", p, [n + 1, 3])
    E.forall("points at the radius and angle", [n + 1], lambda k: E.both(
        E.eq(p[k, 0], r * E.cos(E.rad(a + t(k) * (b - a))), 1e-5), E.eq(p[k, 1], r * E.sin(E.rad(a + t(k) * (b - a))), 1e-5), E.eq(p[k, 2], 0)))
    E.has_keys("no point data", m.point_data, [])
    E.has_keys("no cell data", m.cell_data, [])
    E.unchanged("inputs unchanged")


def mk_line(method):
    @task("C01", "line" + (f"-{method}" if method else ""), [F + "generate_line_from_two_points"])
    def t(E):
        line(E, method)


def line(E, method):
    d = E.choice("dim", [3, 2])
    a, b = E.vec("a", d), E.vec("b", d)
    res, t, n = resolution(E, method=method)
    E.ready()
    m = E.fn(F + "generate_line_from_two_points")(a, b, res, method)
    p = m.points
    E.shape("one point per position", p, [n + 1, 3])
    for c in range(3):
        E.forall(f"point k at a + t (b - a), coordinate {c}", [n + 1],
                 lambda k: E.eq(p[k, c], a[c] + t(k) * (b[c] - a[c]) if c < d else 0, 1e-5))
    E.has_keys("no point data", m.point_data, [])
    E.unchanged("inputs unchanged")


@task("C01", "line-invalid", [F + "generate_line_from_two_points"])
def line_invalid(E):
    a, b = E.vec("a", 3), E.vec("b", 2)
    _, e = E.attempt(lambda: E.fn(F + "generate_line_from_two_points")(a, b))
    E.prove("points of different size raise ValueError", isinstance(e, ValueError))


for me in (None, "log", "log_r"):
    mk_arc(me)
    mk_line(me)
