"""C02: surfaces between two lines."""
from pvc.env import task
from .lines import resolution

F = "core._helpers."
G = "StructuredSurface"
PLANES = ["xy", "yx", "xz", "zx", "yz", "zy"]


def arrange(plane, along, across):
    """dimensions (or index) for a line of `along` points and `across` positions"""
    a, b = (along, across) if plane in ("xy", "xz", "yz") else (across, along)
    return {"z": (a, b, None), "y": (a, None, b), "x": (None, a, b)}[({"x", "y", "z"} - set(plane)).pop()]


def put(t, one):
    return [one if v is None else v for v in t]


def surface(E, kind, plane, data, method=None):
    nc = E.int("segments", lo=1)
    n = nc + 1
    if kind == "array":
        a, b = E.arr("a", [n, 3]), E.arr("b", [n, 3])
        pa, pb = a, b
    else:
        a, b = E.polyline("a", n, segments=data), E.polyline("b", n)
        pa, pb = a.points, b.points
    keys_p, keys_c = [], []
    if data:
        s, v = E.data(a, "point", "s", "ps"), E.data(a, "point", "v", "pv", 2)
        cs, cv = E.data(a, "cell", "c", "cs", kind="i"), E.data(a, "cell", "w", "cv", 3)
        keys_p, keys_c = ["s", "v"], ["c", "w"]
    res, t, m = resolution(E, method=method)
    E.ready()
    mesh = E.fn(G)(a, b, plane, res, method)
    dims = put(arrange(plane, n, m + 1), 1)
    cdims = put(arrange(plane, nc, m), 1)
    E.dimensions("dimensions follow the plane", mesh, dims)
    at = lambda i, j: E.lin(put(arrange(plane, i, j), 0), dims)
    cat = lambda i, j: E.lin(put(arrange(plane, i, j), 0), cdims)
    P = mesh.points
    for c in range(3):
        E.forall(f"point (i, j) at a_i + t_j (b_i - a_i), coordinate {c}", [n, m + 1],
                 lambda i, j: E.eq(P[at(i, j), c], pa[i, c] + t(j) * (pb[i, c] - pa[i, c]), 1e-5))
    E.has_keys("point data kept", mesh.point_data, keys_p)
    E.has_keys("cell data kept", mesh.cell_data, [*keys_c, "vtkGhostType"])
    if data:
        S, V = mesh.point_data["s"], mesh.point_data["v"]
        E.forall("point data follow the points", [n, m + 1], lambda i, j: E.eq(S[at(i, j)], s[i]))
        E.shape("vector point data", V, [n * (m + 1), 2])
        E.forall("vector point data follow the points", [n, m + 1, 2], lambda i, j, c: E.eq(V[at(i, j), c], v[i, c]))
        S2, V2 = mesh.cell_data["c"], mesh.cell_data["w"]
        E.forall("cell data follow the segments", [nc, m], lambda i, j: E.eq(S2[cat(i, j)], cs[i]))
        E.forall("vector cell data follow the segments", [nc, m, 3], lambda i, j, c: E.eq(V2[cat(i, j), c], cv[i, c]))
    gh = mesh.cell_data["vtkGhostType"]
    area = E.cell_size(mesh, "Area")
    E.forall("hidden exactly if the area is zero", [nc, m], lambda i, j: E.eq(gh[cat(i, j)], E.ite(E.eq0(area[cat(i, j)]), 32, 0)))
    E.unchanged("lines unchanged")


def mk(kind, plane, data, method=None):
    @task("C02", f"surface-{plane}-{kind}" + (f"-{method}" if method else ""), [G], secs=90)
    def t(E):
        surface(E, kind, plane, data, method)


for pl in PLANES:
    mk("array", pl, False)
    mk("polyline", pl, True)
for pl, me in (("xy", "log"), ("zx", "log_r")):
    mk("array", pl, False, me)


@task("C02", "surface-ghost", [G])
def ghost(E):
    """hidden flags of the line's own data survive"""
    nc = E.int("segments", lo=1)
    a, b = E.polyline("a", nc + 1, segments=True), E.polyline("b", nc + 1)
    g = E.data(a, "cell", "vtkGhostType", "g", kind="i", among=[0, 1, 32])
    res, t, m = resolution(E)
    mesh = E.fn(G)(a, b, "xy", res)
    gh = mesh.cell_data["vtkGhostType"]
    area = E.cell_size(mesh, "Area")
    E.forall("hidden if the area is zero, else as the line's data say", [nc, m],
             lambda i, j: E.eq(gh[E.lin((i, j), (nc, m))], E.ite(E.eq0(area[E.lin((i, j), (nc, m))]), 32, g[i])))


@task("C02", "surface-invalid", [G])
def invalid(E):
    n, k = E.int("n", lo=2), E.int("k", lo=2)
    a, b = E.arr("a", [n, 3]), E.arr("b", [k, 3])
    _, e = E.attempt(lambda: E.fn(G)(a, b))
    E.prove("lines of different size raise ValueError", E.iff(E.neg(E.eq(n, k)), isinstance(e, ValueError)))
    c = E.arr("c", [n, 3])
    _, e = E.attempt(lambda: E.fn(G)(a, c, "xx"))
    E.prove("unknown plane raises ValueError", isinstance(e, ValueError))
