"""C03: volumes between two structured surfaces; data repeated along an axis; translation."""
from pvc.env import task
from .lines import resolution

F = "core._helpers."
G = "Volume"


def at3(axis, a, b, v):
    t = [a, b]
    t.insert(axis, v)
    return t


def volume(E, axis, data, method=None):
    cx, cy = E.int("cx", lo=1), E.int("cy", lo=1)
    nx, ny = cx + 1, cy + 1
    d2 = at3(axis, nx, ny, 1)
    a, b = E.structured("a", d2), E.structured("b", d2)
    keys_p, keys_c = [], []
    if data:
        s, v = E.data(a, "point", "s", "ps"), E.data(a, "point", "v", "pv", 2)
        cs, cv = E.data(a, "cell", "c", "cs", kind="i"), E.data(a, "cell", "w", "cv", 3)
        g = E.data(a, "cell", "vtkGhostType", "g", kind="i", among=[0, 32])
        keys_p, keys_c = ["s", "v"], ["c", "w"]
    pa, pb = a.points, b.points
    res, t, m = resolution(E, method=method)
    E.ready()
    mesh = E.fn(G)(a, b, res, method)
    dims, cdims = at3(axis, nx, ny, m + 1), at3(axis, cx, cy, m)
    E.dimensions("dimensions: those of the surfaces with one level per position", mesh, dims)
    at = lambda i, j, k: E.lin(at3(axis, i, j, k), dims)
    at2 = lambda i, j: E.lin(at3(axis, i, j, 0), d2)
    cat = lambda i, j, k: E.lin(at3(axis, i, j, k), cdims)
    cat2 = lambda i, j: E.lin(at3(axis, i, j, 0), at3(axis, cx, cy, 1))
    P = mesh.points
    for c in range(3):
        E.forall(f"point of column (i, j) at level k is a + t_k (b - a), coordinate {c}", [nx, ny, m + 1],
                 lambda i, j, k: E.eq(P[at(i, j, k), c], pa[at2(i, j), c] + t(k) * (pb[at2(i, j), c] - pa[at2(i, j), c]), 1e-5))
    E.has_keys("point data kept", mesh.point_data, keys_p)
    E.has_keys("cell data kept", mesh.cell_data, [*keys_c, "vtkGhostType"])
    if data:
        S, V = mesh.point_data["s"], mesh.point_data["v"]
        E.forall("point data follow the columns", [nx, ny, m + 1], lambda i, j, k: E.eq(S[at(i, j, k)], s[at2(i, j)]))
        E.shape("vector point data", V, [nx * ny * (m + 1), 2])
        E.forall("vector point data follow the columns", [nx, ny, m + 1, 2], lambda i, j, k, c: E.eq(V[at(i, j, k), c], v[at2(i, j), c]))
        S2, V2 = mesh.cell_data["c"], mesh.cell_data["w"]
        E.forall("cell data follow the columns", [cx, cy, m], lambda i, j, k: E.eq(S2[cat(i, j, k)], cs[cat2(i, j)]))
        E.forall("vector cell data follow the columns", [cx, cy, m, 3], lambda i, j, k, c: E.eq(V2[cat(i, j, k), c], cv[cat2(i, j), c]))
    gh = mesh.cell_data["vtkGhostType"]
    vol = E.cell_size(mesh, "Volume")

    def flat(i, j, k):
        return E.both(*[E.eq0(P[at(i + u, j + w, k + 1), c] - P[at(i + u, j + w, k), c]) for u in (0, 1) for w in (0, 1) for c in range(3)])

    E.forall("hidden exactly if the volume is zero, the levels coincide or the surface's data say so", [cx, cy, m],
             lambda i, j, k: E.eq(gh[cat(i, j, k)], E.ite(E.either(E.eq0(vol[cat(i, j, k)]), flat(i, j, k)), 32, g[cat2(i, j)] if data else 0)))
    E.unchanged("surfaces unchanged")


def mk(axis, data, method=None):
    @task("C03", f"volume-axis{axis}" + ("-data" if data else "") + (f"-{method}" if method else ""), [G, F + "repeat_structured_data"], secs=150, n_conc=20)
    def t(E):
        volume(E, axis, data, method)


for ax in range(3):
    mk(ax, False)
    mk(ax, True)
for ax, me in ((2, "log"), (0, "log_r")):
    mk(ax, False, me)


@task("C03", "repeat-data", [F + "repeat_structured_data"])
def repeat_data(E):
    n = [E.int(f"n{k}", lo=1) for k in range(3)]
    r = E.int("repeats", lo=1)
    axis = E.choice("axis", [0, 1, 2])
    comps = E.choice("comps", [None, 2])
    data = E.arr("data", [n[0] * n[1] * n[2]] + ([comps] if comps else []))
    E.ready()
    out = E.fn(F + "repeat_structured_data")(n, data, r, axis)
    dims = list(n)
    dims[axis] = n[axis] * r
    E.shape("size", out, [dims[0] * dims[1] * dims[2]] + ([comps] if comps else []))

    def ok(i, j, k, q, c):
        idx, dd = [i, j, k], list(n)
        idx.insert(axis, q)  # position within the repeated values: fastest along the axis
        dd.insert(axis, r)
        o, s = E.lin(idx, dd), E.lin([i, j, k], n)
        return E.eq(out[o, c], data[s, c]) if comps else E.eq(out[o], data[s])

    E.forall("every value is repeated in place along the axis", [*n, r, comps or 1], ok)
    E.unchanged("data unchanged")


@task("C03", "volume-invalid", [G])
def invalid(E):
    cx, cy, ex, ey = (E.int(k, lo=1) for k in ("cx", "cy", "ex", "ey"))
    a, b = E.structured("a", [cx + 1, cy + 1, 1]), E.structured("b", [ex + 1, ey + 1, 1])
    _, e = E.attempt(lambda: E.fn(G)(a, b))
    E.prove("different dimensions raise ValueError", E.iff(E.either(E.neg(E.eq(cx, ex)), E.neg(E.eq(cy, ey))), isinstance(e, ValueError)))


@task("C03", "volume-invalid-flat", [G])
def invalid_flat(E):
    cx, cy = E.int("cx", lo=1), E.int("cy", lo=1)
    a, b = E.structured("a", [cx + 1, cy + 1, 1]), E.structured("b", [cx + 1, 1, cy + 1])
    _, e = E.attempt(lambda: E.fn(G)(a, b))
    E.prove("surfaces flat along different axes raise ValueError", isinstance(e, ValueError))
    cz = E.int("cz", lo=1)
    a, b = E.structured("c", [cx + 1, cy + 1, cz + 1]), E.structured("d", [cx + 1, cy + 1, cz + 1])
    _, e = E.attempt(lambda: E.fn(G)(a, b))
    E.prove("volumes raise ValueError", isinstance(e, ValueError))
    a, b = E.structured("e", [cx + 1, 1, 1]), E.structured("f", [cx + 1, 1, 1])
    _, e = E.attempt(lambda: E.fn(G)(a, b))
    E.prove("lines raise ValueError", isinstance(e, ValueError))


@task("C20,C21", "translate", [F + "translate"])
def translate(E):
    cx, cy = E.int("cx", lo=1), E.int("cy", lo=1)
    a = E.structured("a", [cx + 1, cy + 1, 1])
    d = E.choice("dim", [3, 2])
    v = E.vec("v", d)
    E.ready()
    p = a.points
    m = E.fn(F + "translate")(a, v)
    for c in range(3):
        E.forall(f"every point moves by the vector, coordinate {c}", [(cx + 1) * (cy + 1)], lambda k: E.eq(m.points[k, c], p[k, c] + (v[c] if c < d else 0), 1e-5))
    E.dimensions("dimensions unchanged", m, [cx + 1, cy + 1, 1])
    E.unchanged("mesh unchanged")
    same = E.fn(F + "translate")(a, None)
    for c in range(3):
        E.forall(f"no vector, no move, coordinate {c}", [(cx + 1) * (cy + 1)], lambda k: E.eq(same.points[k, c], p[k, c]))
    for n in (1, 4):
        w = E.vec(f"w{n}", n)
        _, e = E.attempt(lambda: E.fn(F + "translate")(a, w))
        E.prove(f"vector of size {n} raises ValueError", isinstance(e, ValueError))
