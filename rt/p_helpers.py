"""Runtime contracts C01-C04: subdivision, surfaces and volumes."""
from __future__ import annotations

import numpy as np
import pyvista as pv
import pvgridder as pvg

from .core import case, need, close, equal, raises, Violation, Skip
from .gen import *


# ------------------------------------------------------------------ C01
def positions(resolution, method):
    """Relative positions as observed on a unit surface (exact: 0 + t * (1 - 0))."""
    m = pvg.StructuredSurface([(0.0, 0.0, 0.0), (1.0, 0.0, 0.0)], [(0.0, 1.0, 0.0), (1.0, 1.0, 0.0)], "xy", resolution, method)
    y = np.array(m.y)[0, :, 0]
    equal(np.array(m.y)[1, :, 0], y, "relative positions differ along the line")
    return y


def perc_contract(resolution, method, y):
    is_int = resolution is None or isinstance(resolution, int)
    if is_int:
        n = max(1, 1 if resolution is None else resolution)
        need(len(y) == n + 1, f"{len(y)} positions for {n} subdivisions")
        need(y[0] == 0.0 and y[-1] == 1.0, f"positions run from {y[0]!r} to {y[-1]!r}")
        d = np.diff(y)
        need((d > 0.0).all(), "positions are not strictly increasing")
        eps = 1e-9
        if method in (None, "constant"):
            close(d, np.full(n, 1.0 / n), 1e-9, "constant spacing")
        elif method == "log":
            need((np.diff(d) > -eps / n).all() and (n < 2 or d[-1] > d[0]), "log: steps do not grow")
            need((np.diff(d) > 0).all(), "log: steps do not grow")
        elif method == "log_r":
            need((np.diff(d) < 0).all(), "log_r: steps do not shrink")
        close(y, spec_perc(resolution, method), 1e-9, f"positions for {resolution}, {method}")
    else:
        equal(y, np.array(sorted(np.asarray(resolution, dtype=float).tolist())), "explicit positions")


@case("C01", "ints", n=64)
def c01_ints(rng):
    i = rng.index
    ns = [None, -3, 0, 1, 2, 3, 4, 5, 7, 8, 10, 16, 33, 100, 257, 1000]
    n, meth = ns[i // 4], METHODS[i % 4]
    rng.note(resolution=n, method=meth)
    y = positions(n, meth)
    perc_contract(n, meth, y)
    if meth in ("log", "log_r"):
        other = positions(n, "log_r" if meth == "log" else "log")
        close(y, 1.0 - other[::-1], 1e-12, "log and log_r are not mirror images")


@case("C01", "random")
def c01_random(rng):
    if rng.bool(0.5):
        n, meth = rng.int(-2, 400), rng.choice(METHODS)
        rng.note(resolution=n, method=meth)
        perc_contract(n, meth, positions(n, meth))
    else:
        k = rng.int(1, 12)
        p = rng.uniform(-0.5, 1.5, k) if rng.bool(0.4) else rng.uniform(0.0, 1.0, k)
        if rng.bool(0.3):
            p = np.round(p, 1)  # repeated values
        order = rng.int(0, 2)
        p = np.sort(p) if order == 0 else np.sort(p)[::-1].copy() if order == 1 else p
        arg = rng.choice([p, p.tolist(), tuple(p.tolist())])
        meth = rng.choice(METHODS + ["whatever"])
        rng.note(resolution=arg, method=meth)
        with Frame(resolution=arg):
            perc_contract(arg, meth, positions(arg, meth))


@case("C01", "errors", n=8)
def c01_errors(rng):
    bad = [(3, "linear"), (3, "log_"), (1, "_r"), (2, "constant_r"), (np.zeros((2, 2)), None), (0.5, None), ([[0.0, 1.0]], "log"), (5, "LOG")]
    r, m = bad[rng.index]
    rng.note(resolution=r, method=m)
    raises(ValueError, lambda: positions(r, m), f"subdivision {r!r} with method {m!r}")


@case("C01", "everywhere", weight=0.5)
def c01_everywhere(rng):
    """The same positions are used by lines, arcs, surfaces, structured and unstructured volumes."""
    r, m = rand_resolution(rng)
    rng.note(resolution=r, method=m)
    t = spec_perc(r, m)
    s = pvg.Rectangle(1.0, 1.0, x_resolution=r, x_method=m)
    close(np.array(s.x)[:, 0, 0], t, 1e-6, "line positions")
    if np.all(np.diff(t) >= 0):
        a = pvg.AnnularSector(1.0, 2.0, 0.0, 90.0, theta_resolution=r, theta_method=m)
        close(np.arctan2(np.array(a.y), np.array(a.x))[:, 0, 0] / (0.5 * np.pi), t, 1e-6, "arc positions")
    b = pvg.Rectangle(1.0, 1.0)
    v = pvg.Volume(b, b.translate((0, 0, 1.0)), r, m)
    close(np.array(v.z)[0, 0, :], t, 1e-6, "structured volume positions")
    u = b.cast_to_unstructured_grid()
    v = pvg.Volume(u, u.translate((0, 0, 1.0)), r, m)
    close(np.array(v.points)[::4, 2], t, 1e-6, "unstructured volume positions")


# ------------------------------------------------------------------ C02
PLANES = {"xy": (0, 1), "yx": (1, 0), "xz": (0, 2), "zx": (2, 0), "yz": (1, 2), "zy": (2, 1)}


def surface_contract(line_a, line_b, plane, resolution, method, mesh):
    A = np.asarray(line_a.points if isinstance(line_a, pv.PolyData) else line_a, dtype=float)
    Bp = np.asarray(line_b.points if isinstance(line_b, pv.PolyData) else line_b, dtype=float)
    t = spec_perc(resolution, method)
    n, p = len(A), len(t)
    la, pa = PLANES[plane]
    dims = [1, 1, 1]
    dims[la], dims[pa] = n, p
    need(isinstance(mesh, pv.StructuredGrid), "not a structured grid")
    need(tuple(mesh.dimensions) == tuple(dims), f"dimensions {mesh.dimensions}, expected {dims}")
    idx = np.indices(dims)
    ii = idx[la].ravel(order="F")
    jj = idx[pa].ravel(order="F")
    exp = A[ii] + t[jj][:, None] * (Bp[ii] - A[ii])
    close(mesh.points, exp, 1e-6, "points")
    if isinstance(line_a, pv.PolyData):
        for k, v in line_a.point_data.items():
            need(k in mesh.point_data, f"point data {k!r} lost")
            equal(np.asarray(mesh.point_data[k]), np.asarray(v)[ii], f"point data {k!r}")
        cd = [max(1, d - 1) for d in dims]
        ic = np.indices(cd)[la].ravel(order="F")
        for k, v in line_a.cell_data.items():
            if k == "vtkGhostType":
                continue
            need(k in mesh.cell_data, f"cell data {k!r} lost")
            equal(np.asarray(mesh.cell_data[k]), np.asarray(v)[ic], f"cell data {k!r}")
    # hidden cells
    g = np.asarray(mesh.cell_data["vtkGhostType"]) if "vtkGhostType" in mesh.cell_data else np.zeros(mesh.n_cells)
    own = np.zeros(mesh.n_cells, dtype=bool)
    if isinstance(line_a, pv.PolyData) and "vtkGhostType" in line_a.cell_data:
        cd = [max(1, d - 1) for d in dims]
        ic = np.indices(cd)[la].ravel(order="F")
        own = np.asarray(line_a.cell_data["vtkGhostType"])[ic] != 0
    if n > 1 and p > 1:
        T = exp.reshape(dims + [3], order="F")
        T = np.moveaxis(T, (la, pa), (0, 1)).reshape(n, p, 3)
        R = np.moveaxis(np.asarray(mesh.points).reshape(dims + [3], order="F"), (la, pa), (0, 1)).reshape(n, p, 3)
        collapsed = np.zeros((n - 1, p - 1), dtype=bool)
        sure = np.zeros((n - 1, p - 1), dtype=bool)
        for i in range(n - 1):
            for j in range(p - 1):
                c = np.array([T[i, j], T[i + 1, j], T[i + 1, j + 1], T[i, j + 1]])
                r = np.array([R[i, j], R[i + 1, j], R[i + 1, j + 1], R[i, j + 1]])
                exact = np.array_equal(r[0], r[3]) and np.array_equal(r[1], r[2]) or np.array_equal(r[0], r[1]) and np.array_equal(r[2], r[3])
                area = np.linalg.norm(np.cross(c[1] - c[0], c[2] - c[0])) + np.linalg.norm(np.cross(c[2] - c[0], c[3] - c[0]))
                collapsed[i, j] = exact
                sc = max(1.0, np.abs(c).max()) * max(np.ptp(c, axis=0).max(), 1e-300)
                sure[i, j] = exact or area > 1e-9 * sc
        cdm = [max(1, d - 1) for d in dims]
        ind = np.indices(cdm)
        a_, b_ = ind[la].ravel(order="F"), ind[pa].ravel(order="F")
        for c in range(mesh.n_cells):
            if not sure[a_[c], b_[c]]:
                continue
            want = collapsed[a_[c], b_[c]] or own[c]
            need((g[c] != 0) == want, f"cell {c} hidden={g[c]!r}, expected {'hidden' if want else 'visible'}")
            if collapsed[a_[c], b_[c]]:
                need(g[c] == 32, "collapsed cell flag")


def rand_two_lines(rng, polydata=None, collapse=True):
    shift = rand_shift(rng)
    polydata = rng.bool(0.7) if polydata is None else polydata
    a = line_poly(rng, axis=rng.int(0, 2), shift=shift, as_lines=True if rng.bool(0.8) else False)
    P = np.array(a.points, dtype=float)
    off = np.zeros(3)
    off[rng.int(0, 2)] = rng.choice([1.0, -2.0, 0.5])
    Q = P + off + 0.2 * rng.normal(*P.shape)
    if np.abs(shift).max() < 100.0:
        sc = rand_scale(rng)
        P, Q = P * sc, Q * sc
    if collapse and rng.bool(0.4):
        k = rng.g.random(len(P)) < 0.5
        Q[k] = P[k]
    if rng.bool(0.15):
        Q = P.copy()
    if not polydata:
        return (P, Q) if rng.bool() else (P.tolist(), Q.tolist())
    a.points = P
    b = a.copy()
    b.clear_data()
    b.points = Q
    if rng.bool(0.2):
        add_data(b, rng)
    return a, b if rng.bool(0.8) else Q


@case("C02", "planes", weight=2)
def c02(rng):
    a, b = rand_two_lines(rng)
    plane = rng.choice(list(PLANES))
    r, m = rand_resolution(rng)
    rng.note(plane=plane, resolution=r, method=m, a=a.points if isinstance(a, pv.PolyData) else a,
             b=b.points if isinstance(b, pv.PolyData) else b, polydata=isinstance(a, pv.PolyData))
    with Frame(line_a=a, line_b=b, resolution=r):
        s = pvg.StructuredSurface(a, b, plane, r, m)
    surface_contract(a, b, plane, r, m, s)


@case("C02", "default", n=6)
def c02_default(rng):
    plane = list(PLANES)[rng.index]
    s = pvg.StructuredSurface(plane=plane)
    surface_contract([(0.0, 0.0, 0.0), (1.0, 0.0, 0.0)], [(0.0, 1.0, 0.0), (1.0, 1.0, 0.0)], plane, None, None, s)


@case("C02", "polygon", weight=0.3)
def c02_polygon(rng):
    """A polygon given instead of a line is used as its closed outline."""
    n = rng.int(3, 6)
    th = np.sort(rng.uniform(0, 6.0, n))
    P = np.column_stack((np.cos(th), np.sin(th), np.zeros(n)))
    f = [n, *range(n)]
    a, b = pv.PolyData(P, faces=f), pv.PolyData(2.0 * P + np.array([0, 0, 1.0]), faces=f)
    r, m = rand_resolution(rng)
    rng.note(n=n, resolution=r, method=m)
    s = pvg.StructuredSurface(a, b, "xy", r, m)
    C = lambda q: np.vstack((q.points, q.points[:1]))
    surface_contract(C(a), C(b), "xy", r, m, s)


@case("C02", "errors", n=12)
def c02_errors(rng):
    rngs = [3, 4, 2]
    P = np.arange(9.0).reshape(3, 3)
    i = rng.index
    if i < 4:
        Q = [P[:2], np.vstack((P, P)), P[:, :2], P[:1]][i]
        raises(ValueError, lambda: pvg.StructuredSurface(P, Q), "lines of different shapes")
    elif i < 8:
        raises(ValueError, lambda: pvg.StructuredSurface(P, P + 1, ["xx", "", "yzx", "XY"][i - 4]), "unknown plane")
    else:
        a = pv.lines_from_points(P)
        b = pv.lines_from_points(np.vstack((P, P[-1:] + 1)))
        raises(ValueError, lambda: pvg.StructuredSurface(a, b, list(PLANES)[i - 8]), "lines of different shapes")


# ------------------------------------------------------------------ C03
def hex_collapsed(T):
    return None


def structured_volume_contract(a, b, resolution, method, mesh):
    dims = list(a.dimensions)
    axis = dims.index(1)
    t = spec_perc(resolution, method)
    out = list(dims)
    out[axis] = len(t)
    need(isinstance(mesh, pv.StructuredGrid), "not a structured grid")
    need(tuple(mesh.dimensions) == tuple(out), f"dimensions {mesh.dimensions}, expected {out}")
    A = np.asarray(a.points, dtype=float).reshape(dims + [3], order="F")
    Bp = np.asarray(b.points, dtype=float).reshape(dims + [3], order="F")
    sh = [1, 1, 1, 1]
    sh[axis] = len(t)
    tt = t.reshape(sh)
    exp = A + tt * (Bp - A)
    close(mesh.points, exp.reshape((-1, 3), order="F"), 1e-6, "points")
    base = np.arange(a.n_points).reshape(dims, order="F")
    pi = np.repeat(base, len(t), axis=axis).ravel(order="F")
    for k, v in a.point_data.items():
        need(k in mesh.point_data, f"point data {k!r} lost")
        equal(np.asarray(mesh.point_data[k]), np.asarray(v)[pi], f"point data {k!r}")
    cd = [max(1, d - 1) for d in dims]
    base = np.arange(a.n_cells).reshape(cd, order="F")
    ci = np.repeat(base, len(t) - 1, axis=axis).ravel(order="F")
    need(mesh.n_cells == len(ci), "number of cells")
    for k, v in a.cell_data.items():
        need(k in mesh.cell_data, f"cell data {k!r} lost")
        if k != "vtkGhostType":
            equal(np.asarray(mesh.cell_data[k]), np.asarray(v)[ci], f"cell data {k!r}")
    g = np.asarray(mesh.cell_data["vtkGhostType"])
    own = np.asarray(a.cell_data["vtkGhostType"])[ci] != 0 if "vtkGhostType" in a.cell_data else np.zeros(mesh.n_cells, bool)
    # collapsed: the two faces coincide; visible: clearly positive gap at all corners
    gap = np.linalg.norm(np.diff(exp, axis=axis), axis=-1)
    real = np.linalg.norm(np.diff(np.asarray(mesh.points).reshape((*out, 3), order="F"), axis=axis), axis=-1)
    scale = np.abs(exp).max()
    for c in range(mesh.n_cells):
        i = np.unravel_index(c, [max(1, d - 1) for d in out], order="F")
        sl = tuple(slice(i[k], i[k] + (1 if k == axis else 2)) for k in range(3))
        q = gap[sl]
        if (q == 0.0).all() and (real[sl] == 0.0).all():
            need(g[c] == 32, f"cell {c} is collapsed but not hidden")
        elif (q > 1e-6 * scale).all():
            # opposite or non-monotone gaps are excluded by the generators
            need((g[c] != 0) == own[c], f"cell {c} hidden={g[c]!r} but has a positive volume (own flag {own[c]})")


@case("C03", "structured", weight=2)
def c03(rng):
    axis = rng.int(0, 2)
    a = structured_surface(rng, axis, shift=rand_shift(rng))
    b = a.copy()
    b.clear_data()
    P = np.array(b.points)
    sc = rand_scale(rng) if np.abs(P).max() < 1000.0 else 1.0
    P[:, axis] += rng.choice([2.0, -2.0, 5.0])
    if rng.bool():
        P[:, axis] += 0.2 * rng.uniform(0, 1, len(P))
    if rng.bool(0.3):
        P[:, (axis + 1) % 3] += 0.5
    if rng.bool(0.35):
        k = rng.g.random(len(P)) < 0.6
        P[k] = np.asarray(a.points)[k]
    b.points = P * sc
    a.points = np.asarray(a.points) * sc
    r, m = rand_resolution(rng, hi=4)
    rng.note(axis=axis, dims=a.dimensions, resolution=r, method=m, cell_data=list(a.cell_data), points_b=P)
    with Frame(surface_a=a, surface_b=b, resolution=r):
        v = pvg.Volume(a, b, r, m)
    structured_volume_contract(a, b, r, m, v)


@case("C03", "uniform", weight=0.5)
def c03_uniform(rng):
    axis = rng.int(0, 2)
    d = [rng.int(2, 4), rng.int(2, 4)]
    d.insert(axis, 1)
    if rng.bool():
        a = pv.ImageData(dimensions=d, spacing=rng.uniform(0.5, 2, 3), origin=rng.normal(3))
        o = np.array(a.origin)
        o[axis] += 1.5
        b = pv.ImageData(dimensions=d, spacing=a.spacing, origin=o)
    else:
        xs = [np.cumsum(rng.uniform(0.3, 1, n)) for n in d]
        a = pv.RectilinearGrid(*xs)
        xs = list(xs)
        xs[axis] = xs[axis] + 1.5
        b = pv.RectilinearGrid(*xs)
    add_data(a, rng)
    r, m = rand_resolution(rng, hi=4)
    rng.note(axis=axis, dims=d, resolution=r, method=m, kind=type(a).__name__)
    with Frame(surface_a=a, surface_b=b):
        v = pvg.Volume(a, b, r, m)
    sa, sb = a.cast_to_structured_grid(), b.cast_to_structured_grid()
    structured_volume_contract(sa, sb, r, m, v)


@case("C03", "errors", n=10)
def c03_errors(rng):
    g = lambda *d: pv.ImageData(dimensions=d).cast_to_structured_grid()
    pairs = [
        (g(3, 4, 1), g(4, 3, 1)), (g(3, 4, 1), g(3, 5, 1)), (g(3, 1, 4), g(3, 4, 1)), (g(1, 3, 4), g(3, 1, 4)),
        (g(2, 2, 3), g(2, 2, 3)), (g(4, 1, 1), g(4, 1, 1)), (g(2, 2, 2), g(2, 2, 2)),
        (g(3, 4, 1), g(3, 4, 1).cast_to_unstructured_grid()), (g(3, 4, 1).cast_to_unstructured_grid(), g(3, 4, 1)),
        (g(2, 6, 1), g(3, 4, 1)),
    ]
    a, b = pairs[rng.index]
    rng.note(a=a.dimensions if hasattr(a, "dimensions") else "u", b=b.dimensions if hasattr(b, "dimensions") else "u")
    raises(ValueError, lambda: pvg.Volume(a, b, 2), "surfaces that do not match or are not 2D")


# ------------------------------------------------------------------ C04
def unstructured_volume_contract(a, b, resolution, method, mesh, invert=True, check_orientation=True):
    t = spec_perc(resolution, method)
    n = len(t) - 1
    A, Bp = np.asarray(a.points, dtype=float), np.asarray(b.points, dtype=float)
    N, C = len(A), a.n_cells
    need(isinstance(mesh, pv.UnstructuredGrid), "not an unstructured grid")
    need(mesh.n_points == N * len(t), f"{mesh.n_points} points, expected {N * len(t)}")
    need(mesh.n_cells == n * C, f"{mesh.n_cells} cells, expected {n * C}")
    exp = np.concatenate([A + s * (Bp - A) for s in t])
    close(mesh.points, exp, 1e-6, "points")
    cl = cell_lists(mesh)
    src = cell_lists(a)
    for l in range(n):
        for c in range(C):
            ty, ids = src[c]
            if ty == 8:
                ids = (ids[0], ids[1], ids[3], ids[2])
            want = {5: 13, 9: 12, 8: 12, 7: 42}[ty]
            got_t, got = cl[l * C + c]
            need(got_t == want, f"cell {l * C + c} has type {got_t}, expected {want}")
            lo = [i + l * N for i in ids]
            hi = [i + (l + 1) * N for i in ids]
            if want != 42:
                need(list(got) == lo + hi, f"cell {l * C + c} has points {got}, expected {lo + hi}")
            else:
                m = len(ids)
                faces = [frozenset(f) for f in got]
                expf = [frozenset(lo), frozenset(hi)] + [frozenset((lo[k], lo[(k + 1) % m], hi[(k + 1) % m], hi[k])) for k in range(m)]
                need(sorted(map(sorted, faces)) == sorted(map(sorted, expf)) and len(got) == m + 2, f"faces of polyhedron {l * C + c}: {got}")
                # cyclic order of every face
                adj = set()
                for k in range(m):
                    adj |= {frozenset((lo[k], lo[(k + 1) % m])), frozenset((hi[k], hi[(k + 1) % m])), frozenset((lo[k], hi[k]))}
                edges = []
                for f in got:
                    for k in range(len(f)):
                        e = (f[k], f[(k + 1) % len(f)])
                        need(frozenset(e) in adj, f"face {f} of polyhedron {l * C + c} is not in cyclic order")
                        edges.append(e)
                if invert:
                    need(len(set(edges)) == len(edges), f"faces of polyhedron {l * C + c} are not wound consistently")
                    need(all((y, x) in set(edges) for x, y in edges), f"polyhedron {l * C + c} is not closed")
                    if check_orientation:
                        need(poly_volume(exp, got) > 0.0, f"faces of polyhedron {l * C + c} do not point outwards")
    for k, v in a.point_data.items():
        need(k in mesh.point_data, f"point data {k!r} lost")
        v = np.asarray(v)
        equal(np.asarray(mesh.point_data[k]), np.concatenate([v] * len(t)), f"point data {k!r}")
    for k, v in a.cell_data.items():
        need(k in mesh.cell_data, f"cell data {k!r} lost")
        if k != "vtkGhostType":
            equal(np.asarray(mesh.cell_data[k]), np.concatenate([np.asarray(v)] * n), f"cell data {k!r}")
    g = np.asarray(mesh.cell_data["vtkGhostType"])
    own = np.concatenate([np.asarray(a.cell_data["vtkGhostType"])] * n) != 0 if "vtkGhostType" in a.cell_data else np.zeros(n * C, bool)
    first = np.abs(exp[N:2 * N] - exp[:N]).max(axis=1)
    for c in range(C):
        d = first[list(src[c][1])].max()
        if 0.9e-8 < d < 1.1e-8 or 0 < d < 1e-6 and np.abs(A).max() > 1e3:
            continue
        for l in range(n):
            want = d <= 1e-8 or own[l * C + c]
            need((g[l * C + c] != 0) == want, f"cell {l * C + c} hidden={g[l * C + c]}, expected {want} (gap {d})")


def rand_unstructured_pair(rng, kinds=None, axis=None):
    axis = rng.int(0, 2) if axis is None else axis
    kinds = kinds or rng.choice([("tri",), ("quad",), ("pixel",), ("poly",), ("tri", "quad", "pixel", "poly"), ("tri", "poly"), ("poly", "pixel")])
    flip = rng.choice([False, True, "mixed"])
    a = unstructured_surface(rng, axis, kinds, nmax=3, shift=rand_shift(rng), flip=flip, warp=rng.bool() and "poly" not in kinds)
    b = a.copy()
    b.clear_data()
    P = np.array(b.points)
    h = rng.choice([1.0, -1.0, 3.0, 0.25, 0.01])
    P[:, axis] += h
    if rng.bool(0.4):
        P[:, (axis + 1) % 3] += 0.3
    if rng.bool(0.3) and "poly" not in kinds:
        k = rng.g.random(len(P)) < 0.6
        P[k] = np.asarray(a.points)[k]
    elif rng.bool(0.12):
        P = np.array(a.points)
    b.points = P
    return a, b, axis, kinds


@case("C04", "unstructured", weight=3)
def c04(rng):
    a, b, axis, kinds = rand_unstructured_pair(rng)
    r, m = rand_resolution(rng, hi=3)
    if not isinstance(r, int) and r is not None and rng.bool():
        r = [0.0, 0.3, 1.0]
    rng.note(axis=axis, kinds=kinds, resolution=r, method=m, points_a=a.points, cells=a.cells, points_b=b.points)
    t = spec_perc(r, m)
    if np.diff(t).min() < 1e-3:
        raise Skip
    with Frame(surface_a=a, surface_b=b):
        v = pvg.Volume(a, b, r, m)
    collapsed = np.array_equal(a.points, b.points)
    unstructured_volume_contract(a, b, r, m, v, check_orientation=not collapsed)


@case("C04", "polydata", weight=0.5)
def c04_polydata(rng):
    a, b, axis, kinds = rand_unstructured_pair(rng, kinds=("tri", "quad", "poly"))
    a.cell_data.pop("vtkGhostType", None)
    sa = a.extract_surface(pass_pointid=False, pass_cellid=False) if False else None
    cells = [c for _, c in cell_lists(a)]
    pa = pv.PolyData(np.array(a.points), faces=np.concatenate([[len(c), *c] for c in cells]))
    pb = pv.PolyData(np.array(b.points), faces=np.concatenate([[len(c), *c] for c in cells]))
    add_data(pa, rng)
    r, m = rng.int(1, 3), rng.choice(METHODS)
    rng.note(axis=axis, resolution=r, method=m, points_a=a.points, cells=cells, points_b=b.points)
    with Frame(surface_a=pa, surface_b=pb):
        v = pvg.Volume(pa, pb, r, m)
    collapsed = np.array_equal(a.points, b.points)
    unstructured_volume_contract(pa.cast_to_unstructured_grid(), pb.cast_to_unstructured_grid(), r, m, v, check_orientation=not collapsed)


@case("C04", "errors", n=8)
def c04_errors(rng):
    def u(types, cells, n=6):
        P = np.random.default_rng(0).normal(size=(n, 3))
        return pv.UnstructuredGrid(np.concatenate([[len(c), *c] for c in cells]), types, P)

    tri, quad = pv.CellType.TRIANGLE, pv.CellType.QUAD
    a = u([tri, tri], [(0, 1, 2), (2, 3, 4)])
    pairs = [
        (a, u([tri, quad], [(0, 1, 2), (2, 3, 4, 5)])), (a, u([tri, tri], [(0, 1, 2), (2, 3, 4)], 7)),
        (u([pv.CellType.LINE], [(0, 1)]),) * 2, (u([pv.CellType.QUADRATIC_TRIANGLE], [(0, 1, 2, 3, 4, 5)]),) * 2,
        (u([tri, pv.CellType.TETRA], [(0, 1, 2), (0, 1, 2, 3)]),) * 2, (u([pv.CellType.VERTEX, tri], [(0,), (0, 1, 2)]),) * 2,
        (u([pv.CellType.TRIANGLE_STRIP], [(0, 1, 2, 3)]),) * 2, (u([quad], [(0, 1, 2, 3)]), u([pv.CellType.POLYGON], [(0, 1, 2, 3)])),
    ]
    x, y = pairs[rng.index]
    raises(ValueError, lambda: pvg.Volume(x, y, 2), f"surfaces that do not match or unsupported cells (pair {rng.index})")
