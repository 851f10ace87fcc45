"""Runtime contracts C20-C25, C27, C28, C31: primitives, fusing, Voronoi, intersection, boundary, repeatability."""
from __future__ import annotations

import numpy as np
import pyvista as pv
import pvgridder as pvg

from .core import case, need, close, equal, raises, Violation, Skip
from .gen import *
from .p_core import (rand_base_groups, base_names, spec_groups, rand_stack, rand_extrude, polyline, NAMES)
from .p_misc import cell_keys, star_polygon, volume_mesh, vtk_faces, cyc, mixed_mesh

T = pv.CellType


def rand_center(rng, dims=(2, 3)):
    k = rng.int(0, 3)
    if k == 0:
        return None, np.zeros(3)
    c = rng.normal(3) * rng.choice([1.0, 50.0])
    if 2 in dims and k == 1:
        return (c[:2] if rng.bool() else c[:2].tolist()), np.array([c[0], c[1], 0.0])
    return (c if rng.bool() else c.tolist()), c


def rr(rng):
    r, m = rand_resolution(rng, hi=5)
    if r is not None and not isinstance(r, int):
        n = len(r)
        if n < 2:
            r = [0.0, 1.0]
    return r, m


# ------------------------------------------------------------------ C20
@case("C20", "annular", weight=1.5)
def c20(rng):
    ri = rng.choice([0.0, 0.5, 1.0, 2.0])
    ro = ri + rng.uniform(0.2, 3.0)
    t0 = rng.choice([0.0, 0.0, -30.0, 45.0, 100.0])
    t1 = t0 + rng.choice([90.0, 180.0, 270.0, 37.0])
    r, rm = rr(rng)
    t, tm = rr(rng)
    z, zm = rr(rng)
    h = rng.uniform(0.5, 4.0)
    kind = rng.int(0, 3)
    c, C = rand_center(rng, (3,) if kind >= 2 else (2, 3))
    rng.note(kind=kind, ri=ri, ro=ro, t0=t0, t1=t1, r=(r, rm), t=(t, tm), z=(z, zm), h=h, c=c)
    with Frame(c=c, r=r, t=t, z=z):
        if kind == 0:
            m = pvg.AnnularSector(ri, ro, t0, t1, r, t, rm, tm, c)
        elif kind == 1:
            m = pvg.Annulus(ri, ro, r, t, rm, tm, c)
            t0, t1 = 0.0, 360.0
        elif kind == 2:
            m = pvg.CylindricalShellSector(ri, ro, t0, t1, h, r, t, z, rm, tm, zm, c)
        else:
            m = pvg.CylindricalShell(ri, ro, h, r, t, z, rm, tm, zm, c)
            t0, t1 = 0.0, 360.0
    R = ri + spec_perc(r, rm) * (ro - ri)
    A = np.deg2rad(t0 + spec_perc(t, tm) * (t1 - t0))
    Z = (spec_perc(z, zm) - 0.5) * h if kind >= 2 else np.zeros(1)
    need(isinstance(m, pv.StructuredGrid) and tuple(m.dimensions) == (len(A), len(R), len(Z)), f"dimensions {m.dimensions}, expected {(len(A), len(R), len(Z))}")
    a, q, zz = np.meshgrid(A, R, Z, indexing="ij")
    P = np.column_stack([(q * np.cos(a)).ravel(order="F"), (q * np.sin(a)).ravel(order="F"), zz.ravel(order="F")]) + C
    close(m.points, P, 2e-6, "points")


@case("C20", "sector", weight=1)
def c20_sector(rng):
    R = rng.uniform(0.3, 4.0)
    full = rng.bool(0.4)
    t0 = 0.0 if full else rng.choice([0.0, -30.0, 45.0])
    t1 = 360.0 if full else t0 + rng.choice([90.0, 180.0, 270.0, 37.0])
    t, tm = rr(rng)
    p = spec_perc(t, tm)
    if full:
        if isinstance(t, (list, np.ndarray)) or t is None or t < 3:
            t = rng.int(3, 8)
        p = spec_perc(t, tm)
    if len(np.unique(p)) != len(p):
        raise Skip
    c, C = rand_center(rng)
    rng.note(R=R, t0=t0, t1=t1, t=(t, tm), full=full, c=c)
    with Frame(c=c, t=t):
        m = pvg.Circle(R, t, tm, c) if full else pvg.Sector(R, t0, t1, t, tm, c)
    A = np.deg2rad(t0 + p * (t1 - t0))
    arc = np.column_stack((R * np.cos(A), R * np.sin(A), np.zeros(len(A)))) + C
    cl = cell_lists(m)
    P = np.asarray(m.points, dtype=float)
    need(len(cl) == len(A) - 1, f"{len(cl)} triangles, expected {len(A) - 1}")
    for i, (ty, ids) in enumerate(cl):
        need(ty == T.TRIANGLE, f"cell {i} is not a triangle")
        close(P[list(ids)], np.array([C, arc[i], arc[i + 1]]), 5e-6, f"triangle {i}")
    n = 1 + len(A)
    need(m.n_points == n or (full and m.n_points == n - 1), f"{m.n_points} points, expected {n}")


@case("C20", "errors", n=8)
def c20_errors(rng):
    i = rng.index
    bad = [lambda: pvg.AnnularSector(1.0, 0.5), lambda: pvg.AnnularSector(-1.0, 0.5), lambda: pvg.Annulus(1.0, 1.0), lambda: pvg.Sector(0.0),
           lambda: pvg.Sector(-1.0), lambda: pvg.Circle(0.0), lambda: pvg.CylindricalShell(1.0, 0.5), lambda: pvg.Sector(1.0, center=[1.0])]
    raises(ValueError, bad[i], f"invalid primitive {i}")


# ------------------------------------------------------------------ C21
@case("C21", "quad", weight=1)
def c21(rng):
    kind = rng.int(0, 3)
    x, xm = rr(rng)
    y, ym = rr(rng)
    c, C = rand_center(rng)
    dx, dy = rng.uniform(0.3, 5.0), rng.uniform(0.3, 5.0)
    if kind == 0:
        Q = np.array([[0, 0], [2, 0], [2, 2], [0, 2.0]]) + 0.3 * rng.normal(4, 2) + rng.normal(2) * 10
        arg = Q
        if rng.bool(0.3):
            arg = np.column_stack((Q, rng.normal(4)))
        corners = arg if arg.shape[1] == 3 else np.column_stack((arg, np.zeros(4)))
        f = lambda: pvg.Quadrilateral(arg if rng.bool() else arg.tolist(), x, y, xm, ym, c)
    elif kind == 1:
        corners = np.array([[0, 0, 0], [dx, 0, 0], [dx, dy, 0], [0, dy, 0.0]])
        f = lambda: pvg.Rectangle(dx, dy, x, y, xm, ym, c)
    elif kind == 2:
        corners = np.array([[0, 0, 0], [dx, 0, 0], [dx, dx, 0], [0, dx, 0.0]])
        y, ym = x, xm
        f = lambda: pvg.Square(dx, x, xm, c)
    else:
        corners = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0.0]])
        f = lambda: pvg.Quadrilateral(None, x, y, xm, ym, c)
    rng.note(kind=kind, corners=corners, x=(x, xm), y=(y, ym), c=c)
    with Frame(x=x, y=y, c=c):
        m = f()
    u, v = spec_perc(x, xm), spec_perc(y, ym)
    need(tuple(m.dimensions) == (len(u), len(v), 1), f"dimensions {m.dimensions}, expected {(len(u), len(v), 1)}")
    U, V = np.meshgrid(u, v, indexing="ij")
    U, V = U.ravel(order="F")[:, None], V.ravel(order="F")[:, None]
    lo = corners[0] + U * (corners[1] - corners[0])
    hi = corners[3] + U * (corners[2] - corners[3])
    close(m.points, lo + V * (hi - lo) + C, 2e-6, "points")


def spec_half(la, lb, p):
    """Points of a structured strip between two lines (line index fastest)."""
    return la[None] + p[:, None, None] * (lb - la)[None]


@case("C21", "hybrid", weight=1)
def c21_hybrid(rng):
    kind = rng.int(0, 3)
    x, xm = rng.int(1, 4), rng.choice(METHODS)
    y, ym = rng.int(1, 4), rng.choice(METHODS)
    r, rm = rng.int(1, 3), rng.choice(METHODS)
    c, C = rand_center(rng)
    dx, dy = rng.uniform(0.5, 2.0), rng.uniform(0.5, 2.0)
    deg = lambda p, a, b: np.deg2rad(a + p * (b - a))
    arc = lambda R, p, a, b: np.column_stack((R * np.cos(deg(p, a, b)), R * np.sin(deg(p, a, b)), np.zeros(len(p))))
    seg = lambda p, a, b: np.array(a) + p[:, None] * (np.array(b) - np.array(a))
    if kind in (0, 1):
        if kind == 1:
            dy, y, ym = dx, x, xm
        R = float(np.hypot(dx, dy)) * rng.uniform(1.05, 2.0)
        m = pvg.RectangleSector(dx, dy, R, x, y, r, xm, ym, rm, c) if kind == 0 else pvg.SquareSector(dx, R, x, r, xm, rm, c)
        px, py = spec_perc(x, xm), spec_perc(y, ym)
        strips = [(seg(py, [dx, dy, 0.0], [dx, 0.0, 0.0]), arc(R, py, 45.0, 0.0)), (seg(px, [dx, dy, 0.0], [0.0, dy, 0.0]), arc(R, px, 45.0, 90.0))]
    else:
        if kind == 3:
            dy = dx
        R = min(dx, dy) * rng.uniform(0.2, 0.9)
        m = pvg.SectorRectangle(R, dx, dy, r, x, rm, xm, c) if kind == 2 else pvg.SectorSquare(R, dx, r, x, rm, xm, c)
        px = spec_perc(x, xm)
        strips = [(arc(R, px, 45.0, 0.0), seg(px, [dx, dy, 0.0], [dx, 0.0, 0.0])), (arc(R, px, 45.0, 90.0), seg(px, [dx, dy, 0.0], [0.0, dy, 0.0]))]
    rng.note(kind=kind, dx=dx, dy=dy, R=R, x=(x, xm), y=(y, ym), r=(r, rm), c=c)
    pr = spec_perc(r, rm)
    want = []
    for la, lb in strips:
        G = spec_half(la, lb, pr) + C
        for j in range(len(pr) - 1):
            for i in range(len(la) - 1):
                want.append(np.array([G[j, i], G[j, i + 1], G[j + 1, i + 1], G[j + 1, i]]))
    cl = cell_lists(m)
    P = np.asarray(m.points, dtype=float)
    need(len(cl) == len(want), f"{len(cl)} cells, expected {len(want)}")
    W = np.array([w.mean(axis=0) for w in want])
    used = set()
    for i, (t, ids) in enumerate(cl):
        q = P[list(ids)]
        j = int(np.linalg.norm(W - q.mean(axis=0), axis=1).argmin())
        need(j not in used, f"cell {i} appears twice")
        used.add(j)
        d = np.abs(q[:, None] - want[j][None]).max(axis=2)
        need(len(q) == 4 and d.min(axis=0).max() < 1e-5 * max(1, np.abs(C).max()), f"cell {i}: corners {q.tolist()}, expected {want[j].tolist()}")
    n = len({tuple(np.round(x - C, 4).tolist()) for w in want for x in w})
    need(m.n_points == n, f"{m.n_points} points, expected {n} (diagonal shared)")


@case("C21", "errors", n=6)
def c21_errors(rng):
    i = rng.index
    bad = [lambda: pvg.RectangleSector(1.0, 1.0, 1.0), lambda: pvg.SquareSector(1.0, 0.5), lambda: pvg.SectorRectangle(1.0, 1.0, 2.0),
           lambda: pvg.SectorRectangle(-0.5, 1.0, 2.0), lambda: pvg.SectorSquare(2.0, 1.0), lambda: pvg.Square(1.0, center=[1.0, 2.0, 3.0, 4.0])]
    raises(ValueError, bad[i], f"invalid primitive {i}")


# ------------------------------------------------------------------ C22
@case("C22", "regular", weight=1)
def c22(rng):
    n = rng.int(2, 7)
    P = np.cumsum(rng.normal(n, 3), axis=0)
    res = rng.choice([None, 1, 2, 5, 11])
    arg = P if rng.bool() else P.tolist()
    rng.note(points=P, res=res)
    with Frame(points=arg):
        m = pvg.RegularLine(arg, res)
    k = res if res else n
    s = np.concatenate([[0.0], np.cumsum(np.linalg.norm(np.diff(P, axis=0), axis=1))])
    t = np.arange(k + 1) / k * s[-1]
    exp = np.column_stack([np.interp(t, s, P[:, i]) for i in range(3)])
    close(m.points, exp, 2e-6, "points of a regular line")
    need([c for _, c in cell_lists(m)] == [tuple(range(k + 1))] or sum(len(c) - 1 for _, c in cell_lists(m)) == k, "cells of a regular line")


@case("C22", "curved", weight=1)
def c22_curved(rng):
    o = rng.normal(3) * 3
    a = rng.normal(3) * rng.choice([1.0, 7.0])
    straight = rng.bool(0.25)
    b = None if straight else rng.normal(3) * 2
    if not straight and rng.bool(0.3):
        b = 2.0 * a + rng.choice([0.005, 0.05, 0.3]) * rng.normal(3)
    L = rng.uniform(0.5, 20.0)
    n = rng.int(1, 12)
    ua = a / np.linalg.norm(a)
    ub = ua if straight else b / np.linalg.norm(b)
    cs = float(np.clip(ua @ ub, -1, 1))
    if cs < -0.98 or (not straight and cs > 1.0 - 1e-7):
        raise Skip
    args = [o if rng.bool() else o.tolist(), a if rng.bool() else a.tolist()]
    rng.note(o=o, a=a, b=b, L=L, n=n)
    with Frame(o=args[0], a=args[1], b=b):
        m = pvg.CurvedLine(args[0], L, args[1], b, n)
    P = np.asarray(m.points, dtype=float)
    need(len(P) == n + 1, f"{len(P)} points, expected {n + 1}")
    close(P[0], o, 2e-6, "origin")
    st = np.diff(P, axis=0)
    ln = np.linalg.norm(st, axis=1)
    close(ln, np.full(n, L / n), 2e-5, "length of the steps")
    d = st / ln[:, None]
    th = np.arccos(cs)
    # direction of step i: rotated by (i + 1/2) / n of the angle within the plane
    if straight:
        exp = np.tile(ua, (n, 1))
    else:
        w = ub - cs * ua
        w /= np.linalg.norm(w)
        ang = (np.arange(n) + 0.5) / n * th
        exp = np.cos(ang)[:, None] * ua + np.sin(ang)[:, None] * w
    close(d, exp, 2e-4, "direction of the steps")


# ------------------------------------------------------------------ C23
def outline(cells, mesh):
    """Edges used once by the selection."""
    cnt = {}
    for i in cells:
        for e in vtk_faces(mesh, i, 2):
            k = frozenset(e)
            cnt[k] = cnt.get(k, 0) + 1
    return {k for k, v in cnt.items() if v == 1}


@case("C23", "fuse", weight=1)
def c23(rng):
    if rng.bool(0.4):
        m = pv.ImageData(dimensions=(rng.int(3, 6), rng.int(3, 6), 1))
        m = m if rng.bool() else m.cast_to_structured_grid()
        u0 = m.cast_to_unstructured_grid()
    else:
        m = unstructured_surface(rng, 2, kinds=rng.choice([("tri", "quad"), ("quad",), ("tri", "quad", "poly")]), nmax=4, data=False, warp=False, flip=False)
        m.points = np.round(np.asarray(m.points, dtype=float), 3)
        u0 = m
    add_data(m, rng, ghost=False)
    if rng.bool(0.3):
        rand_base_groups(m, rng, 1.0)
    n = m.n_cells
    edges = {}
    for i in range(n):
        for e in vtk_faces(u0, i, 2):
            edges.setdefault(frozenset(e), []).append(i)
    adj = {i: set() for i in range(n)}
    for v in edges.values():
        for a in v:
            for b in v:
                if a != b:
                    adj[a].add(b)
    free = set(range(n))
    sels = []
    for _ in range(rng.int(1, 2)):
        cand = sorted(free)
        if len(cand) < 2:
            break
        s = [rng.choice(cand)]
        for _ in range(rng.int(1, 4)):
            nb = sorted({y for x in s for y in adj[x] if y in free} - set(s))
            if not nb:
                break
            s.append(rng.choice(nb))
        if len(s) < 2:
            break
        # outline must be a single simple loop
        out = outline(s, u0)
        deg = {}
        for e in out:
            for p in e:
                deg[p] = deg.get(p, 0) + 1
        if any(v != 2 for v in deg.values()):
            break
        loop_edges = [tuple(e) for e in out]
        start = loop_edges[0][0]
        cur, seen = start, set()
        while True:
            nx = [e for e in loop_edges if cur in e and e not in seen]
            if not nx:
                break
            seen.add(nx[0])
            cur = nx[0][0] if nx[0][1] == cur else nx[0][1]
        if len(seen) != len(loop_edges):
            break
        sels.append(s)
        free -= set(s)
    if not sels:
        raise Skip
    form = rng.int(0, 2)
    if form == 2:
        args = []
        for s in sels:
            mk = np.zeros(n, dtype=bool)
            mk[s] = True
            args.append(mk)
        sels = [sorted(s) for s in sels]
    else:
        args = [np.array(s) if form else list(s) for s in sels]
    arg = args[0] if len(args) == 1 and rng.bool() and form < 2 else args
    rng.note(sels=sels, form=form, cells=cell_lists(u0), points=u0.points)
    with Frame(mesh=m, ind=arg):
        r = pvg.fuse_cells(m, arg)
    gone = {c for s in sels for c in s[1:]}
    kept = [i for i in range(n) if i not in gone]
    need(r.n_cells == len(kept), f"{r.n_cells} cells, expected {len(kept)}")
    P0, P1 = np.asarray(u0.points, dtype=float), np.asarray(r.points, dtype=float)
    a, b = cell_keys(u0, nd=5), cell_keys(r, nd=5)
    first = {s[0]: s for s in sels}
    for j, i in enumerate(kept):
        if i in first:
            need(b[j][0] == T.POLYGON, f"fused cell {j} is not a polygon")
            ids = cell_lists(r)[j][1]
            K = lambda x: tuple((np.round(np.asarray(x, dtype=float), 5) + 0.0).tolist())
            got = {frozenset((K(P1[ids[k]]), K(P1[ids[(k + 1) % len(ids)]]))) for k in range(len(ids))}
            exp = {frozenset(K(P0[p]) for p in e) for e in outline(first[i], u0)}
            need(got == exp and len(ids) == len(exp), f"outline of fused cell {j} (cells {first[i]}): {sorted(map(sorted, got))[:6]}, expected {sorted(map(sorted, exp))[:6]}")
        else:
            need(b[j][:2] == a[i][:2], f"cell {i} changed")
    for k, v in m.cell_data.items():
        equal(np.asarray(r.cell_data[k]), np.asarray(v)[kept], f"cell data {k!r}")
    if "_PYVISTA_USER_DICT" in m.field_data:
        need(dict(r.user_dict.get("CellGroup", {})) == dict(m.user_dict.get("CellGroup", {})), "name table lost")


@case("C23", "errors", weight=0.3)
def c23_errors(rng):
    nx, ny = rng.int(4, 6), rng.int(4, 6)
    m = pv.ImageData(dimensions=(nx, ny, 1))
    c = lambda i, j: j * (nx - 1) + i
    k = rng.int(0, 2)
    rng.note(k=k, nx=nx, ny=ny)
    if k == 0:
        raises(ValueError, lambda: pvg.fuse_cells(m, [c(0, 0), c(2, 2)]), "not connected")
    elif k == 1:
        ring = [c(i, j) for i in range(3) for j in range(3) if (i, j) != (1, 1)]
        raises(ValueError, lambda: pvg.fuse_cells(m, ring), "selection with a hole")
    else:
        raises(NotImplementedError, lambda: pvg.fuse_cells(pv.ImageData(dimensions=(nx, ny, 3)), [0, 1]), "3D mesh")


# ------------------------------------------------------------------ C24
def voronoi_axes(axis):
    return [k for k in range(3) if k != axis]


@case("C24", "voronoi", weight=1)
def c24(rng):
    import shapely

    axis = rng.choice([2, 2, 0, 1])
    o = voronoi_axes(axis)
    nx, ny = rng.int(3, 6), rng.int(3, 6)
    dims = [nx, ny]
    dims.insert(axis, 1)
    u = np.cumsum(np.concatenate([[0.0], rng.uniform(0.7, 1.4, nx - 1)]))
    v = np.cumsum(np.concatenate([[0.0], rng.uniform(0.7, 1.4, ny - 1)]))
    if rng.bool(0.3):
        # cells of very different sizes
        u = np.cumsum(np.concatenate([[0.0], rng.g.choice([0.5, 1.0, 4.0], nx - 1)]))
        v = np.cumsum(np.concatenate([[0.0], rng.g.choice([0.5, 1.0, 4.0], ny - 1)]))
    g = [u, v]
    g.insert(axis, np.zeros(1))
    X = np.meshgrid(*g, indexing="ij")
    base = pv.StructuredGrid(*X)
    P = np.array(base.points)
    # break the symmetry of the seeds
    inner = np.ones(len(P), dtype=bool)
    for k, w in zip(o, (u, v)):
        inner &= (P[:, k] > w[0]) & (P[:, k] < w[-1])
    P[np.ix_(inner, o)] += 0.15 * min(1.0, np.diff(u).min(), np.diff(v).min()) * rng.normal(int(inner.sum()), 2)
    k = rng.int(0, 3)
    P[:, axis] = 0.0 if k < 2 else rng.uniform(-3, 3) if k == 2 else rng.uniform(-1, 1, len(P))
    base.points = P
    pref = rng.choice(["cell", "cell", "point"])
    if rng.bool(0.4):
        base = base.cast_to_unstructured_grid()
    if pref == "point":
        # seeds on the boundary of the domain are fine
        pass
    rand_base_groups(base, rng, 0.5 if pref == "cell" else 0.0)
    default = rng.choice([None, "dflt"])
    with Frame(base=base):
        vm = pvg.VoronoiMesh2D(base, axis, pref, default)
    dom = [u[0], v[0], u[-1], v[-1]]
    seeds = pvg.get_cell_centers(base) if pref == "cell" else np.array(base.points)
    names = spec_groups(base, None, default or "default", []) if pref == "cell" else [default or "default"] * base.n_points
    seeds = [np.array(s, dtype=float) for s in seeds]
    prio = [-np.inf] * len(seeds)
    active = [True] * len(seeds)
    items = []
    last = None
    for _ in range(rng.int(0, 2) if rng.bool(0.7) else 3):
        k = rng.int(0, 2)
        pr = rng.choice([0, 0, 1, 2, -1])
        grp = rng.choice([None, "A", "item"])
        if k == 0:
            n = rng.int(1, 4)
            Q = np.zeros((n, 3))
            Q[:, o] = np.column_stack((rng.uniform(-0.5, u[-1] + 0.5, n), rng.uniform(-0.5, v[-1] + 0.5, n)))
            form = rng.int(0, 4)
            if form in (1, 2):
                Q[:, axis] = rng.uniform(-2, 2)
            arg = Q if form < 2 else pv.PolyData(Q) if form == 2 else Q[:, o] if form == 3 else Q[0] if rng.bool() else list(Q[0, o])
        else:
            w = rng.uniform(0.4, 1.5)
            x0, y0 = rng.uniform(-0.3, u[-1] - 0.3), rng.uniform(-0.3, v[-1] - 0.3)
            if last is not None and rng.bool(0.6):
                # over the item before, of the same priority
                x0, y0, pr = last[0] + rng.uniform(-0.3, 0.3), last[1] + rng.uniform(-0.3, 0.3), last[2]
            last = (x0, y0, pr)
            d = [rng.int(2, 4), rng.int(2, 4)]
            d.insert(axis, 1)
            org = [x0, y0]
            org.insert(axis, rng.choice([0.0, 1.5]))
            sp = [w / 3 * rng.uniform(0.9, 1.1), w / 3]
            sp.insert(axis, 1.0)
            arg = pv.ImageData(dimensions=d, origin=org, spacing=sp).cast_to_structured_grid()
            if rng.bool():
                arg = arg.cast_to_unstructured_grid()
        with Frame(arg=np.asarray(arg) if isinstance(arg, list) else arg):
            vm.add(arg, pr, grp)
        if k == 0:
            arg = Q if form < 4 else Q[:1]
        items.append((arg, pr, grp))
    rng.note(axis=axis, pref=pref, dims=dims, items=[(type(a).__name__, p, g_) for a, p, g_ in items], base=P)
    for arg, pr, grp in sorted(items, key=lambda z: abs(z[1])):
        mm = pv.PolyData(arg) if isinstance(arg, np.ndarray) else arg
        ctr = np.array(pvg.get_cell_centers(mm), dtype=float)
        ins = ((ctr[:, o] > [dom[0], dom[1]]) & (ctr[:, o] < [dom[2], dom[3]])).all(axis=1)
        if np.abs(ctr[:, o[0]][:, None] - [dom[0], dom[2]]).min() < 1e-3 or np.abs(ctr[:, o[1]][:, None] - [dom[1], dom[3]]).min() < 1e-3:
            raise Skip
        if not ins.any():
            continue
        if not isinstance(mm, pv.PolyData):
            lst = cell_lists(mm.cast_to_unstructured_grid())
            QP = np.asarray(mm.points)
            sub = [QP[list(lst[i][1])][:, o] for i in np.flatnonzero(ins)]
            boxes = [(q.min(axis=0), q.max(axis=0)) for q in sub]
            for s in range(len(seeds)):
                x = seeds[s][o]
                if any(np.abs(x - b).min() < 1e-6 for box in boxes for b in box):
                    raise Skip
                hit = any((x >= b[0]).all() and (x <= b[1]).all() for b in boxes)
                if hit and (prio[s] <= abs(pr) if pr >= 0 else prio[s] < abs(pr)):
                    active[s] = False
        for c in ctr[ins]:
            seeds.append(c)
            prio.append(abs(pr))
            active.append(True)
            names.append(grp or default or "default")
    S = np.array([s for s, a in zip(seeds, active) if a])[:, o]
    N = [n for n, a in zip(names, active) if a]
    if len(S) < 4:
        raise Skip
    dd = np.linalg.norm(S[:, None] - S[None], axis=2) + 10 * np.eye(len(S))
    if dd.min() < 0.05:
        raise Skip
    orient = rng.choice(["CCW", "CW", None])
    kw = dict(orientation=orient) if orient else {}
    orient = orient or "CCW"
    if rng.bool(0.2):
        kw["infinity"] = rng.choice([1e4, 1e6])
    with Frame(base=base):
        m = vm.generate_mesh(**kw)
    need(isinstance(m, pv.UnstructuredGrid), "type of the mesh")
    B = shapely.box(*dom)
    if m.n_cells != len(S):
        # a cell smaller than the minimum edge length may vanish: not specified here
        small = True
        raise Violation(f"{m.n_cells} cells, expected one per seed ({len(S)})")
    MP = np.asarray(m.points, dtype=float)
    close(MP[:, axis], np.zeros(len(MP)), 1e-9, "plane of the mesh")
    rec = np.column_stack((m.cell_data["X"], m.cell_data["Y"], m.cell_data["Z"]))
    close(rec[:, o], S, 1e-6, "recorded seeds")
    tot = 0.0
    diam = max(u[-1], v[-1])
    # exact cells: clip the box by bisectors
    for i, (_, c) in enumerate(cell_lists(m)):
        Q = MP[list(c)][:, o]
        x, y = (Q - Q[0]).T
        sa = 0.5 * np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y)
        need(sa > 0 if orient == "CCW" else sa < 0, f"cell {i} is not oriented {orient}")
        tot += abs(sa)
        pg = shapely.Polygon(Q)
        ex = clip_cell(B, S, i)
        e = 1e-6 * diam
        diff = pg.difference(ex.buffer(e)).area + ex.difference(pg.buffer(e)).area
        need(diff < 2e-3 * diam, f"cell {i}: area {pg.area}, its Voronoi cell has {ex.area}, difference {diff}")
    close(tot, B.area, 1e-3, "total area")
    got = list(map(str, pvg.get_cell_group(m)))
    need(got == N, f"groups {got}, expected {N}")


def clip_cell(B, S, i):
    import shapely
    from shapely.geometry import Polygon

    poly = list(B.exterior.coords)[:-1]
    for j in range(len(S)):
        if j == i or not poly:
            continue
        n = S[j] - S[i]
        c = 0.5 * (S[j] + S[i]) @ n
        out = []
        for a, b in zip(poly, poly[1:] + poly[:1]):
            da, db = np.dot(a, n) - c, np.dot(b, n) - c
            if da <= 0:
                out.append(a)
            if (da < 0 < db) or (db < 0 < da):
                t = da / (da - db)
                out.append((a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])))
        poly = out
    return Polygon(poly)


# ------------------------------------------------------------------ C25
@case("C25", "intersect", weight=1)
def c25(rng):
    dim = rng.choice([2, 2, 3])
    n = [rng.int(2, 5), rng.int(2, 5), rng.int(2, 4) if dim == 3 else 1]
    shift = rng.choice([np.zeros(3), np.array([100.0, -40.0, 7.0])])
    m = pv.ImageData(dimensions=n, origin=shift)
    kind = rng.int(0, 2)
    m = m if kind == 0 else m.cast_to_structured_grid() if kind == 1 else m.cast_to_unstructured_grid()
    hi = np.array([k - 1 for k in n], dtype=float)
    # straight line from outside or inside, to a point inside or outside
    face = rng.int(0, dim - 1)
    side = rng.bool()
    A, B = np.zeros(3), np.zeros(3)
    for d in range(dim):
        A[d] = rng.uniform(-0.5, hi[d] + 0.5)
        B[d] = rng.uniform(0.05, hi[d] - 0.05)
    A[face] = -rng.uniform(0.1, 1.5) if side else hi[face] + rng.uniform(0.1, 1.5)
    if rng.bool(0.3):
        A = np.array([rng.uniform(0.05, hi[d] - 0.05) if d < dim else 0.0 for d in range(3)])
    starts = any(A[d] < 0 or A[d] > hi[d] for d in range(dim))
    ends = rng.choice(["in", "out"])
    if ends == "out":
        t = max(hi) * 2.5 + 3.0
        B = A + (B - A) / np.linalg.norm(B - A) * t
    k = rng.int(2, 6)
    T = np.sort(np.concatenate(([0.0, 1.0], rng.uniform(0.02, 0.98, k - 2))))
    Q = A + T[:, None] * (B - A)
    L = np.linalg.norm(B - A)
    ts = set()
    for d in range(dim):
        for w in range(n[d]):
            t = (w - A[d]) / (B[d] - A[d]) if B[d] != A[d] else -1.0
            X = A + t * (B - A)
            if 0 < t < 1 and all(-1e-9 <= X[e] <= hi[e] + 1e-9 for e in range(dim)):
                ts.add(t)
    ts = sorted(ts)
    # general position: no crossing close to an edge or vertex, to another crossing, or to a point of the line
    g = [0.0, *ts, 1.0]
    if min(y - x for x, y in zip(g[:-1], g[1:])) * L < 2e-2:
        raise Skip
    for t in ts:
        X = (A + t * (B - A))[:dim]
        if np.sort(np.abs(X - np.round(X)))[1] < 2e-2:
            raise Skip
        if np.abs(T - t).min() * L < 2e-2:
            raise Skip
    if np.diff(T).min() * L < 2e-2 or (starts and not ts):
        raise Skip
    line = pv.PolyData(Q + shift, lines=[k, *range(k)]) if rng.bool() else pv.lines_from_points(Q + shift)
    if rng.bool() and line.n_cells == k - 1:
        line.cell_data["tag"] = np.arange(k - 1) * 10
        if rng.bool(0.3):
            line.cell_data["vtkOriginalCellIds"] = np.arange(k - 1) + 7
            line.cell_data["IntersectedCellIds"] = np.arange(k - 1) + 7
    rng.note(n=n, line=Q, kind=kind, shift=shift, tag="tag" in line.cell_data)
    opts = {}
    if rng.bool(0.3):
        opts = rng.choice([{"ignore_points_before_entry": True}, {"ignore_points_after_exit": True}, {"ignore_points_before_entry": True, "ignore_points_after_exit": True}])
    rng.note(opts=opts)
    with Frame(mesh=m, line=line):
        r = pvg.intersect_polyline(m, line, **opts)
    cd = [max(1, x - 1) for x in n]

    def cell_at(t):
        X = A + t * (B - A)
        if any(X[d] < 0 or X[d] > hi[d] for d in range(dim)):
            return -1
        ijk = [min(int(np.floor(X[d])), cd[d] - 1) if hi[d] > 0 else 0 for d in range(3)]
        return ijk[0] + cd[0] * (ijk[1] + cd[1] * ijk[2])

    R = np.asarray(r.points, dtype=float) - shift
    lo_t = ts[0] if opts.get("ignore_points_before_entry") and starts else 0.0
    hi_t = ts[-1] if opts.get("ignore_points_after_exit") and ends == "out" else 1.0
    got_c = [int(z) for z in r.cell_data["IntersectedCellIds"]]
    got_l = [int(z) for z in r.cell_data["vtkOriginalCellIds"]]
    need(len(R) == len(got_c) + 1 == len(got_l) + 1, "one cell and one line per segment")
    tr = (R - A) @ (B - A) / L**2
    close(A + tr[:, None] * (B - A), R, 1e-4, "points on the line")
    close(tr[0] * L, lo_t * L, 1e-4, "first point")
    close(tr[-1] * L, hi_t * L, 1e-4, "last point")
    need((np.diff(tr) > 0).all(), "points ordered along the line")
    for x in ts:
        need(np.abs(tr - x).min() * L < 1e-3, f"crossing at {(A + x * (B - A)).tolist()} missing")
    for x, y, c, l in zip(tr[:-1], tr[1:], got_c, got_l):
        need(c == cell_at(0.5 * (x + y)), f"segment {x:.4f}-{y:.4f}: cell {c}, expected {cell_at(0.5 * (x + y))}")
        need(T[l] - 1e-4 / L <= y <= T[l + 1] + 1e-4 / L, f"segment ending at {y:.4f}: line {l}")
    inside = [c for c in got_c if c >= 0]
    need(len(inside) == len(set(inside)), "cell crossed more than once")
    if "tag" in line.cell_data:
        equal(np.asarray(r.cell_data["tag"]), np.array(got_l) * 10, "data of the line")


@case("C25", "ray", weight=1)
def c25_ray(rng):
    dim = rng.choice([2, 3])
    if dim == 3:
        n = [rng.choice([2, 3, 3, 20]), rng.int(2, 3), rng.int(2, 3)]
        m = pv.ImageData(dimensions=n)
        m = m if rng.bool() else m.cast_to_unstructured_grid()
        a = np.array([-0.5, rng.uniform(0.1, n[1] - 1.1), rng.uniform(0.1, n[2] - 1.1)])
        b = np.array([n[0] - 0.5, rng.uniform(0.1, n[1] - 1.1), rng.uniform(0.1, n[2] - 1.1)])
    else:
        n = [rng.int(2, 4), rng.int(2, 4), 1]
        m = pv.ImageData(dimensions=n)
        m = m if rng.bool() else m.cast_to_structured_grid()
        a = np.array([-0.5, rng.uniform(0.1, n[1] - 1.1), 0.0])
        b = np.array([n[0] - 0.5, rng.uniform(0.1, n[1] - 1.1), 0.0])
    rng.note(n=n, a=a, b=b)
    ts, ok = {}, True
    for d in range(dim):
        if abs(b[d] - a[d]) < 1e-3:
            continue
        for w in range(n[d]):
            t = (w - a[d]) / (b[d] - a[d])
            if not 0 <= t <= 1:
                continue
            p = a + t * (b - a)
            oth = [z for z in range(dim) if z != d]
            if any(p[z] < -1e-2 or p[z] > n[z] - 1 + 1e-2 for z in oth):
                continue
            if any(abs(p[z] - round(p[z])) < 2e-2 for z in oth):
                raise Skip
            if all(0 < p[z] < n[z] - 1 for z in oth):
                ts[(d, w)] = p
    with Frame(mesh=m, a=a, b=b):
        r = pvg.ray_cast(m, a if rng.bool() else a.tolist(), b)
    if not ts:
        need(r is None, "ray crossing nothing")
        return
    need(r is not None, "no crossing found")
    X = np.asarray(r.cell_data["IntersectionPoints"], dtype=float)
    W = np.array(list(ts.values()))
    need(len(X) == len(W), f"{len(X)} crossings, expected {len(W)}")
    d = np.linalg.norm(X[:, None] - W[None], axis=2)
    need(d.min(axis=0).max() < 1e-4 and d.min(axis=1).max() < 1e-4, f"crossing points {X.tolist()}, expected {W.tolist()}")
    # every crossing lies on its face, between the right cells
    ids = np.asarray(r.cell_data["vtkOriginalCellIds"])
    P = np.asarray(r.points, dtype=float)
    u = m.cast_to_unstructured_grid()
    for (t, c), x, row in zip(cell_lists(r), X, ids):
        q = P[list(c)]
        need((x >= q.min(axis=0) - 1e-4).all() and (x <= q.max(axis=0) + 1e-4).all(), f"crossing {x.tolist()} is not on its face {q.tolist()}")
        for cid in row:
            if cid != -1:
                bx = np.asarray(u.points)[list(cell_lists(u)[cid][1])]
                need((x >= bx.min(axis=0) - 1e-4).all() and (x <= bx.max(axis=0) + 1e-4).all(), f"crossing {x.tolist()} is not on cell {cid}")


# ------------------------------------------------------------------ C28
@case("C28", "boundary", weight=1)
def c28(rng):
    kind = rng.int(0, 4)
    if kind == 0:
        m = unstructured_surface(rng, 2, kinds=rng.choice([("tri", "quad"), ("quad",), ("tri",)]), nmax=4, data=rng.bool(), warp=False)
        m.points = np.round(np.asarray(m.points, dtype=float), 3)
        m.cell_data.pop("vtkGhostType", None)
        u = m
    else:
        nx, ny = rng.int(4, 7), rng.int(4, 7)
        g = pv.ImageData(dimensions=(nx, ny, 1))
        keep = np.ones((nx - 1, ny - 1), dtype=bool)
        if kind == 4:
            # nested squares, opened or not, with separate parts inside of their bounding box
            nx = ny = rng.choice([8, 10, 12])
            g = pv.ImageData(dimensions=(nx, ny, 1))
            x, y = np.meshgrid(np.arange(nx - 1), np.arange(ny - 1), indexing="ij")
            ring = np.minimum(np.minimum(x, nx - 2 - x), np.minimum(y, ny - 2 - y))
            on = [rng.bool(0.7) for _ in range(ring.max() + 1)]
            on[0] = True
            keep = np.array(on)[ring]
            if rng.bool():
                w = rng.int(0, nx - 4)
                keep[w : w + rng.int(1, 4), : rng.int(1, ny // 2)] = False
        elif kind >= 2:
            # one hole or two separate parts
            if rng.bool():
                i, j = rng.int(1, nx - 3), rng.int(1, ny - 3)
                keep[i, j] = False
            else:
                keep[rng.int(1, nx - 3), :] = False
        mask = keep.ravel(order="F")
        m = g if kind == 1 else g.extract_cells(np.flatnonzero(mask))
        for k_ in ("vtkOriginalPointIds",):
            m.point_data.pop(k_, None)
        u = m.cast_to_unstructured_grid()
    axis = rng.choice([2, 2, 0, 1])
    if axis != 2 or (kind and rng.bool(0.4)):
        # another coordinate plane, another order of points and cells
        Q = np.asarray(u.points, dtype=float)
        p = rng.perm(len(Q))
        inv = np.argsort(p)
        lst = cell_lists(u)
        lst = [lst[i] for i in rng.perm(len(lst))]
        if any(t == 8 for t, _ in lst):
            lst = [(9, [c[0], c[1], c[3], c[2]]) if t == 8 else (t, c) for t, c in lst]
        Q = Q[p]
        m = u = pv.UnstructuredGrid(np.concatenate([[len(c), *(inv[list(c)])] for _, c in lst]), [t for t, _ in lst], np.roll(Q, axis + 1, axis=1))
    plane = voronoi_axes(axis)
    P = np.asarray(u.points, dtype=float)
    K = lambda x: tuple((np.round(np.asarray(x, dtype=float), 5) + 0.0).tolist())
    want = {frozenset(K(P[p]) for p in e) for e in outline(range(u.n_cells), u)}
    rng.note(kind=kind, cells=cell_lists(u)[:30], points=P)
    deg = {}
    for e in want:
        for p in e:
            deg[p] = deg.get(p, 0) + 1
    if any(d != 2 for d in deg.values()):
        raise Skip  # outlines touching at a point
    with Frame(mesh=m):
        r = pvg.extract_boundary_polygons(m)
        f = pvg.extract_boundary_polygons(m, fill=True)
        h = pvg.extract_boundary_polygons(m, fill=False, with_holes=True)
    def loops(line):
        out = []
        for _, c in cell_lists(line):
            if len(c) > 1 and _ in (3, 4):
                out += [(c[k], c[k + 1]) for k in range(len(c) - 1)]
        return [frozenset((K(np.asarray(line.points)[a]), K(np.asarray(line.points)[b]))) for a, b in out]
    got = []
    for line in r:
        e = loops(line)
        got += e
        deg = {}
        for s in e:
            for p in s:
                deg[p] = deg.get(p, 0) + 1
        need(all(d == 2 for d in deg.values()), "boundary polygon is not a closed loop")
    need(len(got) == len(set(got)) and set(got) == want, f"boundary edges: {len(got)}, expected {len(want)}")
    need(len(f) == len(r), "number of filled polygons")
    for line, fl in zip(r, f):
        faces = [c for t, c in cell_lists(fl) if t in (5, 7, 9)]
        need(len(faces) == 1, "filled polygon is not one face")
        Q = np.asarray(fl.points)[list(faces[0])]
        e = {frozenset((K(Q[k]), K(Q[(k + 1) % len(Q)]))) for k in range(len(Q))}
        need(e == set(loops(line)), "outline of the filled polygon")
    # holes
    import shapely

    area = lambda line: abs(poly_area2(np.asarray(line.points))[axis]) / 2
    rings = [shapely.Polygon(np.asarray(line.points)[:, plane]) for line in r]
    flat = [x for grp in h for x in grp]
    need(len(flat) == len(r), "polygons grouped with holes")
    for grp in h:
        outer = np.asarray(grp[0].points)[:, plane]
        lo, hi = outer.min(axis=0), outer.max(axis=0)
        for x in grp[1:]:
            q = np.asarray(x.points)[:, plane]
            around = min(w.area for w in rings if w.area > area(x) * 1.0001 and w.contains(shapely.Polygon(q)))
            need(abs(around - area(grp[0])) < 1e-6 * around, "a hole comes with the smallest outline around it")
            need((q > lo).all() and (q < hi).all() and area(x) < area(grp[0]) and shapely.Polygon(outer).contains(shapely.Polygon(q)), "hole outside of its outline")
    n_out = len(h)
    exp_area = abs(np.asarray(u.compute_cell_sizes()["Area"])).sum()
    tot = sum(area(grp[0]) - sum(area(x) for x in grp[1:]) for grp in h)
    close(tot, exp_area, 1e-4, "area enclosed by outlines minus holes")
    if len(r) < 6 and rng.bool(0.15):
        # filled with holes: meshes that cover the same area
        with Frame(mesh=m):
            g = pvg.extract_boundary_polygons(m, fill=True, with_holes=True)
        need(len(g) == len(h), "one mesh for each outline and its holes")
        for x, grp in zip(g, h):
            S = [abs(poly_area2(np.asarray(x.points)[list(c)])[axis]) / 2 for _, c in cell_lists(x)]
            close(sum(S), area(grp[0]) - sum(area(y) for y in grp[1:]), 1e-4, "area of the filled outline minus holes")
            b = np.asarray(x.points)[:, plane]
            o = np.asarray(grp[0].points)[:, plane]
            close(np.r_[b.min(axis=0), b.max(axis=0)], np.r_[o.min(axis=0), o.max(axis=0)], 1e-5, "extent of the filled outline")


@case("C28", "long", n=3)
def c28_long(rng):
    """Outlines of many edges are closed loops too."""
    n = [400, 600, 1500][rng.index]
    m = pv.ImageData(dimensions=(n, 2, 1))
    rng.note(n=n)
    r = pvg.extract_boundary_polygons(m)
    need(len(r) == 1, f"{len(r)} boundary polygons of a strip of {n - 1} cells")
    c = [list(x) for _, x in cell_lists(r[0])]
    need(len(c) == 1 and len(c[0]) == 2 * n + 1 and c[0][0] == c[0][-1], "outline of a long strip is not one closed loop")


@case("C28", "closed", n=2)
def c28_closed(rng):
    m = pv.Sphere(theta_resolution=8, phi_resolution=8) if rng.index == 0 else pv.Cube().clean()
    need(pvg.extract_boundary_polygons(m) is None, "closed surface has a boundary")


# ------------------------------------------------------------------ C31
@case("C31", "polygon", weight=1)
def c31(rng):
    p = star_polygon(rng, rng.int(3, 8))
    if rng.bool(0.4):
        p = p[::-1]
    ct = rng.choice(["polygon", None, "triangle", "quad", "triangle"])
    p = p + rng.choice([np.zeros(2), np.array([20.0, -10.0]), np.array([5.0e5, 4.0e6]) if ct == "polygon" else np.zeros(2)])
    z = rng.choice([0.0, 2.0])
    P3 = np.column_stack((p, np.full(len(p), z)))
    form = rng.int(0, 4)
    if form == 0 and z == 0.0:
        arg = p if rng.bool() else p.tolist()
    elif form == 1:
        arg = np.vstack((P3, P3[:1]))
    elif form == 2:
        arg = pv.PolyData(np.vstack((P3, P3[:1])), lines=[len(p) + 1, *range(len(p) + 1)])
    elif form == 3:
        arg = pv.PolyData(P3, lines=[len(p) + 1, *range(len(p)), 0])
    else:
        arg = P3
    holes, H = None, []
    if ct in ("triangle", None) and rng.bool(0.5):
        c = p.mean(axis=0)
        q = np.array([[0.3, 0], [0, 0.3], [-0.3, 0], [0, -0.3]]) * rng.uniform(0.5, 1.5) + (c if np.linalg.norm(c - p.mean(axis=0)) < 1 else c)
        import shapely

        if not shapely.Polygon(p).buffer(-0.05).contains(shapely.Polygon(q)):
            raise Skip
        q = q if rng.bool() else q[::-1]
        H = [np.column_stack((q, np.full(4, z)))]
        holes = [H[0]]
    cs = rng.choice([None, None, 0.7]) if ct != "polygon" else None
    eng = rng.choice(["gmsh", "gmsh", "occ"])
    rng.note(points=P3, form=form, ct=ct, holes=H, cs=cs, eng=eng)
    with Frame(shell=arg, holes=holes):
        m = pvg.Polygon(arg, holes, ct, cs, engine=eng)
    cl = cell_lists(m)
    P = np.asarray(m.points, dtype=float)
    ar = lambda q: abs(poly_area2(np.column_stack((q[:, :2], np.zeros(len(q)))))[2]) / 2
    kind = ct or ("triangle" if holes else "polygon")
    close(P[:, 2], np.full(len(P), z), 1e-6, "plane")
    if kind == "polygon":
        need(len(cl) == 1 and cl[0][0] == T.POLYGON, "not a single polygon")
        close(P[list(cl[0][1])], P3, 1e-6, "vertices of the polygon")
        return
    need(all(t in ((5,) if kind == "triangle" else (5, 9)) for t, _ in cl), f"cell types {sorted({t for t, _ in cl})}")
    areas = np.array([ar(P[list(c)]) for _, c in cl])
    need((areas > 0).all(), "cell of zero area")
    close(areas.sum(), ar(P3) - sum(ar(h) for h in H), 1e-5, "area of the mesh")
    d = np.linalg.norm(P[:, None] - np.vstack([P3, *H])[None], axis=2)
    need(d.min(axis=0).max() < 1e-5, "given points are not vertices of the mesh")
    import shapely

    dom = shapely.Polygon(p, [h[:, :2] for h in H]).buffer(1e-5)
    for _, c in cl:
        need(dom.contains(shapely.Polygon(P[list(c)][:, :2])), "cell outside of the domain")


@case("C31", "errors", n=4)
def c31_errors(rng):
    sq = np.array([[0, 0], [4, 0], [4, 4], [0, 4.0]])
    h = [np.array([[1, 1], [2, 1], [2, 2], [1, 2.0]])]
    bad = [lambda: pvg.Polygon(sq, h, "polygon"), lambda: pvg.Polygon(sq, celltype="hexagon"), lambda: pvg.Polygon(sq, celltype="triangle", engine="none"),
           lambda: pvg.Polygon(pv.Sphere(), celltype="triangle")]
    raises(ValueError, bad[rng.index], f"invalid polygon {rng.index}")


# ------------------------------------------------------------------ C27
@case("C27", "stack", weight=1)
def c27(rng):
    st, spec, base, table = rand_stack(rng, cross=rng.bool())
    k = rng.int(0, 2)
    rng.note(how=k)
    with Frame(base=st.mesh):
        before = [snapshot(it.mesh) for it in st.items]
        a = st.generate_mesh()
        after = [snapshot(it.mesh) for it in st.items]
        for i, (x, y) in enumerate(zip(before, after)):
            same(x, y, f"item {i} after generating")
        b = st.generate_mesh()
        same_mesh(a, b, "second generation")
        st.add(1.5, 2)
        c = st.generate_mesh()
    st2 = type(st)(st.mesh, st.axis, st.bottom_up, st.default_group, st.ignore_groups)
    st2._items = list(st.items)
    same_mesh(c, st2.generate_mesh(), "items added after a generation")


@case("C27", "extrude", weight=1)
def c27_extrude(rng):
    ex, surfs, items, base, *_ = rand_extrude(rng)
    with Frame(base=base):
        before = [snapshot(it.mesh) for it in ex.items]
        a = ex.generate_mesh()
        for i, (x, it) in enumerate(zip(before, ex.items)):
            same(x, snapshot(it.mesh), f"item {i} after generating")
        same_mesh(a, ex.generate_mesh(), "second generation")
        v = np.array([0.1, 0.2, 0.3])
        ex.add(v, 2)
        c = ex.generate_mesh()
    ex2 = pvg.MeshExtrude(ex.mesh, ex.scale, ex.angle, ex.default_group, ex.ignore_groups)
    ex2._items = list(ex.items)
    same_mesh(c, ex2.generate_mesh(), "items added after a generation")


@case("C27", "voronoi", weight=0.5)
def c27_voronoi(rng):
    axis = rng.int(0, 2)
    d = [rng.int(4, 7), rng.int(4, 7)]
    d.insert(axis, 1)
    base = pv.ImageData(dimensions=d).cast_to_structured_grid()
    if rng.bool():
        base = base.cast_to_unstructured_grid()
    rand_base_groups(base, rng)
    with Frame(base=base):
        vm = pvg.VoronoiMesh2D(base, axis)
        o = voronoi_axes(axis)
        objs = []
        for _ in range(rng.int(1, 2)):
            q = np.zeros((rng.int(1, 3), 3))
            q[:, o] = rng.uniform(0.2, 2.8, (len(q), 2))
            arg = q if rng.bool() else pv.PolyData(q)
            if rng.bool(0.4):
                dd = [3, 3]
                dd.insert(axis, 1)
                org = np.zeros(3)
                org[o] = rng.uniform(0.2, 1.0, 2)
                arg = pv.ImageData(dimensions=dd, spacing=(0.37, 0.41, 0.39), origin=org).cast_to_structured_grid()
                if rng.bool():
                    arg = arg.cast_to_unstructured_grid()
                rand_base_groups(arg, rng, 0.4)
            objs.append(arg)
            with Frame(arg=arg):
                vm.add(arg, rng.int(0, 2), rng.choice([None, "g"]))
        rng.note(axis=axis, dims=d, items=[type(a).__name__ for a in objs])
        with Frame(items=objs):
            before = [snapshot(it.mesh) for it in vm.items]
            a = vm.generate_mesh()
            for i, (x, it) in enumerate(zip(before, vm.items)):
                same(x, snapshot(it.mesh), f"item {i} after generating")
            same_mesh(a, vm.generate_mesh(), "second generation")


@case("C27", "utilities", weight=1)
def c27_utils(rng):
    """Every utility leaves its arguments unchanged and gives the same result twice."""
    k = rng.int(0, 23)
    m2 = unstructured_surface(rng, 2, kinds=("tri", "quad"), nmax=3)
    m3 = volume_mesh(rng, empty=rng.bool(0.2))
    add_data(m3, rng, ghost=True)
    s = structured_surface(rng, 2)
    rand_base_groups(s, rng)
    mk = rng.g.random(m3.n_cells) < 0.5
    mk[0] = True
    L_ = lambda v: v if rng.bool() else np.array(v)
    c = L_([1.0, 2.0, 3.0])
    tests = [
        lambda: (pvg.get_cell_centers, (m3,)),
        lambda: (pvg.get_cell_connectivity, (m3,)),
        lambda: (pvg.extract_cell_geometry, (m3,)),
        lambda: (pvg.get_neighborhood, (m3,)),
        lambda: (pvg.get_connectivity, (m2,)),
        lambda: (pvg.extract_cells, (m3, mk)),
        lambda: (pvg.extract_cells_by_dimension, (mixed_mesh(rng)[0], 2)),
        lambda: (pvg.extract_boundary_polygons, (m2,)),
        lambda: (pvg.quadraticize, (m2,)),
        lambda: (pvg.get_dimension, (m3,)),
        lambda: (pvg.get_cell_group, (s,)),
        lambda: (pvg.ray_cast, (m2, np.array([0.3, 0.2, 0.0]), np.array([2.1, 1.9, 0.0]))),
        lambda: (pvg.AnnularSector, (0.5, 1.0, 0.0, 90.0, L_([0.0, 0.4, 1.0]), L_([1.0, 0.0, 0.3]), None, None, c)),
        lambda: (pvg.Annulus, (0.5, 1.0, 2, L_([0.0, 0.3, 0.6, 1.0]), None, None, c)),
        lambda: (pvg.Circle, (1.0, L_([0.0, 0.3, 0.6, 1.0]), None, c)),
        lambda: (pvg.CylindricalShell, (0.5, 1.0, 2.0, 2, 4, L_([1.0, 0.5, 0.0]), None, None, None, c)),
        lambda: (pvg.CylindricalShellSector, (0.5, 1.0, 0.0, 90.0, 2.0, L_([1.0, 0.0]), 3, None, None, None, None, c)),
        lambda: (pvg.Quadrilateral, (L_([[0.0, 0.0], [2.0, 0.0], [2.5, 1.0], [0.0, 1.0]]), L_([1.0, 0.0]), 2, None, None, c)),
        lambda: (pvg.Rectangle, (2.0, 1.0, L_([0.5, 0.0, 1.0]), 2, None, None, c)),
        lambda: (pvg.RectangleSector, (0.5, 0.5, 1.0, L_([0.5, 0.0, 1.0]), 2, 2, None, None, None, c)),
        lambda: (pvg.SectorRectangle, (0.5, 1.0, 1.0, L_([0.5, 0.0, 1.0]), 2, None, None, c)),
        lambda: (pvg.RegularLine, (L_([[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [1.0, 2.0, 0.5]]), 4)),
        lambda: (pvg.CurvedLine, (c, 2.0, L_([1.0, 0.0, 0.0]), L_([0.0, 3.0, 0.0]), 4)),
        lambda: (pvg.reconstruct_line, (L_([[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.2, 2.0, 0.5], [3.0, 0.0, 0.0]]), 1)),
    ]
    fn, args = tests[k]()
    rng.note(fn=fn.__name__)
    with Frame(args=list(args)):
        try:
            a = fn(*args)
        except Violation:
            raise
        except (ValueError, IndexError):
            raise Skip
        b = fn(*args)
    same(snapshot(listify(a)), snapshot(listify(b)), f"second result of {fn.__name__}")


def listify(x):
    if isinstance(x, tuple):
        return [listify(y) for y in x]
    return x
