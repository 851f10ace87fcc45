"""C12: shared edges."""
from pvc.env import task

G, N, C = "extract_cell_geometry", "get_neighborhood", "get_connectivity"
ORDER = {3: [0, 1], 5: [0, 1, 2], 8: [0, 1, 3, 2], 9: [0, 1, 2, 3], 7: None, 4: None}
NAMES = {3: "line", 5: "triangle", 7: "polygon", 8: "pixel", 9: "quad"}
NOTE = ["the length of a segment is zero if and only if its ends coincide"]


def edges_of(t, f):
    q = [f[v] for v in (ORDER[t] or range(len(f)))]
    return [(q[k], q[(k + 1) % len(q)]) for k in range(len(q) if t not in (3, 4) else len(q) - 1)]


def same(E, a, b):
    return E.either(E.both(E.eq(a[0], b[0]), E.eq(a[1], b[1])), E.both(E.eq(a[0], b[1]), E.eq(a[1], b[0])))


def given(E, cells):
    p = E.int("p", lo=max(w for t, w in cells))
    m, ids = E.patchwork("m", p, cells)
    return p, m, [edges_of(t, f) for (t, w), f in zip(cells, ids)]


def geometry(cells, ghosts):
    def body(E):
        p, m, own = given(E, cells)
        P = m.points.copy()
        E.ready()
        out = E.fn(G)(m, remove_ghost_cells=ghosts)
        E.shape("points of the mesh", out.points, [p, 3])
        E.forall("points of the mesh", [p, 3], lambda i, c: E.eq(out.points[i, c], P[i, c], 1e-5))
        S = E.edges(out)
        L = out.cell_data["vtkOriginalCellIds"]
        w = L.shape[1]
        for k, e in enumerate(own):
            for x in e:
                hits = [same(E, x, s) for s in S]
                E.prove("every edge of a cell is there", E.either(*hits))
        for a in range(len(S)):
            for b in range(a):
                E.prove("no edge twice", E.neg(same(E, S[a], S[b])))
            # the cells that have it, in ascending order
            have = [E.path(E.either(*[same(E, x, S[a]) for x in e])) for e in own]
            want = [k for k, h in enumerate(have) if h]
            E.prove("only edges of cells", bool(want))
            E.prove("room for its cells", 2 <= len(want) <= w or len(want) < 2 <= w)
            E.prove("its cells in ascending order, padded", E.both(*[E.eq(L[a, k], want[k] if k < len(want) else -1) for k in range(w)]))
        E.unchanged("mesh unchanged")

    return body


def shared(E, own):
    """how many edges two cells share"""
    return {(a, b): sum(1 for x in own[a] for y in own[b] if E.path(same(E, x, y))) for a in range(len(own)) for b in range(len(own)) if a != b}


def neighbors(cells, ghosts):
    def body(E):
        p, m, own = given(E, cells)
        E.ready()
        out = E.fn(N)(m, remove_ghost_cells=ghosts)
        S = shared(E, own)
        E.prove("one list per cell", len(out) == len(cells))
        for a in range(len(cells)):
            got = out[a]
            total = sum(S[a, b] for b in range(len(cells)) if b != a)
            E.shape("neighbors once per shared edge", got, [total])
            for b in range(len(cells)):
                k = sum(E.ite(E.eq(got[q], b), 1, 0) for q in range(total))
                E.prove("neighbors once per shared edge", E.eq(k, S.get((a, b), 0)))
        E.unchanged("mesh unchanged")

    return body


def connections(cells, own_centers):
    def body(E):
        p, m, own = given(E, cells)
        X = E.arr("centers", [len(cells), 3])
        E.ready()
        out = E.fn(C)(m, X)
        S = shared(E, own)
        E.shape("one point per cell", out.points, [len(cells), 3])
        E.forall("points at the centers given", [len(cells), 3], lambda i, c: E.eq(out.points[i, c], X[i, c], 1e-5))
        total = sum(S[a, b] for a, b in S if a < b)
        if total:
            L = E.edges(out)
            E.prove("one line per shared edge", len(L) == total)
            for a, b in S:
                if a < b:
                    k = sum(E.ite(same(E, (a, b), s), 1, 0) for s in L)
                    E.prove("lines join neighbors", E.eq(k, S[a, b]))
        E.unchanged("mesh unchanged")

    return body


T, Q, X, L2 = (5, 3), (9, 4), (8, 4), (3, 2)
for what in ([T, T], [T, Q], [X, T], [L2, L2, L2], [L2, T], [L2, L2, T]):
    name = "-".join(NAMES[t] for t, w in what)
    task("C12", f"edges-{name}", [G], assumes=NOTE, secs=110)(geometry(what, True))
    if Q in what or X in what:
        continue
    task("C12", f"edges-{name}-all", [G], assumes=NOTE, secs=110)(geometry(what, False))
    task("C12", f"neighbors-{name}", [N, G], assumes=NOTE, secs=110)(neighbors(what, True))
    task("C12", f"connections-{name}", [C, G], assumes=NOTE, secs=110)(connections(what, True))
