"""C15: averaging points."""
from pvc.env import task

F = "average_points"
NOTE = ["query_pairs gives the pairs of points not farther apart than the tolerance, each once, in any order",
        "clean() keeps the vertices of the polygons where they are (means of different groups do not coincide)"]


def groups(E, pairs):
    """classes of linked points: lists of different numbers"""
    own = []
    for pair in pairs:
        hit, new = [], []
        for e in pair:
            for g in own:
                if any(E.path(E.eq(e, x)) for x in g):
                    if not any(g is h for h in hit):
                        hit.append(g)
                    break
            else:
                new.append(e)
        own = [g for g in own if not any(g is h for h in hit)] + [[x for g in hit for x in g] + new]
    return own


def averaging(links, sizes, joined=False):
    def body(E):
        p = E.int("p", lo=max(sizes, default=1))
        tol = E.real("tol", gt=0, lt=1)
        m, faces, pairs = E.netting("m", p, sizes, links, tol, joined)
        P = m.points.copy()
        E.ready()
        out = E.fn(F)(m, tol)
        G = groups(E, pairs)
        mean = [[sum(P[x, c] for x in g) / len(g) for c in range(3)] for g in G]
        if not E.sym:
            every = mean + [[float(P[i, c]) for c in range(3)] for i in range(p) if not any(i in g for g in G)]
            for a in range(len(every)):
                for b in range(a):
                    E.assume(max(abs(every[a][c] - every[b][c]) for c in range(3)) > 1e-4)

        def where(i):
            for g, x in enumerate(G):
                if any(E.path(E.eq(i, y)) for y in x):
                    return ("group", g), mean[g]
            return ("point", None), [P[i, c] for c in range(3)]

        if not sizes:
            for g, x in enumerate(G):
                for y in x:
                    E.placed("linked points at the mean of their group", out, y, mean[g])
            E.kept_points("other points where they are, and no others", out, p, lambda i: E.both(True, *[E.neg(E.eq(i, y)) for x in G for y in x]),
                          lambda i, c: P[i, c] if E.sym else where(i)[1][c])
            E.unchanged("mesh unchanged")
            return
        want = []
        for f in faces:
            ring = []
            for v, i in enumerate(f):
                token, q = where(i)
                token = token if token[0] == "group" else ("point", v)
                if not ring or ring[-1][0] != token:
                    ring.append((token, q))
            if len(ring) > 1 and ring[0][0] == ring[-1][0]:
                ring.pop()
            if not E.sym:
                # a polygon that visits a group twice: left to VTK
                E.assume(len({t for t, q in ring}) == len(ring) or len(ring) < 3)
            want.append([q for t, q in ring] if len(ring) > 2 else None)
        keep = [k for k, w in enumerate(want) if w is not None]
        got = E.loops_of(out)
        E.prove("polygons of three vertices or more are kept, the others dropped", len(got) == len(keep))
        if len(got) != len(keep):
            return
        label = out.cell_data["vtkOriginalCellIds"]
        for n, k in enumerate(keep):
            w, q = want[k], got[n]
            E.prove("kept polygons in order, labelled with their number", E.eq(label[n], k))
            E.prove("vertices in order, repeats removed", len(w) == len(q) and E.either(*[
                E.both(*[E.eq(q[(v + s) % len(w)][c], w[v][c], 1e-5) for v in range(len(w)) for c in range(3)]) for s in range(len(w))]))
        E.unchanged("mesh unchanged")

    return body


for links in (0, 1, 2, 3):
    task("C15", f"points-{links}-links", [F], assumes=NOTE, n_conc=60)(averaging(links, []))
for links, sizes in ((0, [3, 4]), (1, [3]), (1, [4]), (2, [3])):
    task("C15", f"polygons-{'-'.join(map(str, sizes))}-{links}-links", [F], assumes=NOTE, n_conc=60, secs=220)(averaging(links, sizes))
task("C15", "points-joined-4-links", [F], assumes=NOTE, n_conc=60, secs=220)(averaging(4, [], True))
