"""C17: splitting and merging lines."""
from pvc.env import task

S, G = "split_lines", "merge_lines"
LINES = ["extract_cells_by_type keeps the points, the data and the order of the lines of a mesh of lines only"]


def make(as_lines, vector, count):
    def body(E):
        p = E.int("p", lo=2)
        n = [E.int(f"n{k}", lo=2) for k in range(count)]
        m, ids = E.linework("m", p, n)
        a = E.data(m, "point", "a", "pa")
        b = E.data(m, "point", "b", "pb", 3) if vector else None
        c = E.data(m, "cell", "c", "cc")
        d = E.data(m, "cell", "d", "cd", 3) if vector else None
        P = m.points.copy() if not E.sym else m.points
        E.ready()
        out = E.fn(S)(m, as_lines=as_lines)
        E.prove("one mesh per line", len(out) == count)
        for k in range(count):
            l = out[k]
            w = f"line {k + 1}: "
            cells = n[k] - 1 if as_lines else 1
            E.shape(w + "points", l.points, [n[k], 3])
            E.forall(w + "its points in order along it", [n[k], 3], lambda i, x: E.eq(l.points[i, x], P[ids[k][i], x], 1e-6))
            L = l.lines
            if as_lines:
                E.shape(w + "segments", L, [3 * cells])
                E.forall(w + "segment after segment", [cells], lambda i: E.both(E.eq(L[3 * i], 2), E.eq(L[3 * i + 1], i), E.eq(L[3 * i + 2], i + 1)))
            else:
                E.shape(w + "one polyline", L, [n[k] + 1])
                E.prove(w + "one polyline", E.eq(L[0], n[k]))
                E.forall(w + "through its points", [n[k]], lambda i: E.eq(L[i + 1], i))
            E.has_keys(w + "point data", l.point_data, ["a", "b"] if vector else ["a"])
            E.has_keys(w + "cell data", l.cell_data, ["c", "d"] if vector else ["c"])
            E.forall(w + "data of its points", [n[k]], lambda i: E.eq(l.point_data["a"][i], a[ids[k][i]]))
            E.shape(w + "data of its cells", l.cell_data["c"], [cells])
            E.forall(w + "data of its cells", [cells], lambda i: E.eq(l.cell_data["c"][i], c[k]))
            if vector:
                E.forall(w + "vectors of its points", [n[k], 3], lambda i, x: E.eq(l.point_data["b"][i, x], b[ids[k][i], x]))
                E.shape(w + "vectors of its cells", l.cell_data["d"], [cells, 3])
                E.forall(w + "vectors of its cells", [cells, 3], lambda i, x: E.eq(l.cell_data["d"][i, x], d[k, x]))
        E.unchanged("mesh unchanged")

    return body


for as_lines in (True, False):
    for vector in (False, True):
        task("C17", f"split-{'segments' if as_lines else 'polylines'}{'-vectors' if vector else ''}", [S], assumes=LINES)(make(as_lines, vector, 2 if vector else 3))


def merged(as_lines, counts):
    """meshes of the given numbers of polylines"""

    def body(E):
        n, ids, P, c, v, meshes, own = [], [], [], [], [], [], []
        for g, count in enumerate(counts):
            p = E.int(f"p{g}", lo=2)
            size = [E.int(f"n{g}{k}", lo=2) for k in range(count)]
            m, i = E.linework(f"m{g}", p, size)
            E.data(m, "point", "a", f"pa{g}")
            cc = E.data(m, "cell", "c", f"cc{g}")
            vv = E.data(m, "cell", "v", f"cv{g}", 3)
            # the first has arrays others do not
            if g != 1:
                E.data(m, "cell", "some", f"cs{g}")
                E.data(m, "point", "some", f"ps{g}")
            n, ids = n + size, ids + i
            P += [m.points.copy() if not E.sym else m.points] * count
            c += [(cc, k) for k in range(count)]
            v += [(vv, k) for k in range(count)]
            meshes.append(m)
        E.ready()
        out = E.fn(G)(meshes, as_lines=as_lines)
        E.has_keys("cell data common to all", out.cell_data, ["c", "v"])
        E.point_keys("point data common to all", out, ["a"])
        if as_lines:
            total = 0
            for k in range(len(n)):
                total = total + n[k] - 1
            E.segment_count("as many segments as the lines have", out, total)
        else:
            E.line_sizes("polylines as long as those given", out, n)
        start = 0
        for k in range(len(n)):
            w = f"line {k + 1}: "
            (cc, j), (vv, _) = c[k], v[k]
            C, V = out.cell_data["c"], out.cell_data["v"]
            if as_lines:
                def ends(i, x, k=k, start=start):
                    a, b = E.segment(out, start + i)
                    return E.both(E.eq(a[x], P[k][ids[k][i], x], 1e-6), E.eq(b[x], P[k][ids[k][i + 1], x], 1e-6))

                E.forall(w + "its segments in order", [n[k] - 1, 3], ends)
                E.forall(w + "its data", [n[k] - 1], lambda i: E.eq(C[start + i], cc[j]))
                E.forall(w + "its vectors", [n[k] - 1, 3], lambda i, x: E.eq(V[start + i, x], vv[j, x]))
                start = start + n[k] - 1
            else:
                Q = E.line(out, k, n)
                E.forall(w + "its points in order", [n[k], 3], lambda i, x: E.eq(Q[i, x], P[k][ids[k][i], x], 1e-6))
                E.prove(w + "its data", E.eq(C[k], cc[j]))
                E.forall(w + "its vectors", [3], lambda x: E.eq(V[k, x], vv[j, x]))
        E.unchanged("meshes unchanged")

    return body


MERGE = LINES + ["merge_points keeps the vertices of the lines where they are, and the data of the lines"]
for counts in ((1, 1), (2, 1), (1, 1, 1)):
    what = "-".join(str(k) for k in counts)
    task("C17", f"merge-segments-{what}", [G], assumes=MERGE)(merged(True, counts))
    task("C17", f"merge-polylines-{what}", [G], assumes=MERGE)(merged(False, counts))
