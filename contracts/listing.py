"""C13: dimension of meshes, selection of cells by dimension, lists of cells."""
from pvc.env import task

D, X, L = "get_dimension", "extract_cells_by_dimension", "get_cell_connectivity"
# cell type: number of points and dimension
TYPES = {0: (0, -1), 1: (1, 0), 2: (3, 0), 3: (2, 1), 4: (3, 1), 5: (3, 2), 6: (4, 2), 7: (5, 2), 8: (4, 2), 9: (4, 2), 10: (4, 3), 11: (8, 3), 12: (8, 3),
         13: (6, 3), 14: (5, 3), 15: (10, 3), 16: (12, 3), 21: (3, 1), 22: (6, 2), 23: (8, 2), 24: (10, 3), 25: (20, 3), 26: (15, 3), 27: (13, 3)}
SIZE = {k: v[0] for k, v in TYPES.items()}
DIM = {k: v[1] for k, v in TYPES.items()}


@task("C13", "dimension-structured", [D])
def structured(E):
    n = [E.int(f"n{k}", lo=1) for k in range(3)]
    m = E.structured("m", n)
    E.ready()
    r = E.fn(D)(m)
    flat = [E.ite(E.eq(k, 1), 1, 0) for k in n]
    E.prove("3 less the number of flat axes", E.eq(r, 3 - flat[0] - flat[1] - flat[2]))
    E.unchanged("mesh unchanged")


@task("C13", "dimension-unstructured", [D])
def unstructured(E):
    p, n = E.int("p", lo=1), E.int("n", lo=1)
    m, t = E.mixed("m", p, n, SIZE)
    E.ready()
    r = E.fn(D)(m)
    E.forall("no cell of a higher dimension", [n], lambda i: E.le(E.table(DIM, t[i]), r))
    E.prove("a cell of that dimension", E.exists([n], lambda i: E.eq(E.table(DIM, t[i]), r)))
    E.unchanged("mesh unchanged")


def selection(method, keep, given):
    def body(E):
        p, n = E.int("p", lo=1), E.int("n", lo=1)
        m, t = E.mixed("m", p, n, SIZE)
        d = E.int("d", lo=0, hi=3) if given else None
        if not given:
            E.assume(E.exists([n], lambda i: E.neg(E.eq(t[i], 0))))
        E.ready()
        out = E.fn(X)(m, d, method, keep) if given else E.fn(X)(m, method=method, keep_empty_cells=keep)
        d = d if given else E.fn(D)(m)

        def exactly(i):
            k = E.table(DIM, t[i])
            right = E.le(d, k) if method == "upper" else E.le(k, d)
            want = E.either(right, E.eq(t[i], 0)) if keep else E.both(right, E.neg(E.eq(t[i], 0)))
            return E.iff(E.kept(out, m, i), want)

        E.forall("exactly the cells of these dimensions", [n], exactly)
        E.unchanged("mesh unchanged")

    return body


EXTRACT = ["extract_cells gives the cells selected by a mask, in their order, with their data"]
for method in ("upper", "lower"):
    for keep in (False, True):
        for given in (True, False):
            task("C13", f"select-{method}{'-empty' if keep else ''}{'' if given else '-default'}", [X], assumes=EXTRACT)(selection(method, keep, given))


@task("C13", "select-invalid", [X])
def invalid(E):
    p, n = E.int("p", lo=1), E.int("n", lo=1)
    m, t = E.mixed("m", p, n, SIZE)
    E.ready()
    _, e = E.attempt(lambda: E.fn(X)(m, 2, "other"))
    E.prove("another method raises ValueError", isinstance(e, ValueError))
    E.unchanged("mesh unchanged")


def connectivity(celltype, width, flat):
    def body(E):
        p, n = E.int("p", lo=1), E.int("n", lo=1)
        m = E.ugrid("m", p, n, celltype, width)
        C = E.conn(m)
        E.ready()
        out = E.fn(L)(m, flatten=flat)
        if flat:
            E.shape("all cells", out, [n * (width + 1)])
            E.forall("the number of points of each cell", [n], lambda i: E.eq(out[i * (width + 1)], width))
            E.forall("the points of each cell", [n, width], lambda i, v: E.eq(out[i * (width + 1) + 1 + v], C[i, v]))
        else:
            E.prove("as many as there are cells", E.eq(E.length(out), n))
            E.forall("the points of each cell", [n, width], lambda i, v: E.eq(out[i][v], C[i, v]))
        E.unchanged("mesh unchanged")

    return body


for name, celltype, width in (("triangles", 5, 3), ("quads", 9, 4), ("hexahedra", 12, 8)):
    for flat in (False, True):
        task("C13", f"list-{name}{'-flat' if flat else ''}", [L])(connectivity(celltype, width, flat))
