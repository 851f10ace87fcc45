"""C18: reconstructed lines, by invariants of the search loops."""
from pvc.env import task

R = "reconstruct_line"


def mk(close, width):
    @task("C18", f"reconstruct-{'closed' if close else 'open'}-{width}d", [R], secs=200, branch_ms=600, n_conc=25)
    def t(E):
        n = E.int("n", lo=2)
        p = E.arr("points", [n, width])
        start = E.int("start", lo=0)
        E.assume(E.le(start, n - 1))
        tol = E.real("tolerance", lo=0, hi=1)
        E.ready()
        P = lambda i, c: p[i, c] if c < width else 0.0
        m = n if close else n - 1
        nxt = (lambda i: E.ite(E.eq(i, n - 1), 0, i + 1)) if close else (lambda i: i + 1)

        def length(at):
            """of the line through the points of an order"""

            def edge(i):
                d = [p[at(nxt(i)), c] - p[at(i), c] for c in range(width)]
                s = d[0] * d[0] + d[1] * d[1]
                return E.sqrt(s + d[2] * d[2] if width == 3 else s)

            return E.total(m, edge)

        W = E.search(n, start, length)
        out = E.fn(R)(p, start=start, close=close, tolerance=tol)
        Q = out.points
        E.shape("as many points", Q, [n, 3])
        k = W.witness(p, Q, n)
        for c in range(3):
            E.forall("given points, completed with zero", [n], lambda i: E.eq(Q[i, c], P(k(i), c), 1e-6))
        E.forall("of which there are", [n], lambda i: E.both(E.le(0, k(i)), E.le(k(i), n - 1)))
        E.forall("every one once", [n, n], lambda i, j: E.implies(E.eq(k(i), k(j)), E.eq(i, j)))
        E.prove("starts with the chosen point", E.same_point(Q, 0, p, start, width))
        L = out.lines
        E.shape("as many segments", L, [3 * m])
        E.forall("from each to the next", [n - 1], lambda i: E.both(E.eq(L[3 * i], 2), E.eq(L[3 * i + 1], i), E.eq(L[3 * i + 2], i + 1)))
        if close:
            E.prove("and back to the first", E.both(E.eq(L[3 * n - 3], 2), E.eq(L[3 * n - 2], n - 1), E.eq(L[3 * n - 1], 0)))
        before = length(lambda i: E.ite(E.le(n, i + start), i + start - n, i + start))
        E.prove("not longer than in the order given", E.le(length(k), before, 1e-5))
        E.unchanged("points unchanged")


for cl in (False, True):
    for w in (2, 3):
        mk(cl, w)


@task("C18", "reconstruct-invalid", [R])
def invalid(E):
    n = E.int("n", lo=1)
    w = E.choice("width", [1, 4, 5])
    p = E.arr("points", [n, w])
    E.ready()
    _, e = E.attempt(lambda: E.fn(R)(p))
    E.prove("points of another size raise ValueError", isinstance(e, ValueError))
    E.unchanged("points unchanged")
