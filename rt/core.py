"""Runtime-contract layer: executes the real code of /repo on generated inputs and evaluates the
contracts of a property on every call.  This is the *bounded* stand-in / replay engine; nothing it
does is counted as proved."""
from __future__ import annotations

import json, os, sys, time, traceback, multiprocessing as mp, hashlib, signal, warnings

import numpy as np


class Violation(AssertionError):
    pass


class Skip(Exception):
    """The generated input is outside the property's precondition."""


def need(cond, msg=""):
    if isinstance(cond, np.ndarray):
        cond = cond.all()
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def close(a, b, tol=1e-6, msg=""):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Violation(f"{msg}: shape {a.shape} != expected {b.shape}")
    if a.size == 0:
        return
    scale = max(1.0, float(np.nanmax(np.abs(b))) if np.isfinite(b).any() else 1.0)
    bad = ~(np.abs(a - b) <= tol * scale) & ~(np.isnan(a) & np.isnan(b))
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        raise Violation(f"{msg}: value {a[i]!r} at {i}, expected {b[i]!r}")


def equal(a, b, msg=""):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        raise Violation(f"{msg}: shape {a.shape} != expected {b.shape}")
    if a.dtype.kind == "f" or b.dtype.kind == "f":
        ok = (a == b) | ((a != a) & (b != b))
    else:
        ok = a == b
    if not np.all(ok):
        i = tuple(int(x) for x in np.argwhere(~np.asarray(ok))[0])
        raise Violation(f"{msg}: value {a[i]!r} at {i}, expected {b[i]!r}")


def raises(exc, fn, msg):
    try:
        fn()
    except exc:
        return
    except Exception as e:  # another error
        raise Violation(f"{msg}: expected {exc}, got {type(e).__name__}: {e}")
    raise Violation(f"{msg}: expected {exc}, nothing raised")


REGISTRY: dict[str, list] = {}


def case(prop, name, weight=1.0, n=None):
    """Register a generator: fn(rng) draws an input, runs the real code, checks the contract.
    weight: share of the random budget; n: fixed number of draws (enumeration by index if the
    function accepts `index`)."""

    def deco(fn):
        REGISTRY.setdefault(prop, []).append((name, fn, weight, n))
        return fn

    return deco


def seed_of(prop, name, seed, index):
    h = hashlib.sha256(f"{prop}/{name}/{seed}/{index}".encode()).digest()
    return int.from_bytes(h[:8], "little")


class Rng:
    """numpy Generator with a log of what was drawn (for replay files)."""

    def __init__(self, seed, index=0):
        self.g = np.random.default_rng(seed)
        self.index = index
        self.notes = {}

    def note(self, **kw):
        for k, v in kw.items():
            try:
                r = repr(v.tolist() if isinstance(v, np.ndarray) else v)
            except Exception as e:  # pragma: no cover
                r = f"<{type(v).__name__}>"
            self.notes[k] = r if len(r) < 3000 else r[:3000] + "..."

    def int(self, lo, hi):
        return int(self.g.integers(lo, hi + 1))

    def choice(self, seq):
        return seq[int(self.g.integers(len(seq)))]

    def bool(self, p=0.5):
        return bool(self.g.random() < p)

    def normal(self, *shape):
        return self.g.normal(size=shape)

    def uniform(self, lo=0.0, hi=1.0, size=None):
        return self.g.uniform(lo, hi, size)

    def perm(self, n):
        return self.g.permutation(n)


def run_case(prop, name, fn, seed, index):
    rng = Rng(seed_of(prop, name, seed, index), index)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            try:
                fn(rng)
                return "ok", None, rng.notes
            except Skip:
                return "skip", None, rng.notes
            except Violation as e:
                return "bad", str(e), rng.notes
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = [f"{os.path.basename(t.filename)}:{t.name}" for t in tb][-4:]
                return "bad", f"unexpected {type(e).__name__}: {e} at {' > '.join(where)}", rng.notes


def _worker(prop, jobs, seed, q, deadline):
    try:
        import faulthandler

        faulthandler.disable()
    except Exception:
        pass
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    try:
        import vtk

        vtk.vtkObject.GlobalWarningDisplayOff()
    except Exception:
        pass
    gens = {g[0]: g[1] for g in REGISTRY[prop]}
    for name, index, forced in jobs:
        if time.time() > deadline and not forced:
            break
        q.send(("start", name, index))
        t = time.time()
        st, msg, notes = run_case(prop, name, gens[name], seed, index)
        q.send(("done", name, index, st, msg, notes, time.time() - t))
    q.send(("end",))
    q.close()
    os._exit(0)


def explore(prop, seed, budget_s, n_random, procs=8, case_timeout=60.0, stop_on=1):
    """Run all registered generators of a property.  Returns dict(stats, failures)."""
    gens = REGISTRY.get(prop, [])
    jobs = []
    tot_w = sum(g[2] for g in gens if g[3] is None) or 1.0
    for name, fn, w, n in gens:
        if n is not None:
            jobs += [(name, i, True) for i in range(n)]
    # interleave the random generators so that a deadline cuts all of them evenly
    rnd = []
    for name, fn, w, n in gens:
        if n is None:
            k = max(4, int(n_random * w / tot_w))
            rnd += [((i + 0.5) / k, name, i, i < 3) for i in range(k)]
    rnd.sort()
    jobs += [(name, i, f) for _, name, i, f in rnd]
    failures, stats = [], {"evaluations": 0, "ok": 0, "skip": 0, "per_gen": {}, "samples": []}
    seen = set()
    deadline = time.time() + budget_s
    ctx = mp.get_context("fork")
    chunks = [jobs[i::procs] for i in range(procs)]
    workers = []

    def spawn(jobs_):
        r, w = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_worker, args=(prop, jobs_, seed, w, deadline))
        p.start()
        w.close()
        return dict(p=p, r=r, jobs=jobs_, cur=None, t=time.time(), pos=0)

    workers = [spawn(c) for c in chunks if c]
    stop = False
    while workers:
        ready = mp.connection.wait([w["r"] for w in workers], timeout=1.0)
        for w in list(workers):
            if w["r"] in ready:
                try:
                    m = w["r"].recv()
                except (EOFError, OSError):
                    # worker died
                    workers.remove(w)
                    w["p"].join(5)
                    if w["cur"] is not None:
                        name, index = w["cur"]
                        failures.append(dict(gen=name, index=index, kind="crash",
                                             msg=f"process died (exit code {w['p'].exitcode})", notes={}))
                        rest = w["jobs"][w["pos"] + 1:]
                        if rest and not stop:
                            workers.append(spawn(rest))
                    continue
                if m[0] == "start":
                    w["cur"] = (m[1], m[2])
                    w["t"] = time.time()
                elif m[0] == "done":
                    _, name, index, st, msg, notes, dt = m
                    w["cur"] = None
                    w["pos"] += 1
                    stats["evaluations"] += 1
                    pg = stats["per_gen"].setdefault(name, dict(ok=0, skip=0, bad=0, max_s=0.0))
                    pg["max_s"] = max(pg["max_s"], round(dt, 3))
                    pg[st] += 1
                    if st == "ok":
                        stats["ok"] += 1
                        key = json.dumps([name, notes], sort_keys=True, default=str)
                        seen.add(hashlib.md5(key.encode()).hexdigest())
                        if pg["ok"] == 2 and len(stats["samples"]) < 12:
                            stats["samples"].append(dict(gen=name, index=index, input={k: v[:300] for k, v in notes.items()}))
                    elif st == "skip":
                        stats["skip"] += 1
                    else:
                        failures.append(dict(gen=name, index=index, kind="contract", msg=msg, notes=notes))
                elif m[0] == "end":
                    workers.remove(w)
                    w["p"].join(5)
            elif w["cur"] is not None and time.time() - w["t"] > case_timeout:
                name, index = w["cur"]
                failures.append(dict(gen=name, index=index, kind="timeout",
                                     msg=f"no result after {case_timeout:.0f} s", notes={}))
                workers.remove(w)
                w["p"].kill()
                w["p"].join(5)
                rest = w["jobs"][w["pos"] + 1:]
                if rest:
                    workers.append(spawn(rest))
        if len(failures) >= stop_on and not stop:
            stop = True
            for w in workers:
                w["p"].kill()
                w["p"].join(5)
            workers = []
    stats["distinct_nontrivial"] = len(seen)
    return stats, failures


def confirm(prop, name, index, seed, timeout=90.0):
    """Re-run one case in a fresh process: (still_fails, message)."""
    gens = {g[0]: g[1] for g in REGISTRY[prop]}
    ctx = mp.get_context("fork")
    r, w = ctx.Pipe(duplex=False)
    p = ctx.Process(target=_worker, args=(prop, [(name, index, True)], seed, w, time.time() + 1e6))
    p.start()
    w.close()
    end = time.time() + timeout
    while True:
        if r.poll(max(0.0, end - time.time())):
            try:
                m = r.recv()
            except (EOFError, OSError):
                p.join(5)
                return True, f"process died (exit code {p.exitcode})", {}
            if m[0] == "done":
                p.kill()
                p.join(5)
                return m[3] == "bad", m[4], m[5]
        else:
            p.kill()
            p.join(5)
            return True, f"no result after {timeout:.0f} s", {}
