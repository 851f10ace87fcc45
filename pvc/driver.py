"""Runs the contract tasks of a property and decides.

Every run parses /repo, executes the functions under contract symbolically and sends the proof
obligations to the solver.  An obligation ends as
  discharged   the negation is unsatisfiable on every path,
  refuted      the solver has a counterexample: it is replayed on the real code,
  unknown      the solver gave up (both back ends),
  outside      the code left the modelled subset: the bounded layer decides, no claim of proof.
"""
from __future__ import annotations

import ast
import hashlib
import importlib
import json
import os
import random
import sys
import time
import traceback
import multiprocessing as mp

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASELINE = os.path.join(HERE, "contracts", "baseline.json")
MODULES = ["lines", "surfaces", "volumes", "stack", "merging", "prims", "cells", "misc", "groups", "frames", "ugrids", "polygons", "thin", "search", "linework", "listing", "mergers", "centers", "extrusion", "averages", "sharing"]


def load_tasks():
    from . import env

    for m in MODULES:
        if os.path.exists(os.path.join(HERE, "contracts", m + ".py")):
            importlib.import_module("contracts." + m)
    return env.TASKS


# ---------------------------------------------------------------- which source a task depends on
class Tracer:
    """functions of the repository that were executed"""

    def __init__(self, repo):
        self.root = os.path.realpath(repo) + os.sep
        self.seen = set()

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(m.PROFILER_ID, "pvc")
        m.register_callback(m.PROFILER_ID, m.events.PY_START, self.hit)
        m.set_events(m.PROFILER_ID, m.events.PY_START)
        return self

    def hit(self, code, off):
        f = code.co_filename
        if f.startswith(self.root) or f.startswith("/repo/"):
            q = code.co_qualname
            parts = [p for p in q.split(".") if p != "<locals>" and not p.startswith("<") and not p.startswith("__body_")
                     and not p.startswith("__get_") and not p.startswith("__set_")]
            if parts:
                self.seen.add((f, ".".join(parts)))
        return sys.monitoring.DISABLE

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(m.PROFILER_ID, 0)
        m.register_callback(m.PROFILER_ID, m.events.PY_START, None)
        m.free_tool_id(m.PROFILER_ID)
        m.restart_events()


class Strip(ast.NodeTransformer):
    def generic_visit(self, n):
        ast.NodeTransformer.generic_visit(self, n)
        b = getattr(n, "body", None)
        if isinstance(b, list) and b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
            n.body = b[1:] or [ast.Pass()]
        return n


def function_hashes(path):
    """qualified name -> hash of the syntax tree of the function, without docstring"""
    try:
        tree = Strip().visit(ast.parse(open(path).read()))
    except Exception:
        return {}
    out = {}

    def walk(node, pre):
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                q = f"{pre}.{n.name}" if pre else n.name
                if isinstance(n, ast.FunctionDef):
                    out[q] = hashlib.sha1(ast.dump(n).encode()).hexdigest()[:16]
                walk(n, q)
            elif hasattr(n, "body") and isinstance(n.body, list):
                walk(n, pre)

    walk(tree, "")
    return out


def source_hash(seen):
    files = {}
    rows = []
    for f, q in sorted(seen):
        if f not in files:
            files[f] = function_hashes(f)
        rows.append((os.path.basename(os.path.dirname(f)) + "/" + os.path.basename(f), q, files[f].get(q, "-")))
    return hashlib.sha1(repr(sorted(set(rows))).encode()).hexdigest()[:16], sorted({f"{a}:{b}" for a, b, _ in rows})


# ---------------------------------------------------------------- one task
def run_task(task, repo, tier):
    """symbolic run; plain data"""
    import z3
    from . import core, env
    from .load import Package

    t0 = time.time()
    scale = 1.0 if tier == "quick" else 3.0
    res = dict(task=task.name, obligations=[], outside=[], paths=0, dead=0, queries=0, solver_s=0.0, vacuous=None, exceptions=[], functions=[], hash="", internal=False, weak=False)
    deadline = t0 + task.secs * scale
    with Tracer(repo) as tr:
        pkg = Package(repo)
        tr.seen.clear()
        sys.monitoring.restart_events()

        def run(c):
            E = env.SymEnv(pkg, c, task.ms * scale)
            c.E = E
            try:
                task.fn(E)
            except z3.Z3Exception as e:
                raise core.Unsupported(f"solver interface: {e}")
            except RecursionError:
                raise core.Unsupported("recursion")
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                inside = [f"{os.path.basename(x.filename)}:{x.lineno}" for x in tb]
                # raised on this path: a failed obligation if the path is feasible
                r, s = c.solve([], task.ms)
                model = E.values(s, []) if r == z3.sat else None
                c.exc = (f"{type(e).__name__}: {e}", model, r == z3.sat and not c.tainted, " > ".join(inside[-6:]))
            finally:
                res["internal"] = res["internal"] or E.internal
                res["weak"] = res["weak"] or bool(getattr(E, "weak", False) or E.loops)
                E.close()

        for c, (what, val) in core.explore(run, deadline, max_paths=task.max_paths, branch_ms=task.branch_ms):
            res["queries"] += c.stats["queries"]
            res["solver_s"] += c.stats["solver_s"]
            if what == "dead":
                res["dead"] += 1
                continue
            E = c.E if hasattr(c, "E") else None
            if what == "unsupported":
                where = ""
                tb = traceback.extract_tb(val.__traceback__) if val.__traceback__ else []
                mine = [x for x in tb if x.filename.startswith(tr.root)]
                if mine:
                    where = f" at {os.path.basename(mine[-1].filename)}:{mine[-1].lineno}"
                if os.environ.get("PVC_DEBUG"):
                    traceback.print_exception(val)
                res["outside"].append((type(val).__name__ + ": " + str(val) + where)[:300])
                if E is not None:
                    res["obligations"] += [row(o) for o in E.obligations if o.status != "discharged"]
                continue
            prev, core.CTX = core.CTX, c
            try:
                try:
                    r, _ = c.solve([], min(task.ms, 600))
                except core.BudgetEnd:
                    r = z3.unknown
            finally:
                core.CTX = prev
            if r == z3.unsat:
                res["dead"] += 1
                continue
            res["paths"] += 1
            if getattr(c, "exc", None):
                res["exceptions"].append(c.exc)
                if os.environ.get("PVC_DEBUG"):
                    print("exception on path:", c.exc[0], c.exc[3])
            res["obligations"] += [row(o) for o in E.obligations]
        if res["paths"] == 0 and not res["outside"]:
            res["vacuous"] = "no feasible path"
    res["hash"], res["functions"] = source_hash(tr.seen)
    res["secs"] = time.time() - t0
    return res


def row(o):
    return dict(name=o.name, status=o.status, model=o.model, reason=o.reason, secs=round(o.secs, 3), backend=o.backend)


def conc_run(task, values, seed, tol=1e-7):
    """(failed?, message, inputs) on the real code"""
    from . import env

    E = env.ConcEnv(values, random.Random(seed), tol)
    try:
        task.fn(E)
    except env.Skip:
        return None, "", E.used, E.internal
    except env.Failed as e:
        return True, str(e), E.used, E.internal
    except Exception as e:
        return True, f"unexpected {type(e).__name__}: {e}", E.used, E.internal
    return False, "", E.used, E.internal


def conc_many(task, n, seed):
    import warnings

    warnings.simplefilter("ignore")
    ok = skipped = 0
    internal = False
    for k in range(n):
        bad, msg, used, internal = conc_run(task, None, f"{seed}/{task.name}/{k}")
        if bad is None:
            skipped += 1
        elif bad:
            return dict(ok=ok, skipped=skipped, fail=dict(message=msg, values=used), internal=internal)
        else:
            ok += 1
    return dict(ok=ok, skipped=skipped, fail=None, internal=internal if n else False)


def child(job, task, args, conn):
    import signal

    try:
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        if job == "again":  # the solver hung in one query (it can ignore its time limit): once more with another seed
            import z3

            z3.set_param("smt.random_seed", 7)
            z3.set_param("nlsat.seed", 7)
        if job in ("sym", "again"):
            r = run_task(task, *args)
        elif job == "conc":
            r = conc_many(task, *args)
        else:
            bad, msg, used, internal = conc_run(task, *args)
            r = dict(bad=bad, msg=msg, values=used, internal=internal)
        conn.send(("ok", r))
    except BaseException as e:
        conn.send(("err", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"))
    finally:
        conn.close()
        os._exit(0)


def pool(jobs, procs, limit, stop=None):
    """jobs: list of (key, job, task, args, seconds); runs each in its own process

    stop(key, result): no more jobs are begun and those running are ended once it is true"""
    ctx = mp.get_context("fork")
    todo, live, out = list(jobs), {}, {}
    t_end = time.time() + limit
    while todo or live:
        while todo and len(live) < procs and time.time() < t_end:
            key, job, task, args, secs = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(job, task, args, b))
            p.start()
            b.close()
            live[key] = (p, a, time.time() + secs, (job, task, args, secs))
        if time.time() >= t_end:
            for key, *_ in todo:
                out[key] = ("err", "time budget of the check used up")
            todo = []
        for key, (p, a, end, what) in list(live.items()):
            if a.poll(0.02):
                try:
                    out[key] = a.recv()
                except EOFError:
                    out[key] = ("err", "process ended")
                p.join()
                del live[key]
                if stop is not None and out[key][0] == "ok" and stop(key, out[key][1]):
                    for q, *_ in live.values():
                        q.kill()
                        q.join()
                    return out
            elif not p.is_alive():
                out[key] = ("err", f"process ended with code {p.exitcode}")
                del live[key]
            elif time.time() > end:
                p.kill()
                p.join()
                out[key] = ("err", "time limit")
                del live[key]
                if what[0] == "sym":
                    todo.insert(0, (key, "again", *what[1:]))
    return out


def clean(v):
    import numpy as np

    if isinstance(v, dict):
        return {k: clean(x) for k, x in v.items()}
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, np.generic):
        return v.item()
    return v


def read_baseline():
    try:
        return json.load(open(BASELINE))
    except Exception:
        return {}


def summarise(r):
    """obligations by name: number of instances by status"""
    by = {}
    for o in r["obligations"]:
        d = by.setdefault(o["name"], dict(discharged=0, refuted=0, unknown=0, undischarged=0))
        d[o["status"]] += 1
    return by


TRUSTED = [
    "the symbolic executor pvc (path exploration, loop rules, array theory) and its AST rewriting",
    "z3 4.x (python binding), cvc5 as second back end",
    "models of numpy, pyvista/VTK data sets and copy used in place of the libraries (pvc/npm.py, pvc/mesh.py), cross-checked on random concrete inputs",
    "floats treated as reals, integers as unbounded",
    "axioms on sqrt, sin, cos, acos, log10 instantiated on the terms present",
]


def decide(prop, names, repo, tier, procs=8, limit=None):
    seed = os.environ.get("VERIF_SEED", "1")
    tasks = [t for t in load_tasks().get(prop, []) if names is True or t.name in names]
    base = read_baseline()
    limit = limit or (300.0 if tier == "quick" else 1500.0)
    scale = 1.0 if tier == "quick" else 3.0
    jobs = [((t.name, "conc"), "conc", t, (t.n_conc if tier == "quick" else 10 * t.n_conc, seed), 60 * scale) for t in tasks if t.n_conc]
    jobs += [((t.name, "sym"), "sym", t, (repo, tier), t.secs * scale + 30) for t in tasks]
    by_name = {t.name: t for t in tasks}
    confirmed = []  # (task, candidate, message, values): failed obligations with an input that fails on the real code

    def stop(key, r):
        """a counterexample confirmed on the real code decides; the other obligations need not be tried"""
        t = by_name[key[0]]
        if r.get("internal"):
            return False
        if key[1] == "conc":
            # repeated in a fresh process before it is believed
            again = r["fail"] and pool([("x", "one", t, (r["fail"]["values"], "again"), 60)], 1, 70)["x"]
            if again and again[0] == "ok" and again[1]["bad"]:
                confirmed.append((t, None, r["fail"]["message"], r["fail"]["values"]))
                return True
            r["fail"] = None
            return False
        for o in [o for o in r["obligations"] if o["status"] == "refuted" and o["model"]][:2]:
            again = pool([("x", "one", t, (o["model"], "model"), 30)], 1, 40)["x"]
            if again[0] == "ok" and again[1]["bad"]:
                confirmed.append((t, o, again[1]["msg"], again[1]["values"]))
                return True
        return False

    out = pool(jobs, procs, limit, stop)
    t_replay = time.time() + (150 if tier == "quick" else 900)
    log, viol, und, assumes = [], [], [], set()
    for t, o, msg, values in confirmed:
        viol.append(dict(name=t.name, task=t.name, obligation=o["name"] if o else msg, replayed=True, values=clean(values),
                         message=msg + (f" (obligation {o['name']} refuted; counterexample confirmed on the real code)" if o else " (on the real code, random instance of the contract)"),
                         verifier_output=str(o["reason"])[:2000] if o else "concrete instance"))
    n_ob = n_dis = 0
    inst = 0
    solver_s, queries, paths = 0.0, 0, 0
    functions, backends, per_task = set(), {}, []
    for t in tasks:
        kind, r = out.get((t.name, "sym"), ("err", "not tried: a violation was confirmed before" if confirmed else "not run"))
        bl = base.get(f"{prop}/{t.name}", {})
        for a in t.assumes:
            assumes.add(a)
        rep = dict(task=t.name)
        per_task.append(rep)
        ck, cr = out.get((t.name, "conc"), ("ok", dict(ok=0, skipped=0, fail=None)))
        if ck == "ok":
            rep["concrete_ok"] = cr["ok"]
            if cr["fail"] and cr.get("internal"):
                viol.append(dict(name=t.name, task=t.name, obligation=cr["fail"]["message"], replayed=True, values=clean(cr["fail"]["values"]),
                                 message=cr["fail"]["message"], verifier_output="concrete instance"))
        if kind != "ok":
            und.append(f"{t.name}: {r.splitlines()[0]}")
            rep["status"] = "not decided: " + r.splitlines()[0]
            n_ob += max(1, len(bl.get("obligations", [])))
            continue
        solver_s += r["solver_s"]
        queries += r["queries"]
        paths += r["paths"]
        functions |= set(r["functions"])
        by = summarise(r)
        changed = bl.get("hash") != r["hash"]
        complete = not r["outside"] and not r["vacuous"]
        rep.update(paths=r["paths"], infeasible_paths=r["dead"], secs=round(r["secs"], 1), solver_s=round(r["solver_s"], 1), outside=r["outside"][:3], vacuous=r["vacuous"])
        expected = set(by) | set(bl.get("obligations", []))
        if not by and complete:
            r["vacuous"] = "no obligation"
        status = {}
        for name in sorted(expected):
            d = by.get(name)
            n_ob += 1
            if d and complete and not r["vacuous"] and not r["exceptions"] and d["refuted"] == d["unknown"] == d["undischarged"] == 0 and d["discharged"]:
                n_dis += 1
                inst += d["discharged"]
                status[name] = f"discharged ({d['discharged']})"
                for o in r["obligations"]:
                    if o["name"] == name:
                        backends[o["backend"]] = backends.get(o["backend"], 0) + 1
                continue
            status[name] = "refuted" if d and d["refuted"] else "unknown" if d and d["unknown"] else "outside the modelled subset" if not complete else "not discharged"
        rep["obligations"] = status
        # failed obligations
        cands = [(o["name"], o["model"], o["reason"], o["status"]) for o in r["obligations"] if o["status"] in ("refuted", "unknown")]
        cands += [("no exception", m, f"{msg} [{where}]", "exception") for msg, m, ok, where in r["exceptions"]]
        if cands and not confirmed:
            todo = []
            for k, (n, m, why, st) in enumerate(cands[:12]):
                if m:
                    todo.append(((k, 0), "one", t, (m, "model"), 60))
            todo.append((("r", 0), "conc", t, (150 if tier == "quick" else 1000, "replay"), 60))
            got = pool(todo, procs, max(0, min(90, t_replay - time.time()))) if not any(v["replayed"] for v in viol) else {}
            found = None
            for (k, _), (st, x) in got.items():
                if st != "ok":
                    continue
                if k == "r":
                    if x["fail"] and not found:
                        found = (None, x["fail"]["message"], x["fail"]["values"])
                elif x["bad"]:
                    found = (cands[k], x["msg"], x["values"])
                    break
            if found:
                c0 = found[0] or cands[0]
                if not any(v["task"] == t.name for v in viol):
                    viol.append(dict(name=t.name, task=t.name, obligation=c0[0], replayed=True, values=clean(found[2]),
                                     message=f"{found[1]} (obligation {c0[0]} {c0[3]}; counterexample confirmed on the real code)", verifier_output=str(c0[2])[:2000]))
            else:
                for n, m, why, st in cands[:6]:
                    und.append(f"{t.name}/{n}: {st}; {str(why)[:200]}")
                # "unknown" counts only where the committed code needs little solver time (no alarm from a slow machine) and no
                # invariant, witness or instance of a precondition has to be found
                bad = [c for c in cands if c[0] in bl.get("obligations", [])
                       and (c[3] == "refuted" or c[3] == "unknown" and not r["weak"] and bl.get("secs", {}).get(c[0], 99) < 1.0)]
                # a solver verdict against an obligation that the committed code discharges, on changed source
                if bad and changed and complete and not any(v["task"] == t.name for v in viol):
                    c0 = ([c for c in bad if c[3] == "refuted"] or bad)[0]
                    viol.append(dict(name=t.name, task=t.name, obligation=c0[0], replayed=False, values=clean(c0[1]) if c0[1] else None,
                                     message=f"obligation {c0[0]} of contract {t.name} is no longer discharged ({c0[3]})", verifier_output=f"{c0[3]}: {str(c0[2])[:3000]}"))
        for w in r["outside"][:3]:
            und.append(f"{t.name}: outside the modelled subset: {w}")
        if r["vacuous"]:
            und.append(f"{t.name}: vacuous ({r['vacuous']})")
    # contracts of functions outside the public interface: a change that keeps the behaviour may move
    # their duties elsewhere, so their failure only makes the bounded layer search longer
    inner = {t.name for t in tasks if any(k == "ok" and r.get("internal") for k, r in (out.get((t.name, j), ("", None)) for j in ("sym", "conc")))}
    suspect = [v for v in viol if v["task"] in inner]
    viol = [v for v in viol if v["task"] not in inner]
    for v in suspect:
        und.append(f"{v['task']} (internal function): {v['message'][:300]}")
    for u in und[:20]:
        log.append(f"undischarged: {u}")
    cov = dict(obligations=max(n_ob, 0), discharged=n_dis, obligation_instances=inst, checker_cmd=f"/opt/venv/bin/python /verif/run.py check {prop}",
               trusted_base=TRUSTED, functions_under_contract=sorted(functions), backends=backends, solver_s=round(solver_s, 1), solver_queries=queries,
               paths=paths, tasks=per_task, undischarged=und[:40])
    return dict(suspect=suspect, log=log, violations=viol, coverage=cov, assumptions=sorted(assumes), undischarged=und)


def redo(rec, repo):
    """replay of a reported obligation"""
    tasks = {t.name: t for t in load_tasks().get(rec["property"], [])}
    t = tasks.get(rec["task"])
    if t is None:
        print("no such contract")
        return 1
    if rec.get("replayed") and rec.get("values") is not None:
        bad, msg, used, internal = conc_run(t, rec["values"], "again")
        print("still fails: " + msg if bad else "passes now")
        return 1 if bad else 0
    kind, r = pool([("x", "sym", t, (repo, "quick"), t.secs + 30)], 1, t.secs + 60)["x"]
    if kind != "ok":
        print(r)
        return 1
    bad = [o for o in r["obligations"] if o["status"] != "discharged"]
    for o in bad:
        print(o["name"], o["status"], str(o["reason"])[:1000])
    return 1 if bad or r["outside"] else 0


def write_baseline(repo="/repo", only=()):
    """records what the committed code discharges (run by hand; checks never write it)"""
    tasks = load_tasks()
    jobs = []
    for prop, ts in tasks.items():
        for t in ts if not only or prop in only else ():
            jobs.append(((prop, t.name), "sym", t, (repo, "quick"), t.secs + 60))
    out = pool(jobs, 8, 7200)
    base = {k: v for k, v in read_baseline().items() if only and k.split("/")[0] not in only}
    for (prop, n), (kind, r) in sorted(out.items()):
        if kind != "ok":
            print("ERR", prop, n, r.splitlines()[0])
            continue
        by = summarise(r)
        complete = not r["outside"] and not r["vacuous"] and not r["exceptions"]
        good = sorted(k for k, d in by.items() if complete and d["discharged"] and not (d["refuted"] or d["unknown"] or d["undischarged"]))
        secs = {}
        for o in r["obligations"]:
            secs[o["name"]] = max(secs.get(o["name"], 0), o["secs"])
        base[f"{prop}/{n}"] = dict(hash=r["hash"], obligations=good, secs={k: 0.5 if v < 1 else round(v) for k, v in secs.items() if k in good}, open=sorted(set(by) - set(good)), functions=r["functions"])
        print(prop, n, f"{len(good)}/{len(by)} paths={r['paths']} {r['secs']:.1f}s", r["outside"][:1], r["vacuous"] or "", [e[0] for e in r["exceptions"][:1]])
    json.dump(base, open(BASELINE, "w"), indent=1, sort_keys=True)
    open(BASELINE, "a").write("\n")


if __name__ == "__main__":
    sys.path[:0] = ["/repo", HERE]
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    write_baseline(only=sys.argv[1:])
