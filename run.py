#!/usr/bin/env python
"""Entry point of every check.

    run.py check C05 [--thorough]     decide one property on /repo's current tree
    run.py replay FILE                re-run what a VIOLATION line refers to
    run.py setup                      sanity of the tool chain (setup_cmd)

Exit 0: the property held on everything explored; exit 1 with a VIOLATION line otherwise.
"""
from __future__ import annotations

import json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/bin/python"
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

for k, v in dict(PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                 MKL_NUM_THREADS="1", PYVISTA_OFF_SCREEN="true", PYTHONHASHSEED="0",
                 HOME=os.environ.get("HOME", "/tmp")).items():
    os.environ.setdefault(k, v)
sys.dont_write_bytecode = True
if os.path.realpath(sys.executable) != os.path.realpath(VENV) and os.environ.get("VERIF_REEXEC") is None and os.path.exists(VENV):
    os.environ["VERIF_REEXEC"] = "1"
    os.execv(VENV, [VENV, *sys.argv])
sys.path[:0] = [REPO, HERE]
sys.path.append(TOOLS)

REPLAYS = os.path.join(HERE, "replays")
EVIDENCE = os.path.join(HERE, "evidence")


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, default=str)
        f.write("\n")
    os.replace(tmp, path)


def seed_and_tier(argv):
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    return seed, tier


def violation(prop, replay, found_input=True):
    print(f"VIOLATION property={prop} replay={replay}" + ("" if found_input else " no-failing-input-found"), flush=True)


def check(prop, argv):
    from plan import PLAN

    t0 = time.time()
    seed, tier = seed_and_tier(argv)
    plan = PLAN[prop]
    quick = tier == "quick"
    viol = []  # (replay path, found_input)

    # ---- import of the code under verification
    try:
        import pvgridder  # noqa

        src = os.path.realpath(pvgridder.__file__)
        assert src.startswith(os.path.realpath(REPO)), src
    except Exception as e:
        path = os.path.join(REPLAYS, f"{prop}-import.json")
        write_json(path, dict(property=prop, kind="import", message=f"{type(e).__name__}: {e}"))
        print(f"pvgridder cannot be imported: {type(e).__name__}: {e}")
        violation(prop, path)
        write_json(os.path.join(EVIDENCE, f"{prop}.json"),
                   dict(property=prop, tier=tier, seed=seed, level=plan["level"], wall_s=round(time.time() - t0, 2), violations=1,
                        coverage=dict(evaluations=1, distinct_nontrivial=0, rule="import of the package", samples=[str(e)],
                                      obligations=0, discharged=0, checker_cmd="run.py", trusted_base=["none"],
                                      explanation="the package could not be imported")))
        return 1

    # ---- deductive layer: obligations generated from the current source
    ded = None
    if plan.get("proof"):
        from pvc.driver import decide

        ded = decide(prop, plan["proof"], REPO, tier)
        for line in ded["log"]:
            print(line)
        for v in ded["violations"]:
            path = os.path.join(REPLAYS, f"{prop}-{v['name']}.json".replace("/", "_"))
            write_json(path, dict(property=prop, kind="obligation", **v))
            print(f"obligation {v['name']} fails: {v['message']}")
            viol.append((path, bool(v.get("replayed"))))

    # ---- bounded layer: runtime contracts on the real code
    stats = None
    if plan.get("rt", True):
        import rt.all  # noqa
        from rt.core import confirm, explore

        budget, n = (plan.get("quick_s", 25.0), plan.get("quick_n", 600)) if quick else (plan.get("thorough_s", 600.0), plan.get("thorough_n", 40000))
        if ded is not None and (ded["suspect"] or ded["undischarged"]) and quick and not ded["violations"]:
            budget, n = 3 * budget, 4 * n  # something is no longer proved: look harder
        elif viol and viol[0][1] and quick:
            budget, n = 5.0, 100  # decided already
        stats, fails = explore(prop, seed, budget, n, procs=8, case_timeout=60.0 if quick else 120.0)
        for f in fails[:3]:
            still, msg, notes = confirm(prop, f["gen"], f["index"], seed)
            if not still:
                print(f"note: case {f['gen']}#{f['index']} failed once ({f['msg']}) but not when repeated; not reported")
                continue
            path = os.path.join(REPLAYS, f"{prop}-{f['gen']}-{f['index']}.json")
            write_json(path, dict(property=prop, kind="case", gen=f["gen"], index=f["index"], seed=seed, message=msg, input=notes or f["notes"]))
            print(f"contract of {prop} fails on case {f['gen']}#{f['index']}: {msg}")
            viol.append((path, True))
            break
        if stats["ok"] == 0 and not viol:
            print(f"ERROR: no case of {prop} reached its contract", file=sys.stderr)
            return 3

    # ---- known findings
    import known

    for text in known.confirmed(prop):
        print(f"KNOWN-FINDING: property={prop} {text}")

    # ---- a failed obligation is reported with an input when the bounded layer has one
    if viol:
        best = [v for v in viol if v[1]] or viol
        violation(prop, *best[0])

    cov = {}
    if ded is not None:
        cov.update(ded["coverage"])
    if stats is not None:
        cov.update(evaluations=stats["evaluations"], distinct_nontrivial=stats["distinct_nontrivial"],
                   rule=plan.get("rule", "seeded random inputs of the generators below, each executed on the real code with the runtime form of the contract; non-trivial: the contract was evaluated to the end on a distinct input (inputs outside the precondition are skipped)"),
                   samples=stats["samples"] or ["-"], bounded_generators=stats["per_gen"], skipped=stats["skip"])
    write_json(os.path.join(EVIDENCE, f"{prop}.json"),
               dict(property=prop, tier=tier, seed=seed, level=plan["level"], coverage=cov,
                    assumptions=plan.get("assumptions", []) + (ded["assumptions"] if ded else []),
                    wall_s=round(time.time() - t0, 2), violations=len(viol)))
    if ded is not None:
        print(f"{prop}: {cov['discharged']}/{cov['obligations']} obligations discharged, {len(ded['undischarged'])} undischarged")
    if stats is not None:
        print(f"{prop}: bounded layer {stats['ok']} cases ok, {stats['skip']} skipped, {time.time() - t0:.1f} s")
    return 1 if viol else 0


def replay(path):
    rec = json.load(open(path))
    print(json.dumps(rec, indent=1)[:6000])
    if rec["kind"] == "case":
        import rt.all  # noqa
        from rt.core import confirm

        still, msg, _ = confirm(rec["property"], rec["gen"], rec["index"], rec["seed"])
        print("still fails:" if still else "passes now", msg or "")
        return 1 if still else 0
    if rec["kind"] == "obligation":
        from pvc.driver import redo

        return redo(rec, REPO)
    return 1


def setup():
    import z3, numpy, pyvista  # noqa

    import rt.all  # noqa

    print("tool chain ok: z3", z3.get_version_string(), "numpy", numpy.__version__, "pyvista", pyvista.__version__)
    os.makedirs(EVIDENCE, exist_ok=True)
    return 0


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    if argv[0] == "setup":
        return setup()
    if argv[0] == "replay":
        return replay(argv[1])
    if argv[0] == "check":
        return check(argv[1], argv[2:])
    return 2


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
