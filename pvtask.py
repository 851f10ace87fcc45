"""Development runner: pvtask.py PROP [TASK ...] -- symbolic and concrete reading of contract tasks."""
import os, sys, time
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [REPO, HERE]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from pvc.driver import load_tasks, run_task, conc_many, pool, summarise

tasks = load_tasks()
sel = [t for p in sys.argv[1].split(",") for t in tasks.get(p, []) if len(sys.argv) < 3 or t.name in sys.argv[2:]]
tier = os.environ.get("VERIF_TIER", "quick")
one = len(sel) == 1 and os.environ.get("PVC_DEBUG")
if one:
    out = {(sel[0].name, "sym"): ("ok", run_task(sel[0], REPO, tier)), (sel[0].name, "conc"): ("ok", conc_many(sel[0], sel[0].n_conc, "1"))}
else:
    out = pool([((t.name, "sym"), "sym", t, (REPO, tier), t.secs * 3 + 30) for t in sel] + [((t.name, "conc"), "conc", t, (t.n_conc, "1"), 100) for t in sel], 8, 3600)
for t in sel:
    k, r = out[(t.name, "sym")]
    print(f"== {t.prop}/{t.name}")
    if k != "ok":
        print("   ERR", r)
    else:
        print(f"   paths {r['paths']} dead {r['dead']} {r['secs']:.1f}s solver {r['solver_s']:.1f}s queries {r['queries']} {r['vacuous'] or ''}")
        for n, d in summarise(r).items():
            bad = d["refuted"] or d["unknown"] or d["undischarged"]
            if bad or os.environ.get("V"):
                print("   ", "BAD" if bad else "OK ", n, {a: b for a, b in d.items() if b})
        print("    discharged obligations:", sum(1 for d in summarise(r).values() if not (d["refuted"] or d["unknown"] or d["undischarged"])), "of", len(summarise(r)))
        for o in [o for o in r["obligations"] if o["status"] != "discharged"][:int(os.environ.get("SHOW", 2))]:
            print("      ", o["name"], o["status"], o["reason"][:600], o["model"])
        for w in r["outside"][:3]:
            print("    outside:", w)
        for e in r["exceptions"][:3]:
            print("    exception:", e)
    k, r = out[(t.name, "conc")]
    print("   conc", r if k != "ok" else (r["ok"], r["skipped"], r["fail"]))
