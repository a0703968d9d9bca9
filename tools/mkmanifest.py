"""Writes /verif/MANIFEST.json. python3-vt tools/mkmanifest.py validates it too."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = ("Seeded search over thread schedules and histories; samples, no proof. Real library code compiled from /repo with "
       "instrumentation; the simulator owns scheduling at every basic block, futexes, clocks, heap failures. Interleavings are "
       "sequentially consistent (weak-memory reorderings are not simulated). ")
PIPE = ("Seeded search over schedules and fault sequences; samples, no proof. The real program from /repo's tree runs unmodified "
        "on small grids (a few values per axis, six momenta, loosened integration tolerance); file system calls are real inside a "
        "scratch directory with faults injected at the libc boundary; python3/matplotlib is a recording stub. ")
C = {
 "C01": ("deterministic simulation of threads changing settings during field-configuration evaluations, against a fresh-process reference", LIB + "Oracle: the same call alone in a fresh process whose settings match the configuration."),
 "C02": ("deterministic simulation of clone/edit/evaluate histories across threads, against a freshly built configuration", LIB + "Oracle: the same call on a configuration built from the current contents in a fresh process."),
 "C03": ("deterministic simulation of settings histories handed between threads, against an executable settings model", LIB + "Oracle: a model of the settings plus fresh-process evaluation and the explicit field configuration to 1e-9."),
 "C04": ("deterministic simulation of default-integration histories, default call against explicit-method call", LIB + "Oracle: bit equality with the explicit-method call, in the same run and in a fresh process."),
 "C05": ("deterministic simulation of interleaved evaluations with injected panics, against fresh-process values", LIB + "Oracle: bit equality with the call alone in a fresh process."),
 "C06": ("deterministic simulation of rejected settings racing with readers up to termination", LIB + "Oracle: no read or evaluation ever observes the rejected value; the call never returns."),
 "C07": ("deterministic simulation of root searches over misbehaving and panicking functions, against a reference search contract", LIB + "Oracle: the recorded evaluations of the searched function."),
}
NA = {
 "N01": "pure sequential numerics of single calls: no schedule, clock, I/O or fault can enter, so simulation decides nothing that plain input sampling would not",
 "N02": "pure sequential equality of two single calls, with no concurrency, time or I/O for a simulator to control",
 "N03": "mathematical limits of pure functions; no nondeterminism to simulate",
 "N04": "algebraic identities of pure functions; no nondeterminism to simulate",
 "N05": "a pure sequential numerical inversion; the part of it that depends on misbehaving callbacks and shared state is claimed as C07",
 "N06": "agreement of pure functions with published formulas; needs an independent formula oracle, not a simulator",
}
import sys
sys.path.insert(0, os.path.join(V, "tools"))
try:
    from pipemanifest import PC, HOOKS
except ImportError:
    PC, HOOKS = {}, None
for k, (t, n) in PC.items():
    C[k] = (t, PIPE + n if n.startswith("Oracle") else n)
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
for p in props:
    if p not in C and p not in NA:
        NA[p] = "no check built yet in this work"
m = {"version": 1, "setup_cmd": "./check setup", "checks": [], "not_applicable": []}
if HOOKS:
    m["hooks"] = HOOKS
for p in props:
    if p in C:
        m["checks"].append({"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "env VERIF_TIER=thorough ./check " + p,
                            "technique": C[p][0], "level": "exploration", "level_note": C[p][1]})
    else:
        m["not_applicable"].append({"property": p, "reason": NA[p]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid")
except ImportError:
    pass
