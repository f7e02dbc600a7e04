import json, os, time
from common import VERIF, SEED

ENGINE_BASE = [
    "rustc (lowering of the compiled crates to LLVM IR) and the LLVM IR semantics as implemented in /verif/engine",
    "Z3 4.8.12 (satisfiability verdicts)",
]


def write_evidence(rep, lines):
    ev = rep.ev
    fns = sorted(ev["functions"])
    cov = {
        "states": ev["paths"],
        "transitions": ev.get("steps", 0),
        "traces_validated_against_impl": ev.get("replayed", 0),
        "samples": ev["samples"][:6],
        "functions_encoded": fns[:400],
        "functions_encoded_count": len(fns),
        "bounds": ev["bounds"],
        "outside_the_bounds": ev.get("outside", []),
        "solver": {"queries": ev["queries"], "sat": ev["sat"], "unsat": ev["unsat"], "seconds": round(ev["solver_s"], 3)},
        "assertions_checked": ev["assertions"],
        "assertions_symbolic": ev["assertions_symbolic"],
        "meaning": ev.get("meaning", "states = symbolic paths explored to their end; transitions = LLVM IR instructions executed symbolically; traces_validated_against_impl = path witnesses and counterexamples replayed on the natively compiled code with the same outcome"),
    }
    for k in ("families", "reached", "cross_solver", "detail", "vacuity"):
        if k in ev:
            cov[k] = ev[k]
    out = {
        "property": rep.pid,
        "tier": rep.tier,
        "seed": SEED,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": ev.get("assumptions", []) + ENGINE_BASE,
        "wall_s": round(time.time() - rep.t0, 2),
        "violations": len(lines),
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, rep.pid + ".json"), "w") as f:
        json.dump(out, f, indent=1)
