#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN = "symbolic execution of the compiled expansion (LLVM IR), Z3"
MAC = "symbolic execution of the macro's own code (LLVM IR), Z3"
TYP = "SMT encoding of the type-checked expansion (rustc facts), Z3"
TRUST = " Trusted: rustc's lowering, the IR interpreter in engine/ (validated by replaying path witnesses natively), Z3. Counterexamples are replayed on natively compiled code before they are reported."
RUN_NOTE = "Every path and every field value, within the stated family of declarations, of the code the real macros generate and rustc compiles." + TRUST
C = {
    "C01": (RUN, RUN_NOTE),
    "C06": (RUN, RUN_NOTE + " All combinations of old and new variant."),
    "C07": (RUN, RUN_NOTE + " All sets of panicking destructors of the old value."),
    "C08": (RUN, RUN_NOTE + " All sets of panicking destructors."),
    "C09": (RUN, RUN_NOTE + " All histories up to 3 (thorough: 4) operations on 7 shapes."),
}
MAC_NOTE = "The macros' own code (with syn, quote and proc_macro2) runs symbolically on token streams with symbolic identifiers and shapes; an SMT query decides each branch and assertion. A counterexample is re-run natively and then settled by compiling the program it describes with rustc against /repo." + TRUST
for k in ("C10", "C11", "C12", "C13", "C16", "C17", "C20"):
    C[k] = (MAC, MAC_NOTE)
C["C15"] = (RUN + "; " + MAC, RUN_NOTE + " " + MAC_NOTE)
TYP_NOTE = "rustc expands and type-checks the declarations with /repo's macros; types, impls, bounds, signatures and visibilities are encoded for SMT with everything the declaration leaves open (which parameters are Unpin, which impl the user writes, which module looks) as variables. Z3 decides, cvc5 cross-checks every verdict, and witnesses of both outcomes are compared with rustc's own verdict on concrete programs, which is also how a counterexample is confirmed. Trusted: rustc, Z3, the trait-selection encoding as far as the comparison does not reach."
for k in ("C02", "C03", "C04", "C05", "C14", "C19"):
    C[k] = (TYP, TYP_NOTE)
C["C18"] = (MAC + "; " + TYP, MAC_NOTE + " " + TYP_NOTE)
NA = {"C21": "whether a lint fires is decided by some hundred hand-written passes inside rustc and clippy over spans and macro backtraces of the user's crate; neither their code nor span hygiene is part of /repo or can be encoded, and compiling sample programs under lints would be sampling, not solving"}
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = [{"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p} --tier thorough", "evidence_file": f"evidence/{p}.json",
           "technique": C[p][0], "level": "model_checking", "level_note": C[p][1]} for p in props if p in C]
na = [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in C]
json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
