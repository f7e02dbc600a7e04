"""Checks decided on declarations compiled with the real macros (engine A)."""
import json, os, re
import common as C
import fam, ha


def crate(pid, mods, kind):
    """mods: [(key, rust text with `pub fn h()`, description)]"""
    d = os.path.join(C.WORK, "rt_" + pid + kind)
    name = ("rt_" + pid + kind).lower()
    C.write(os.path.join(d, "Cargo.toml"), f"""[package]
name = "{name}"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
pin-project = {{ path = "{C.REPO}" }}
[profile.release]
opt-level = 0
lto = "fat"
codegen-units = 1
debug-assertions = false
overflow-checks = false
panic = "unwind"
incremental = false
""")
    C.write(os.path.join(d, "src/rt.rs"), open(os.path.join(C.VERIF, "rt/rt.rs")).read())
    s = "#![allow(warnings)]\nmod rt;\n"
    for key, text, _ in mods:
        s += f"mod s_{key};\n#[no_mangle]\npub extern \"C\" fn h_{key}() {{\n    s_{key}::h()\n}}\n"
        C.write(os.path.join(d, f"src/s_{key}.rs"), "use crate::rt::*;\nuse core::pin::Pin;\n" + text)
    s += "static TABLE: &[(&str, extern \"C\" fn())] = &[" + ", ".join(f"(\"h_{k}\", h_{k})" for k, _, _ in mods) + "];\n"
    s += """fn main() {
    let want = std::env::args().nth(1).unwrap_or_default();
    for (n, f) in TABLE {
        if *n == want {
            f();
            return;
        }
    }
    std::process::exit(3);
}
"""
    C.write(os.path.join(d, "src/main.rs"), s)
    return d, name


def build(rep, pid, mods, kind=""):
    """Builds; declarations whose expansion is rejected by rustc are violations and are left out."""
    bad = {}
    for _ in range(12):
        live = [m for m in mods if m[0] not in bad]
        if not live:
            return None, [], bad
        d, name = crate(pid, live, kind)
        b = C.cargo_ll(d, name)
        if b.ok:
            return b, live, bad
        found = False
        keys = {m[0] for m in live}
        for lines, text, tgt in b.errors:
            for f, l in lines:
                m = re.search(r"src/s_(\w+)\.rs$", f)
                if m and m.group(1) in keys:
                    bad.setdefault(m.group(1), text)
                    found = True
        if not found:
            # the crate under test itself does not build, or rustc crashed: not a verdict
            raise C.Broken("harness does not build:\n" + (b.stderr[-1500:] or "") + "\n".join(e[1] for e in b.errors[:5])[-3000:])
    raise C.Broken("harness does not build after leaving out " + ", ".join(bad))


def explore(rep, b, live, prefix="h_", timeout=600, msgs=None, need_reach=(), extra=()):
    """Runs the engine over every harness, replays, records."""
    msgs = msgs or {}
    j = C.symll(b.ll, prefix=prefix, timeout=timeout, extra=["--samples", "1", *extra])
    desc = {"h_" + k: (k, t, dsc) for k, t, dsc in live}
    fns = C.demangle([f for f in j["functions"]])
    for f in fns:
        if "pin_project" in f or "::project" in f or "s_" in f and ("PinnedDrop" in f or "Drop" in f):
            rep.ev["functions"].add(re.sub(r"^_+", "", f)[:160])
    reached = {}
    replayed = 0
    for e in j["entries"]:
        for k in ("paths", "queries", "sat", "unsat", "steps"):
            rep.add(k, e[k])
        rep.ev["solver_s"] += e["solver_s"]
        rep.ev["assertions"] += e["asserts"]
        rep.ev["assertions_symbolic"] += e["asserts_symbolic"]
        for k, n in e["reach"].items():
            reached[k] = reached.get(k, 0) + n
        key, text, dsc = desc[e["entry"]]
        for v in e["violations"]:
            ok, how = C.replay_native(b.exe, e["entry"], v["values"])
            if not ok and v["kind"] in ("memory", "unreachable", "assert"):
                ok, how2 = C.replay_valgrind(b.exe, e["entry"], v["values"])
                how += "; " + how2
            what = msgs.get(v["id"], f"assertion {v['id']}") if v["kind"] == "assert" else v["kind"] + ": " + v["msg"][:300]
            if not ok:
                raise C.Broken(f"counterexample does not reproduce: {e['entry']} {v} ({how})")
            rep.violation(f"{dsc}: {what} [inputs {v['values']}] ({how})", {"declaration": text.split("fn mk")[0], "entry": e["entry"], "violation": v, "native": how, "executable": b.exe})
        if e["violations"]:
            continue
        if e["inconclusive"] or e["unknown"]:
            raise C.Broken(f"inconclusive: {e['entry']}: {e['inconclusive']} unknown={e['unknown']}")
        for s in e["samples"]:
            ok, how = C.replay_native(b.exe, e["entry"], s["values"])
            if ok:
                raise C.Broken(f"a path the engine passes fails natively: {e['entry']} {s}: {how}")
            replayed += 1
        for r in need_reach:
            if str(r) not in e["reach"]:
                raise C.Broken(f"vacuous: {e['entry']} never reaches point {r}")
        if len(rep.ev["samples"]) < 6 and e["samples"]:
            rep.ev["samples"].append({"declaration": dsc, "paths": e["paths"], "inputs_of_a_path": e["samples"][0]["values"][:24]})
    if not j["complete"] and not rep.viol:
        raise C.Broken("exploration not finished within its time")
    rep.add("replayed", replayed)
    rep.ev["reached"] = {**rep.ev.get("reached", {}), **reached}
    return j


def report_bad(rep, bad, mods, why):
    for key, err in bad.items():
        t = [m for m in mods if m[0] == key][0]
        rep.violation(f"{t[2]}: {why}: rustc rejects the expansion: {err[:600]}", {"declaration": t[1].split("fn mk")[0], "rustc": err})
