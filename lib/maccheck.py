"""Checks decided on the macros' own code: the proc-macro crate compiled as an ordinary library (engine B)."""
import glob, json, os, re, shutil, subprocess
import common as C

FEATURES = 'features = ["parsing", "printing", "clone-impls", "full", "visit-mut"]'


def transform(dst):
    """Copies the macro crate's sources, with proc_macro replaced by proc_macro2 so that it runs outside rustc."""
    src = os.path.join(C.REPO, "pin-project-internal/src")
    want = set()
    entry = {}
    for root, _, files in os.walk(src):
        for f in files:
            if not f.endswith(".rs"):
                continue
            p = os.path.join(root, f)
            rel = os.path.relpath(p, src)
            t = open(p).read()
            for m in re.finditer(r"#\[\s*(proc_macro_attribute|proc_macro_derive|proc_macro)\b(\([^\]]*\))?\s*\](?:\s*(?://[^\n]*|#\[[^\]]*\]))*\s*pub\s+fn\s+(\w+)", t):
                if rel == "lib.rs":
                    if m.group(1) == "proc_macro_derive":
                        entry["derive"] = (m.group(3), re.match(r"\(\s*(\w+)", m.group(2)).group(1))
                    elif m.group(1) == "proc_macro_attribute":
                        entry[m.group(3)] = (m.group(3), None)
            t = re.sub(r"#\[\s*proc_macro(_attribute|_derive)?\b(\([^\]]*\))?\s*\]", "", t)
            t = re.sub(r"\bproc_macro::", "proc_macro2::", t)
            t = re.sub(r"(?m)^\s*extern crate proc_macro\s*;", "", t)
            t = re.sub(r"\b(?:::)?syn::parse_macro_input!", "crate::__pmi!", t)
            t = re.sub(r"(?<![:\w])parse_macro_input!", "crate::__pmi!", t)
            t = re.sub(r"\bparse_macro_input\b(?=\s*[,}])", "parse as __parse_unused", t)
            if rel == "lib.rs":
                # after the inner attributes and comments: anywhere at item level will do for a textual-order-free macro
                t += """
#[macro_export]
macro_rules! __pmi {
    ($x:ident as $t:ty) => { match ::syn::parse2::<$t>($x) { Ok(v) => v, Err(e) => return e.to_compile_error() } };
    ($x:ident) => { match ::syn::parse2($x) { Ok(v) => v, Err(e) => return e.to_compile_error() } };
}
"""
            d = os.path.join(dst, rel)
            C.write(d, t)
            want.add(d)
    for root, _, files in os.walk(dst):
        for f in files:
            if os.path.join(root, f) not in want:
                os.remove(os.path.join(root, f))
    for k in ("derive", "pin_project", "pinned_drop"):
        if k not in entry:
            raise C.Broken(f"macro entry point {k} not found in the macro crate's lib.rs")
    lib = os.path.join(dst, "lib.rs")
    t = open(lib).read()
    t += f"""
pub mod __entry {{
    pub const DERIVE_NAME: &str = "{entry['derive'][1]}";
    #[inline(never)]
    pub fn attribute(a: proc_macro2::TokenStream, b: proc_macro2::TokenStream) -> proc_macro2::TokenStream {{ crate::{entry['pin_project'][0]}(a, b) }}
    #[inline(never)]
    pub fn derive(a: proc_macro2::TokenStream) -> proc_macro2::TokenStream {{ crate::{entry['derive'][0]}(a) }}
    #[inline(never)]
    pub fn pinned_drop(a: proc_macro2::TokenStream, b: proc_macro2::TokenStream) -> proc_macro2::TokenStream {{ crate::{entry['pinned_drop'][0]}(a, b) }}
}}
"""
    C.write(lib, t)


def build(pid, files, opt=1):
    base = os.path.join(C.WORK, "mac_" + pid)
    ppi, h = os.path.join(base, "ppi"), os.path.join(base, "h")
    name = "mac_" + pid
    C.write(os.path.join(ppi, "Cargo.toml"), f"""[package]
name = "ppi"
version = "0.0.0"
edition = "2021"
[lib]
path = "src/lib.rs"
[dependencies]
proc-macro2 = {{ version = "1.0.60", default-features = false }}
quote = {{ version = "1.0.25", default-features = false }}
syn = {{ version = "2.0.1", default-features = false, {FEATURES} }}
""")
    tmp = os.path.join(base, "tmpsrc")
    shutil.rmtree(tmp, ignore_errors=True)
    transform(tmp)
    dst = os.path.join(ppi, "src")
    for root, _, fs in os.walk(dst):
        for f in fs:
            p = os.path.join(root, f)
            if not os.path.exists(os.path.join(tmp, os.path.relpath(p, dst))):
                os.remove(p)
    for root, _, fs in os.walk(tmp):
        for f in fs:
            p = os.path.join(root, f)
            C.write(os.path.join(dst, os.path.relpath(p, tmp)), open(p).read())
    shutil.rmtree(tmp, ignore_errors=True)
    C.write(os.path.join(h, "Cargo.toml"), f"""[package]
name = "{name}"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
ppi = {{ path = "../ppi" }}
proc-macro2 = {{ version = "1.0.60", default-features = false }}
syn = {{ version = "2.0.1", default-features = false, {FEATURES} }}
quote = {{ version = "1.0.25", default-features = false }}
[profile.release]
opt-level = {opt}
lto = "fat"
codegen-units = 1
debug-assertions = false
overflow-checks = false
panic = "abort"
incremental = false
[profile.release.package.ppi]
debug-assertions = true
overflow-checks = true
""")
    for f in ["sup.rs", *files]:
        C.write(os.path.join(h, "src", f), open(os.path.join(C.VERIF, "mac", f)).read())
    s = "#![allow(warnings)]\nmod sup;\n"
    names = []
    for f in files:
        m = f[:-3]
        s += f"mod {m};\n"
        for e in re.findall(r"pub fn (h_\w+)\(\)", open(os.path.join(C.VERIF, "mac", f)).read()):
            s += f'#[no_mangle]\npub extern "C" fn {e}() {{ {m}::{e}() }}\n'
            names.append(e)
    s += "static TABLE: &[(&str, extern \"C\" fn())] = &[" + ", ".join(f'("{e}", {e})' for e in names) + """];
fn main() {
    let want = std::env::args().nth(1).unwrap_or_default();
    for (n, f) in TABLE {
        if *n == want {
            f();
            return;
        }
    }
    std::process::exit(3);
}
"""
    C.write(os.path.join(h, "src/main.rs"), s)
    b = C.cargo_ll(h, name)
    if not b.ok:
        raise C.Broken("macro harness does not build:\n" + "\n".join(e[1] for e in b.errors[:5])[-3000:] + b.stderr[-1500:])
    b.names = names
    return b


def native(exe, entry, values, timeout=25):
    e = dict(os.environ)
    e["SYM_VALUES"] = ",".join(str(v) for v in values)
    e["SYM_SOFT"] = "1"
    e["RUST_BACKTRACE"] = "0"
    try:
        r = C.run([exe, entry], env=e, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        err = (x.stderr or b"").decode(errors="replace") if not isinstance(x.stderr, str) else x.stderr
        return -99, [], [tuple(n.split("=", 1)) for n in re.findall(r"SYM-NOTE (.*)", err)], err + f"\nno end within {timeout} s"
    fails = [int(x) for x in re.findall(r"SYM-ASSERT-FAIL (\d+)", r.stderr)]
    notes = [tuple(x.split("=", 1)) for x in re.findall(r"SYM-NOTE (.*)", r.stderr)]
    return r.returncode, fails, notes, r.stderr


def explore(rep, b, replay, entries=None, timeout=600, msgs=None, need=None, maxviol=150):
    """Runs every harness; a counterexample counts when the native run of the macro code and then
    `replay(notes, violation, stderr)` -> (confirmed, description), which asks rustc, agree."""
    msgs, need = msgs or {}, need or {}
    deep = rep.tier != "quick"
    entries = entries or [e for e in b.names if deep or not e.endswith("_deep")]
    timeout = max(timeout, 6000 if deep else 700)
    j = C.symll(b.ll, entries=entries, timeout=timeout, extra=["--samples", "1", "--max-viol", str(maxviol)])
    for f in C.demangle(list(j["functions"])):
        f = re.sub(r"::h[0-9a-f]{16}$", "", f)
        if "ppi" in f:
            rep.ev["functions"].add(f[:200])
    reached, replayed = {}, 0
    for e in j["entries"]:
        for k in ("paths", "queries", "sat", "unsat", "steps"):
            rep.add(k, e[k])
        rep.ev["solver_s"] += e["solver_s"]
        rep.ev["assertions"] += e["asserts"]
        rep.ev["assertions_symbolic"] += e["asserts_symbolic"]
        for k, n in e["reach"].items():
            reached[k] = reached.get(k, 0) + n
        confirmed = {}
        jobs = {}
        endless = [v for v in e["violations"] if v["kind"] == "endless"][1:] if not any("endless" in str(x) for x in rep.viol) else [v for v in e["violations"] if v["kind"] == "endless"]
        for v in e["violations"]:
            if v in endless:
                continue
            rc, fails, notes, err = native(b.exe, e["entry"], v["values"])
            if v["kind"] == "assert" and v["id"] not in fails:
                raise C.Broken(f"counterexample does not reproduce natively: {e['entry']} {v} rc={rc} {fails} {err[-300:]}")
            if v["kind"] != "assert" and rc == 0:
                ok, how = C.replay_valgrind(b.exe, e["entry"], v["values"])
                if not ok:
                    raise C.Broken(f"counterexample does not reproduce natively: {e['entry']} {v}")
            jobs.setdefault((v["kind"], v["id"], tuple(notes)), (v, notes, err))
        from concurrent.futures import ThreadPoolExecutor
        todo = list(jobs.values())
        for at in range(0, len(todo), 8):
            batch = [x for x in todo[at:at + 8] if len(confirmed.get((x[0]["kind"], x[0]["id"]), [])) < 1]
            if not batch or at >= 240:
                continue
            with ThreadPoolExecutor(8) as pool:
                for (v, notes, err), (ok, how) in zip(batch, pool.map(lambda x: replay(x[1], x[0], x[2]), batch)):
                    replayed += 1
                    if ok:
                        confirmed.setdefault((v["kind"], v["id"]), []).append(v)
                        what = msgs.get(v["id"], "assertion %d" % v["id"]) if v["kind"] == "assert" else v["kind"] + ": " + v["msg"][:300]
                        rep.violation(f"{what}: {dict(notes)} ({how})", {"entry": e["entry"], "violation": v, "input": notes, "how": how, "executable": b.exe})
                    else:
                        rep.add("unobservable", 1)
                        if len(rep.ev["notes"]) < 10:
                            rep.ev["notes"].append(f"macro-level difference without observable effect: {e['entry']} {v['kind']} {v['id']} {notes}: {how}")
        if e["inconclusive"] or e["unknown"]:
            if not rep.viol:
                raise C.Broken(f"inconclusive: {e['entry']}: {e['inconclusive']} unknown={e['unknown']}")
        if not e["violations"]:
            for s in e["samples"]:
                rc, fails, notes, err = native(b.exe, e["entry"], s["values"])
                if rc != 0 or fails:
                    raise C.Broken(f"a path the engine passes fails natively: {e['entry']} {s}: {rc} {fails} {err[-500:]}")
                replayed += 1
                if len(rep.ev["samples"]) < 12:
                    rep.ev["samples"].append({"harness": e["entry"], "paths": e["paths"], "input_of_a_path": notes})
            for r in need.get(e["entry"], need.get("*", ())):
                if str(r) not in e["reach"]:
                    raise C.Broken(f"vacuous: {e['entry']} never reaches point {r}")
    if not j["complete"] and not rep.viol:
        raise C.Broken("exploration not finished within its time")
    rep.add("replayed", replayed)
    rep.ev["reached"] = {**rep.ev.get("reached", {}), **{f"{k}": v for k, v in reached.items()}}
    return j
