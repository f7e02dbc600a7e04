"""What rustc knows about a crate that uses the macros (facts/src/main.rs), as JSON."""
import glob, json, os, re
import common as C

TC = "nightly"
_drv = None


def driver():
    global _drv
    if _drv:
        return _drv
    tgt = os.path.join(C.WORK, "facts")
    for _ in range(2):
        r = C.run(["cargo", "build", "--release", "--offline", "--manifest-path", os.path.join(C.VERIF, "facts/Cargo.toml"), "--target-dir", tgt], env=C.env(TC), timeout=600)
        if r.returncode == 0:
            break
    else:
        raise C.Broken("facts driver does not build:\n" + r.stderr[-3000:])
    root = C.run(["rustc", "--print", "sysroot"], env=C.env(TC)).stdout.strip()
    _drv = (os.path.join(tgt, "release/facts"), root)
    return _drv


_lib = None


def library():
    """pin-project as compiled from the repository by the driver's compiler."""
    global _lib
    if _lib:
        return _lib
    d = os.path.join(C.WORK, "factslib")
    C.write(os.path.join(d, "Cargo.toml"), f"""[package]
name = "factslib"
version = "0.0.0"
edition = "2021"
[workspace]
[lib]
path = "lib.rs"
[dependencies]
pin-project = {{ path = "{C.REPO}" }}
""")
    C.write(os.path.join(d, "lib.rs"), "pub use pin_project;\n")
    r = C.run(["cargo", "build", "--offline", "--message-format=json", "--target-dir", os.path.join(d, "target")], cwd=d, env=C.env(TC), timeout=600)
    if r.returncode != 0:
        raise C.Broken("pin-project does not build:\n" + r.stderr[-2000:])
    main, dirs = None, []
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") != "compiler-artifact":
            continue
        fs = m["filenames"]
        for f in fs:
            dirs.append(os.path.dirname(f))
        if m["target"]["name"] in ("pin_project", "pin-project"):
            meta = [f for f in fs if f.endswith(".rmeta")] or [f for f in fs if f.endswith(".rlib")]
            main = meta[0]
    if not main:
        raise C.Broken("no pin-project library among cargo's artifacts")
    _lib = (main, sorted(set(dirs)))
    return _lib


def run(text, name):
    """(facts or None, [(line, message)])"""
    exe, root = driver()
    main, dirs = library()
    d = os.path.join(C.WORK, "factsrun", name)
    os.makedirs(d, exist_ok=True)
    src, out = os.path.join(d, "lib.rs"), os.path.join(d, "facts.json")
    with open(src, "w") as f:
        f.write(text)
    if os.path.exists(out):
        os.remove(out)
    cmd = [exe, out, "--sysroot", root, "--edition", "2021", "--crate-name", "fam", "--crate-type", "lib", "--error-format=json", "-Awarnings", "--extern", "pin_project=" + main]
    for x in dirs:
        cmd += ["-L", "dependency=" + x]
    r = C.run(cmd + [src], env=C.env(TC, LD_LIBRARY_PATH=os.path.join(root, "lib")), timeout=300, cwd=d)
    errs = []
    for l in r.stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("level") == "error" and (m["spans"] or "aborting due to" not in m["message"]):
            lines = []
            for sp in m["spans"]:
                if sp["is_primary"] or True:
                    while sp:
                        if sp["file_name"].endswith("lib.rs"):
                            lines.append(sp["line_start"])
                        sp = (sp.get("expansion") or {}).get("span")
            errs.append((lines, m.get("rendered") or m["message"]))
    if os.path.exists(out):
        return json.load(open(out)), errs
    if not errs:
        raise C.Broken("facts driver failed: " + r.stderr[-1500:])
    return None, errs
