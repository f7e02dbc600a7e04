"""Names on which the expansion depends: found with the solver, then tried out on declarations with these names.

The macro's own code is run on declarations with a symbolic name and with a fixed one (mac/names.rs); the two expansions
must be equal up to renaming. A name for which they are not is no violation by itself: the property is decided on
declarations that use it.
"""
import re
from concurrent.futures import ThreadPoolExecutor
import common as C
import e2e
import fam
import maccheck as M
import tyfam

DEFAULT, DROP, UNSAFE, NOT = range(4)
WHAT = "names of fields (1-10 characters), variants, the type, type and const parameters, projection types (1-10), field types (1-14), attributes (1-12), raw or not: the expansion is shown to depend on none of them except by using it (bytes symbolic), or the declarations are tried with each that makes a difference"


def suspects(rep, k, limit=12):
    b = M.build("names", ["names.rs"])
    rep.ev["bounds"].append(WHAT)
    entries = [e for e in b.names if e.endswith(f"_{k}")]
    j = C.symll(b.ll, entries=entries, timeout=700, extra=["--samples", "1", "--max-viol", "20"])
    found = []
    for e in j["entries"]:
        for x in ("paths", "queries", "sat", "unsat", "steps"):
            rep.add(x, e[x])
        rep.ev["solver_s"] += e["solver_s"]
        rep.ev["assertions"] += e["asserts"]
        rep.ev["assertions_symbolic"] += e["asserts_symbolic"]
        if (e["inconclusive"] or e["unknown"]) and not e["violations"]:
            raise C.Broken(f"inconclusive: {e['entry']}: {e['inconclusive']} unknown={e['unknown']}")
        if "2" not in e["reach"] and not e["violations"]:
            raise C.Broken(f"vacuous: {e['entry']}")
        for v in e["violations"]:
            rc, fails, notes, err = M.native(b.exe, e["entry"], v["values"])
            n = dict(notes)
            if "name" not in n or v["kind"] != "assert":
                continue  # a panic of the macro: C16
            x = (n["pos"], ("r#" if n["raw"] == "true" else "") + n["name"])
            if x not in found:
                found.append(x)
    if not j["complete"]:
        raise C.Broken("exploration not finished within its time")
    per = {}
    out = []
    for p, n in sorted(found, key=lambda x: len(x[1])):
        per[p] = per.get(p, 0) + 1
        if per[p] <= limit:
            out.append((p, n))
    if out:
        rep.ev["notes"].append("names on which the expansion depends: " + ", ".join(f"{p} {n}" for p, n in out))
    return out


def runtime(sus, gen):
    """Modules for engine A; gen(decl) -> text of the module."""
    out = []
    for si, (pos, n) in enumerate(sus):
        def add(d, edit=None, pre=""):
            d.key = f"nm{si}_{len(out)}"
            t = gen(d)
            if edit:
                t = edit(t)
            out.append((d.key, pre + t, f"{d.describe()} with the {pos} {n}"))

        def var(name, style, mask, names=None, ty=None, conc="F", attrs=None):
            v = fam.mkvar(name, style, mask, names)
            for i, f in enumerate(v.fields):
                if ty and i == 0:
                    f.ty, f.conc = ty, conc
                if attrs:
                    f.attrs = attrs[i]
            return v

        def shapes(gens="", inst="", pre="", **kw):
            for m in ((True, False), (False, True), (True, True)):
                add(fam.Decl("", "struct", [var(None, "named", m, **kw)], gen=gens, inst=inst, names=m[0]), pre=pre)
                add(fam.Decl("", "struct", [var(None, "tuple", m, **kw)], gen=gens, inst=inst, names=m[1]), pre=pre)
                add(fam.Decl("", "enum", [var("Va", "named", m, **kw), var("Vb", "tuple", m[::-1], **kw)], gen=gens, inst=inst), pre=pre)
        if pos == "field":
            for names in ([n, "a1"], ["a0", n]):
                shapes(names=names)
        elif pos == "variant":
            for m in ((True, False), (False, True)):
                add(fam.Decl("", "enum", [fam.mkvar(n, "named", m), fam.mkvar("Vb", "tuple", m[::-1])]))
                add(fam.Decl("", "enum", [fam.mkvar("Va", "named", m), fam.mkvar(n, "tuple", m[::-1]), fam.Variant("Vc", "unit", [])]))
                add(fam.Decl("", "enum", [fam.mkvar("Va", "tuple", m), fam.Variant(n, "unit", [])]))
        elif pos in ("type", "proj"):
            for old in (("D",) if pos == "type" else ("PMut", "PRef", "POwn")):
                for m in ((True, False), (False, True)):
                    edit = lambda t: re.sub(rf"\b{old}\b", n, t)
                    add(fam.Decl("", "struct", [fam.mkvar(None, "named", m)], names=True), edit)
                    add(fam.Decl("", "enum", [fam.mkvar("Va", "named", m), fam.mkvar("Vb", "tuple", m[::-1])]), edit)
        elif pos == "param":
            shapes(f"<{n}>", "<F>", ty=n)
        elif pos == "const":
            shapes(f"<const {n}: usize, T>", "<3, F>", ty="T")
            shapes(f"<const {n}: usize>", "<1>", ty=f"[F; {n}]", conc="[F; 1]")
        elif pos == "ftype":
            shapes(ty=n, pre=f"use crate::rt::Al as {n};\n")
            shapes(ty=n, conc="Np", pre=f"use crate::rt::Np as {n};\n")
        elif pos == "fwrap":
            shapes(ty=f"{n}<F>", conc="Gw<F>", pre=f"use crate::rt::Gw as {n};\n")
            shapes("<T>", "<F>", ty=f"{n}<T>", conc="Gw<F>", pre=f"use crate::rt::Gw as {n};\n")
        elif pos == "fpath":
            shapes(ty=f"self::nm::{n}", pre=f"mod nm {{ pub use crate::rt::Al as {n}; }}\n")
            shapes("<T>", "<F>", ty=f"self::nm::{n}<T>", conc="Gw<F>", pre=f"mod nm {{ pub use crate::rt::Gw as {n}; }}\n")
            shapes(ty=f"{n}::Al", pre=f"mod {n} {{ pub use crate::rt::Al; }}\n")
        elif pos == "attr":
            for a in (f"#[{n}]", f"#[{n}(dead_code)]", f"#[{n} = \"x\"]", f"#[{n}(all())]", f"#[{n}(C)]"):
                shapes(attrs=[a, ""])
                shapes(attrs=["", a])
                add(fam.Decl("", "struct", [fam.mkvar(None, "named", (True, False))], attrs=a))
                add(fam.Decl("", "enum", [fam.mkvar("Va", "named", (True, False)), fam.mkvar("Vb", "tuple", (False, True))], attrs=a))
    return out


NAMED = "project = Pm, project_ref = Pr, project_replace = Po"


def types(sus, args=NAMED, mode="default"):
    """Declarations for engine C, those that make sense without the macro (and, for attributes, with it)."""
    ds = types_(sus, args, mode)

    def fine(d):
        def text(attr):
            return "#![allow(warnings)]\n" + tyfam.PRELUDE + f"pub mod m_{d.key} {{ use super::pre::*;\n{d.decl(attr)}\n{d.extra}\n}}\n"
        return e2e.compile(text(False), "nmp" + d.key)[0] and (not any(isinstance(f[1], str) for _, _, fs in d.variants for f in fs) or e2e.compile(text(True), "nma" + d.key)[0])
    if not ds:
        return []
    with ThreadPoolExecutor(8) as pool:
        return [d for d, ok in zip(ds, pool.map(fine, ds)) if ok]


def types_(sus, args, mode):
    out = []
    T, U = ("type", "T", ""), ("type", "U", "")
    for si, (pos, n) in enumerate(sus):
        def add(kind, gens, variants, extra=""):
            out.append(tyfam.D(f"nm{si}_{len(out)}", kind, gens, "", variants, args=args, extra=extra, mode=mode))

        def shapes(gens, f, extra="", names=("f", "g")):
            g = gens[-1][1]
            for p in (True, False):
                add("struct", gens, [("", "named", [(names[0], p, f, "pub"), (names[1], not p, g, "pub")])], extra)
                add("struct", gens, [("", "named", [(names[0], p, g, "pub"), (names[1], p, f, "pub")])], extra)
                add("struct", gens, [("", "tuple", [("0", p, f, "pub"), ("1", not p, g, "pub")])], extra)
                add("enum", gens, [("A", "named", [(names[0], p, f, ""), (names[1], not p, g, "")]), ("B", "tuple", [("0", not p, g, ""), ("1", p, f, "")])], extra)
        if pos == "field":
            shapes([T, U], "T", names=(n, "g"))
            shapes([T, U], "T", names=("f", n))
        elif pos == "variant":
            for p in (True, False):
                add("enum", [T, U], [(n, "named", [("f", p, "T", ""), ("g", not p, "U", "")]), ("B", "tuple", [("0", p, "U", "")])])
                add("enum", [T, U], [("A", "unit", []), (n, "tuple", [("0", p, "T", ""), ("1", not p, "U", "")])])
        elif pos == "param":
            shapes([("type", n, ""), U], n)
            shapes([T, ("type", n, "")], "T")
        elif pos == "const":
            shapes([("const", n, "usize"), T, U], f"[T; {n}]")
        elif pos == "ftype":
            shapes([U], n, f"use super::pre::Np as {n};")
            shapes([U], n, f"use super::pre::u8_ as {n};".replace("super::pre::u8_", "core::primitive::u8"))
        elif pos == "fwrap":
            shapes([T, U], f"{n}<T>", f"use core::option::Option as {n};")
            shapes([T, U], f"{n}<T>", f"use super::pre::Cond as {n};")
            shapes([T, U], f"{n}<T>", f"use super::pre::Always as {n};")
        elif pos == "fpath":
            shapes([U], f"self::nm::{n}", f"pub mod nm {{ pub use super::super::pre::Np as {n}; }}")
            shapes([T, U], f"self::nm::{n}<T>", f"pub mod nm {{ pub use core::option::Option as {n}; }}")
        elif pos == "attr":
            for a in (f"#[{n}]", f"#[{n}(dead_code)]", f"#[{n} = \"x\"]", f"#[{n}(all())]"):
                for p in (f"{a} #[pin]", f"#[pin] {a}"):
                    add("struct", [T, U], [("", "named", [("f", p, "T", "pub"), ("g", False, "U", "pub")])])
                    add("struct", [T, U], [("", "tuple", [("0", False, "U", "pub"), ("1", p, "T", "pub")])])
                    add("enum", [T, U], [("A", "tuple", [("0", p, "T", "")]), ("B", "named", [("g", False, "U", "")])])
    return out
