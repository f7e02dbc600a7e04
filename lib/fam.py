"""The family of annotated declarations over which the run-time properties are decided.

A declaration is described abstractly (kind, variants, field names, placement of #[pin], generics); everything else
(Rust text of the declaration, of the value constructors and of the harnesses) is derived from the description.
"""
import itertools


class Field:
    def __init__(self, name, pin, ty="F", attrs=""):
        self.name, self.pin, self.ty, self.attrs = name, pin, ty, attrs
        self.conc = "F"  # concrete type in the harness

    @property
    def tracked(self):
        return self.conc in ("F", "W", "Option<F>", "[F; 1]", "(F,)", "(u8, F)", "Gw<F>")


class Variant:
    """name is None for a struct; style is named, tuple or unit."""

    def __init__(self, name, style, fields):
        self.name, self.style, self.fields = name, style, fields


class Decl:
    def __init__(self, key, kind, variants, gen="", where="", inst="", attrs="", names=True, vis="pub", via=None):
        self.key, self.kind, self.variants = key, kind, variants
        self.gen, self.where, self.inst, self.attrs, self.vis = gen, where, inst, attrs, vis
        self.via = via  # a type that reaches the declaration as `$t` through a macro
        self.names = names or kind == "enum"

    @property
    def maxn(self):
        return max(len(v.fields) for v in self.variants)

    def args(self, extra=(), replace=True, project=True):
        a = list(extra)
        if self.names and project:
            a += ["project = PMut", "project_ref = PRef"]
        if replace:
            a.append("project_replace = POwn" if self.names else "project_replace")
        return ", ".join(a)

    def text(self, args):
        if self.via:
            return "macro_rules! decl { ($t:ty) => {\n" + self.text_(args) + "} }\ndecl!(" + self.via + ");\n"
        return self.text_(args)

    def text_(self, args):
        s = f"#[::pin_project::pin_project({args})]\n{self.attrs}\n" if args else f"#[::pin_project::pin_project]\n{self.attrs}\n"
        if self.kind == "enum":
            s += f"{self.vis} enum D{self.gen} {self.where} {{\n"
            for v in self.variants:
                s += f"    {v.name}{fields_text(v, '')},\n"
            return s + "}\n"
        v = self.variants[0]
        if v.style == "named":
            return s + f"{self.vis} struct D{self.gen} {self.where} {fields_text(v, 'pub ')}\n"
        return s + f"{self.vis} struct D{self.gen} {fields_text(v, 'pub ')} {self.where};\n"

    def ctor(self, v):
        return f"D::{v.name}" if v.name else "D"

    def pat(self, prefix, v, binds):
        """Pattern for variant v of type `prefix` (D, PMut, ...), binding fields to names."""
        head = f"{prefix}::{v.name}" if v.name else prefix
        if v.style == "unit":
            return head
        if v.style == "named":
            return head + "{" + ", ".join(f"{f.name}: {b}" for f, b in zip(v.fields, binds)) + "}"
        return head + "(" + ", ".join(binds) + ")"

    def describe(self):
        def fl(v):
            return "".join(("P" if f.pin else "u") + ("" if f.ty == "F" else "<" + f.ty.replace("$t", f.conc) + ">") for f in v.fields)
        return f"{self.kind}{self.gen} " + "/".join((v.name or "") + ":" + v.style + "[" + fl(v) + "]" for v in self.variants)


def fields_text(v, vis):
    if v.style == "unit":
        return ""
    fs = []
    for f in v.fields:
        a = (f.attrs + " " if f.attrs else "") + ("#[pin] " if f.pin else "")
        fs.append(f"{a}{vis}{f.name}: {f.ty}" if v.style == "named" else f"{a}{vis}{f.ty}")
    return (" { " + ", ".join(fs) + " }") if v.style == "named" else ("(" + ", ".join(fs) + ")")


NAMES = ["a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "a8", "a9", "b0", "b1", "b2", "b3", "b4", "b5"] + [f"c{i}" for i in range(20)]
# names chosen to sort and read differently from the declaration order
ODD = ["zeta", "alpha", "r#type", "_0", "this", "pin", "value", "pointer"]


def mkvar(name, style, mask, names=None, ty="F"):
    names = names or NAMES
    return Variant(name, style, [Field(names[i], p, ty) for i, p in enumerate(mask)])


def masks(n):
    return list(itertools.product([False, True], repeat=n))


def family(tier="quick"):
    """Declarations; struct shapes are exhaustive in the placement of #[pin] up to the stated number of fields."""
    out = []
    nmax = 4 if tier == "quick" else 5
    k = 0
    for style in ("named", "tuple"):
        for n in range(1, nmax + 1):
            for m in masks(n):
                k += 1
                out.append(Decl(f"{style[0]}{n}_" + "".join("p" if x else "u" for x in m), "struct", [mkvar(None, style, m)], names=(k % 2 == 0)))
    # enums: a named, a tuple and a unit variant, every placement over two fields each, in rotating order
    for i, (ma, mb) in enumerate(itertools.product(masks(2), masks(2))):
        vs = [mkvar("Va", "named", ma), mkvar("Vb", "tuple", mb), Variant("Vc", "unit", [])]
        vs = vs[i % 3:] + vs[:i % 3]
        out.append(Decl("e2_" + "".join("p" if x else "u" for x in ma + mb), "enum", vs))
    for i, m in enumerate(masks(3)):
        vs = [mkvar("Va", "tuple", m), mkvar("Vb", "tuple", m[::-1]), mkvar("Vc", "named", m), mkvar("Vd", "tuple", m[:1])]
        out.append(Decl("e3_" + "".join("p" if x else "u" for x in m), "enum", vs))
    # single-variant enums
    for m in masks(2):
        out.append(Decl("e1_" + "".join("p" if x else "u" for x in m), "enum", [mkvar("Va", "named", m)]))
    # large declarations, patterned placements
    for n in ((6, 9, 12, 18) if tier == "quick" else (6, 7, 8, 9, 10, 11, 12, 16, 18, 24, 32)):
        for nm, f in (("alt", lambda i: i % 2 == 0), ("last", lambda i, n=n: i == n - 1), ("third", lambda i: i % 3 == 1), ("notfirst", lambda i: i != 0)):
            for style in ("named", "tuple"):
                out.append(Decl(f"L{style[0]}{n}_{nm}", "struct", [mkvar(None, style, [f(i) for i in range(n)])], names=(n % 2 == 0)))
    # many variants, some of the same form, some without fields
    for n in ((7, 18) if tier == "quick" else (7, 12, 18, 26)):
        vs = [Variant(f"V{i}", "unit", []) if i % 5 == 3 else mkvar(f"V{i}", "tuple" if i % 2 else "named", [(i + j) % 3 != 0 for j in range(1 + i % 3)]) for i in range(n)]
        out.append(Decl(f"M{n}", "enum", vs))
        out.append(Decl(f"Mr{n}", "enum", [mkvar(f"V{i}", "tuple", [i % 2 == 0, True]) for i in range(n)]))
    # wide variants
    for n in ((9, 17) if tier == "quick" else (9, 12, 17, 24)):
        out.append(Decl(f"Me{n}", "enum", [mkvar("Va", "tuple", [i % 3 == 0 for i in range(n)]), mkvar("Vb", "named", [i % 3 != 0 for i in range(n)])]))
    # names out of order, raw identifiers
    for m in masks(3):
        out.append(Decl("odd_" + "".join("p" if x else "u" for x in m), "struct", [mkvar(None, "named", m, ODD)], names=False))
    out.append(Decl("odd8", "struct", [mkvar(None, "named", [True, False, True, True, False, False, True, False], ODD)], names=True))
    out.append(Decl("odde", "enum", [mkvar("Va", "named", [True, False, True, True], ODD), mkvar("Vb", "named", [False, True, False, False], ODD[::-1])]))
    # generics: type parameters instantiated with F, lifetimes, const parameters, bounds and where clauses
    gens = [
        ("<T>", "", "<F>"),
        ("<T: Tr>", "", "<F>"),
        ("<T>", "where T: Tr", "<F>"),
        ("<'pin, 'pin_, T: 'pin>", "where &'pin_ (): Tl2<T>", "<'static, 'static, F>"),
        ("<const N: usize, T>", "", "<3, F>"),
        ("<T = F>", "", "<F>"),
        ("<T, U>", "where T: Tr, U: Tr,", "<F, F>"),
    ]
    for gi, (g, w, inst) in enumerate(gens):
        t1 = "<&'pin () as Tl>::T" if "'pin" in g else "T"
        t2 = "U" if "U>" in g else "<&'pin_ () as Tl2<T>>::T" if "'pin" in g else "T"
        for si, m in enumerate(masks(2)):
            mm = "".join("p" if x else "u" for x in m)

            def gv(name, style, mask):
                v = mkvar(name, style, mask)
                v.fields[0].ty, v.fields[1].ty = t1, t2
                return v
            for style in ("named", "tuple"):
                out.append(Decl(f"g{gi}{style[0]}_{mm}", "struct", [gv(None, style, m)], gen=g, where=w, inst=inst, names=(si + gi) % 2 == 0))
            out.append(Decl(f"g{gi}e_{mm}", "enum", [gv("Va", "named", m), gv("Vb", "tuple", m[::-1])], gen=g, where=w, inst=inst))
    # attributes on the type and on fields; representation hints; removed fields
    for i, at in enumerate(["#[repr(C)]", "#[repr(align(16))]", "#[allow(dead_code)] #[repr(C)]", "/// documented"]):
        for m in ((True, False, True), (False, True, False)):
            out.append(Decl(f"at{i}_" + "".join("p" if x else "u" for x in m), "struct", [mkvar(None, "named", m)], attrs=at, names=i % 2 == 0))
    v = mkvar(None, "named", [True, False, True, False])
    for f, a in zip(v.fields, ["#[doc = \"x\"]", "#[allow(dead_code)]", "#[cfg(all())]", "#[cfg_attr(all(), allow(dead_code))]"]):
        f.attrs = a
    out.append(Decl("fattr", "struct", [v], names=True))
    # field types without destructor, without size, with a larger alignment; directly and through a parameter
    for ti, tys in enumerate([["Np", "Np"], ["Np", "F", "Np"], ["Z", "F"], ["F", "Z", "Np"], ["W", "F"], ["F", "W", "Z"], ["Z"], ["Np"], ["W", "W"], ["Bt"], ["Bt", "Bt"], ["F", "Bt", "Z"]]):
        for m in masks(len(tys)):
            mm = "".join("p" if x else "u" for x in m)
            for style in ("named", "tuple"):
                v = mkvar(None, style, m)
                for f, t in zip(v.fields, tys):
                    f.ty = f.conc = t
                out.append(Decl(f"ty{ti}{style[0]}_{mm}", "struct", [v], names=(ti % 2 == 0)))
            v = mkvar("Va", "named", m)
            v2 = mkvar("Vb", "tuple", m[::-1])
            for f, t in zip(v.fields, tys):
                f.ty = f.conc = t
            for f, t in zip(v2.fields, tys):
                f.ty, f.conc = "T", tys[0]
            out.append(Decl(f"ty{ti}e_{mm}", "enum", [v, v2, Variant("Vc", "unit", [])], gen="<T>", inst=f"<{tys[0]}>"))
    # the same types in other words, and types of other forms
    for ti, (ty, conc) in enumerate(FORMS):
        two = [ty, "F"]

        def fv(name, style, mask):
            v = mkvar(name, style, mask)
            v.fields[0].ty, v.fields[0].conc = ty, conc
            return v
        gen, inst = ("<T>", "<F>") if "T" in ty.replace("$t", "") else ("", "")
        via = conc if ty == "$t" else None
        for m in ((True, False), (False, True)) + (((False, False), (True, True)) if tier == "thorough" else ()):
            mm = "".join("p" if x else "u" for x in m)
            out.append(Decl(f"fo{ti}{'nt'[m[0]]}_{mm}", "struct", [fv(None, ("named", "tuple")[m[0]], m)], gen=gen, inst=inst, names=(ti % 2 == 0), via=via))
        out.append(Decl(f"fo{ti}e", "enum", [fv("Va", "named", (True, False)), fv("Vb", "tuple", (False, True))], gen=gen, inst=inst, via=via))
    return out


# (as written, what it is)
FORMS = [("(F)", "F"), ("((F))", "F"), ("Al", "F"), ("Id<F>", "F"), ("crate::ty!(F)", "F"), ("<F as Same>::S", "F"), ("crate::rt::F", "F"), ("self::F", "F"), ("$t", "F"),
         ("(T)", "F"), ("Id<T>", "F"), ("crate::ty!(T)", "F"), ("<T as Same>::S", "F"), ("<Id<(T)> as crate::rt::Same>::S", "F"),
         ("[F; 1]", "[F; 1]"), ("[T; 2 - 1]", "[F; 1]"), ("(F,)", "(F,)"), ("(u8, T)", "(u8, F)"), ("Option<F>", "Option<F>"), ("::core::option::Option<T>", "Option<F>"), ("Gw<F>", "Gw<F>"), ("Gw<T>", "Gw<F>"), ("$t", "Gw<F>"), ("$t", "[F; 1]"), ("$t", "(F,)"),
         ("::core::mem::ManuallyDrop<Np>", "::core::mem::ManuallyDrop<Np>"), ("::core::num::Wrapping<Np>", "::core::num::Wrapping<Np>"), ("&'static Np", "&'static Np"), ("&'static mut Np", "&'static mut Np"), ("*const Np", "*const Np"), ("*mut Np", "*mut Np"), ("fn(u16) -> u16", "fn(u16) -> u16"), ("$t", "fn(u16) -> u16"), ("$t", "&'static Np"), ("[Np; 1]", "[Np; 1]"), ("(Np)", "Np")]
