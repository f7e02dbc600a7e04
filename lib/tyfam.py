"""Declarations whose type-level facts are checked. Each lives in a module of its own."""
import re
from dataclasses import dataclass, field

PRELUDE = r"""
pub mod pre {
    pub use core::marker::{PhantomData, PhantomPinned};
    pub use core::pin::Pin;
    pub use pin_project::{pin_project, pinned_drop, UnsafeUnpin};
    macro_rules! mk { ($t:ty) => { Option<$t> } }
    pub(crate) use mk;
    pub struct Sel<const U: bool>;
    pub trait Pick { type T; }
    impl Pick for Sel<true> { type T = (); }
    impl Pick for Sel<false> { type T = PhantomPinned; }
    /// U: is it Unpin; A: is its associated type Unpin; M: does it implement Mk
    pub struct H<const U: bool, const A: bool, const M: bool>(pub u64, pub PhantomData<<Sel<U> as Pick>::T>) where Sel<U>: Pick;
    impl<const U: bool, const A: bool, const M: bool> Clone for H<U, A, M> where Sel<U>: Pick { fn clone(&self) -> Self { loop {} } }
    impl<const U: bool, const A: bool, const M: bool> Copy for H<U, A, M> where Sel<U>: Pick {}
    pub trait Tr { type A; }
    impl<const U: bool, const A: bool, const M: bool> Tr for H<U, A, M> where Sel<U>: Pick, Sel<A>: Pick { type A = H<A, A, M>; }
    pub trait Mk {}
    impl<const U: bool, const A: bool> Mk for H<U, A, true> where Sel<U>: Pick {}
    pub trait Ob { fn f(&self) {} }
    pub struct Np(pub PhantomPinned);
    pub struct Cond<T>(pub *const u8, pub T);
    pub struct Always<T: ?Sized>(pub PhantomPinned, pub PhantomData<T>);
    impl<T: ?Sized> Unpin for Always<T> {}
    pub struct Some2<T>(pub PhantomPinned, pub T);
    impl<T: Mk> Unpin for Some2<T> {}
    #[pin_project] pub struct Other<T, U> { #[pin] pub a: T, pub b: U }
    #[pin_project(!Unpin)] pub struct Never<T> { #[pin] pub a: T }
    #[pin_project(UnsafeUnpin)] pub struct Own<T> { #[pin] pub a: T }
    unsafe impl<T: Mk> UnsafeUnpin for Own<T> {}
}
"""


@dataclass
class D:
    key: str
    kind: str                 # struct | enum
    generics: list            # [(kind, name, bound)]
    where: str
    variants: list            # [(name, style, [(name, pinned, type, vis)])]
    args: str = ""
    extra: str = ""
    vis: str = "pub"
    mode: str = "default"
    spec: str = ""            # for UnsafeUnpin: the bound under which the user's impl applies: list of (trait, type)
    user: tuple = None
    defaults: dict = field(default_factory=dict)

    def gen(self, decl=False):
        def default(n):
            return f" = {self.defaults[n]}" if decl and n in self.defaults else ""
        return "<" + ", ".join((f"const {n}: {b}" if k == "const" else n + (": " + b if b else "")) + default(n) for k, n, b in self.generics) + ">" if self.generics else ""

    def outer(self, text):
        """Bounds as they read outside the declaration."""
        return re.sub(r"\bSelf\b", "S" + self.use(), text)

    def use(self):
        return "<" + ", ".join(n for k, n, b in self.generics) + ">" if self.generics else ""

    def decl(self, attr=True):
        def fields(style, fs):
            out = []
            for n, p, t, v in fs:
                out.append((("" if not p or not attr else "#[pin] " if p is True else p + " ")) + (v + " " if v else "") + (f"{n}: {t}" if style == "named" else t))
            body = ", ".join(out)
            return "{ " + body + " }" if style == "named" else "(" + body + ")"
        s = f"#[pin_project({self.args})]\n" if attr else ""
        w = f" where {self.where}" if self.where else ""
        if self.kind == "struct":
            n, style, fs = self.variants[0]
            if style == "named":
                return s + f"{self.vis} struct S{self.gen(True)}{w} {fields(style, fs)}"
            return s + f"{self.vis} struct S{self.gen(True)}{fields(style, fs)}{w};"
        vs = ", ".join(n + (fields(st, [(a, b, c, "") for a, b, c, d in fs]) if st != "unit" else "") for n, st, fs in self.variants)
        return s + f"{self.vis} enum S{self.gen(True)}{w} {{ {vs} }}"

    def text(self):
        return self.decl() + "\n" + self.extra

    def pinned(self):
        return [(vi, fi) for vi, (n, s, fs) in enumerate(self.variants) for fi, f in enumerate(fs) if f[1]]

    def types(self):
        return [n for k, n, b in self.generics if k == "type"]

    def inst(self, choice):
        """Concrete arguments: choice maps each type parameter to (unpin, assoc unpin, marked)."""
        out = []
        for k, n, b in self.generics:
            if k == "lt":
                out.append("'static")
            elif k == "const":
                out.append("3")
            else:
                u, a, m = choice.get(n, (True, True, True))
                out.append("H<%s, %s, %s>" % tuple(str(x).lower() for x in (u, a, m)))
        return "S" + ("<" + ", ".join(out) + ">" if out else "")

    def describe(self):
        return " ".join(self.text().split())


LT = ("lt", "'a", "")
TT = ("type", "T", "")
UU = ("type", "U", "")
TR = ("type", "T", "Tr")
NN = ("const", "N", "usize")

# (generics, type)
POOL = [
    ([TT, UU], "T"), ([TT, UU], "U"), ([TT, UU], "Option<T>"), ([TT, UU], "Box<T>"), ([TT, UU], "Vec<T>"), ([TT, UU], "(T, U)"), ([TT, UU], "[T; 2]"),
    ([LT, ("type", "T", "'a"), UU], "&'a T"), ([LT, ("type", "T", "'a"), UU], "&'a mut T"), ([LT, ("type", "T", "'a"), UU], "Pin<&'a mut T>"), ([TT, UU], "*const T"), ([TT, UU], "PhantomData<T>"), ([TT, UU], "fn(T) -> U"),
    ([TR, UU], "T::A"), ([TR, UU], "<T as Tr>::A"), ([TR, UU], "Option<(T::A, u8)>"), ([TT, UU], "Cond<T>"), ([TT, UU], "Always<T>"), ([TT, UU], "Some2<T>"), ([TT, UU], "Other<T, U>"), ([TT, UU], "Never<T>"), ([TT, UU], "Own<T>"),
    ([TT, UU], "Box<dyn Ob>"), ([TT, UU], "u8"), ([TT, UU], "Np"), ([TT, UU], "PhantomPinned"), ([NN, TT, UU], "[T; N]"), ([TT, UU], "Result<Option<T>, Other<U, u8>>"), ([TT, UU], "core::cell::UnsafeCell<T>"), ([TT, UU], "core::mem::MaybeUninit<T>"),
    ([TT, UU], "core::mem::ManuallyDrop<T>"), ([TT, UU], "Option<Box<S<T, U>>>"), ([TT, UU], "Option<Box<Self>>"), ([TT, UU], "(Always<T>, U)"), ([TT, UU], "Pin<Box<T>>"), ([TT, UU], "for<'x> fn(&'x T)"), ([TT, UU], "()"), ([TT, UU], "std::sync::Arc<T>"), ([TT, UU], "core::cell::RefCell<Cond<T>>"),
]


def extra():
    """Attributes, names and macros around the fields."""
    ds = []

    def add(key, kind, variants, **kw):
        ds.append(D("x" + key, kind, [TT, UU], "", variants, **kw))
    N = "project = Pm, project_ref = Pr, project_replace = Po"
    cp, cn = "#[cfg_attr(all(), pin)]", "#[cfg_attr(any(), pin)]"
    for n, st in (("s", "named"), ("t", "tuple")):
        def nm(*xs):
            return [((x[0] if st == "named" else str(i)),) + tuple(x[1:]) for i, x in enumerate(xs)]
        add("a" + n, "struct", [("S", st, nm(("a", cp, "T", "pub"), ("b", False, "U", cn + " pub"), ("c", "#[allow(unused)] #[pin]", "Option<T>", ""), ("d", "#[pin] #[allow(unused)]", "Box<U>", "")))], args=N)
        add("b" + n, "struct", [("S", st, nm(("r#type", True, "T", ""), ("r#fn", False, "U", "")))], args="project_replace")
        add("c" + n, "struct", [("S", st, nm(("pin", False, "T", ""), ("this", True, "U", ""), ("value", False, "u8", ""), ("_x", True, "Np", "")))], args=N)
        add("d" + n, "struct", [("S", st, nm(("a", False, "Pin<Box<T>>", ""), ("b", True, "Pin<Box<U>>", ""), ("c", False, "mk!(T)", ""), ("d", True, "mk!(U)", "")))], args=N)
        add("e" + n, "struct", [("S", st, nm(("a", False, "T", ""), ("gone", "#[cfg(any())] #[pin]", "U", ""), ("b", True, "U", "#[cfg(all())]")))], args=N)
        add("f" + n, "enum", [("A", st, nm(("a", cp, "T", ""), ("b", False, "U", ""))), ("B", st, nm(("a", False, "T", ""), ("b", "#[allow(unused)] #[pin]", "U", ""))), ("pin", "unit", []), ("r#match", st, nm(("a", True, "T", ""), ("b", True, "U", "")))], args=N)
        add("g" + n, "struct", [("S", st, nm(*[("abcdefghijkl"[j], j in (3, 7, 10), "TU"[j % 2], "pub" if j % 3 == 0 else "") for j in range(12)]))], args=N)
        add("h" + n, "enum", [("V%d" % j, st, nm(("a", j % 3 == 0, "T", ""), ("b", j % 3 == 1, "U", ""))) for j in range(8)], args=N)
        add("i" + n, "struct", [("S", st, nm(("a", "#[r#pin]", "T", "pub"), ("b", False, "U", ""), ("c", "#[allow(unused)] #[r#pin]", "Np", "")))], args=N)
        add("j" + n, "enum", [("A", st, nm(("a", False, "T", ""), ("b", "#[r#pin]", "U", ""))), ("B", st, nm(("a", "#[cfg_attr(all(), r#pin)]", "T", "")))], args=N)
    return [d for d in ds if d.key not in ("xet", "xes")]


def pd(d):
    """With a pinned destructor."""
    w = f" where {d.where}" if d.where else ""
    d.args = (d.args + ", " if d.args else "") + "PinnedDrop"
    d.extra += f"\n#[pinned_drop] impl{d.gen()} PinnedDrop for S{d.use()}{w} {{ fn drop(self: Pin<&mut Self>) {{}} }}"
    return d


def anchored(g, t):
    """Fields that use every parameter, unpinned, so that the declaration is complete whatever t is."""
    out = []
    for k, n, b in g:
        if k == "lt":
            out.append(f"&{n} ()")
        elif k == "type":
            out.append(f"PhantomData<{n}>")
    return "(" + ", ".join(out + ["u8"]) + ")"


def family(tier="quick"):
    ds = []

    def add(key, kind, g, variants, where="", **kw):
        ds.append(D(key, kind, g, where, variants, **kw))
    names = {"project": "project = Pm", "ref": "project_ref = Pr", "own": "project_replace = Po"}
    allnames = ", ".join(names.values())
    for i, (g, t) in enumerate(POOL):
        z = anchored(g, t)
        add(f"p{i}a", "struct", g, [("S", "named", [("a", True, t, "pub"), ("b", False, z, ""), ("c", False, "Np", "pub(crate)")])], args="project_replace" if i % 2 else "")
        add(f"p{i}b", "struct", g, [("S", "tuple", [("0", False, t, ""), ("1", True, "U", "pub(crate)"), ("2", False, z, "pub")])], args=["project = Pm", "project_ref = Pr", allnames][i % 3])
        add(f"p{i}c", "enum", g, [("A", "tuple", [("0", False, t, ""), ("1", False, z, "")]), ("B", "named", [("x", True, t, ""), ("y", False, "PhantomPinned", "")]), ("C", "unit", []), ("D", "tuple", [("0", True, "T" if ("type", "T", "") in g else "u8", "")])], args=allnames if i % 2 else "project = Pm, project_ref = Pr")
    # every subset of four fields
    G4 = [("type", n, "") for n in "TUVW"]
    for m in range(16):
        fs = [("abcd"[j], bool(m >> j & 1), "TUVW"[j], ["", "pub", "pub(crate)", ""][j]) for j in range(4)]
        add(f"m{m}s", "struct", G4, [("S", "named", fs)], args="project_replace" if m % 2 else allnames)
        add(f"m{m}t", "struct", G4, [("S", "tuple", [(str(j), p, t, v) for j, (n, p, t, v) in enumerate(fs)])], args="")
        add(f"m{m}e", "enum", G4, [("A", "named", fs[:2]), ("B", "tuple", [(str(j), p, t, "") for j, (n, p, t, v) in enumerate(fs[2:])]), ("C", "unit", [])], args=allnames)
    # generics in other forms
    add("g0", "struct", [], [("S", "named", [("a", True, "u8", ""), ("b", False, "Np", "")])])
    add("g1", "struct", [], [("S", "named", [("a", True, "Np", ""), ("b", False, "u8", "")])])
    add("g2", "struct", [], [("S", "named", [("b", False, "u8", "")])])
    add("g3", "struct", [("type", "T", "?Sized")], [("S", "named", [("b", False, "u8", ""), ("a", True, "T", "")])])
    add("g4", "struct", [("type", "T", "?Sized")], [("S", "named", [("b", True, "u8", ""), ("a", False, "T", "")])])
    add("g5", "struct", [LT, ("lt", "'b", "'a"), ("type", "T", "Tr + 'a"), UU, NN], [("S", "named", [("a", True, "T::A", "pub"), ("b", False, "&'b U", ""), ("c", True, "[&'a T; N]", "")])], where="U: Copy + 'b, T::A: Copy")
    add("g6", "struct", [LT], [("S", "tuple", [("0", True, "&'a u8", ""), ("1", False, "Np", "")])])
    add("g7", "enum", [LT, ("type", "T", "?Sized + 'a")], [("A", "tuple", [("0", True, "&'a T", "")]), ("B", "tuple", [("0", False, "&'a mut T", "")])], args="project = Pm")
    add("g8", "struct", [NN], [("S", "named", [("a", True, "[Np; N]", "")])])
    add("g9", "struct", [("type", "T", "Tr"), ("type", "U", "Tr<A = T>")], [("S", "named", [("a", True, "U::A", ""), ("b", False, "U", "")])])
    add("g10", "struct", [TT, UU], [("S", "named", [("a", True, "T", ""), ("b", False, "U", "")])], where="T: Unpin")
    add("g11", "struct", [TT, UU], [("S", "named", [("a", True, "Option<T>", ""), ("b", False, "U", "")])], where="U: Unpin, Option<T>: Copy")
    add("g12", "struct", [], [("S", "named", [("a", True, "u8", ""), ("b", True, "dyn Ob + Send", "")])])
    add("g13", "struct", [], [("S", "tuple", [("0", False, "u8", ""), ("1", False, "dyn Ob + Send + Unpin", "")])], args="project = Pm, project_ref = Pr")
    add("g14", "struct", [LT, ("type", "T", "?Sized")], [("S", "named", [("a", True, "&'a (dyn Ob + 'a)", ""), ("b", False, "Box<dyn Ob + Send + 'a>", ""), ("c", True, "[Box<T>]", "")])], args="project = Pm")
    # two pinned fields of the same form
    for i, f in enumerate(("@", "Option<@>", "(@,)", "[@; 2]", "(@, u8)", "Cond<@>", "mk!(@)", "Some2<@>", "PhantomData<@>", "Other<@, u8>", "Other<u8, @>", "(@)", "core::cell::Cell<@>", "((@, u8), u8)", "<@ as Tr>::A", "@::A", "Option<<@ as Tr>::A>", "[(@, u8); 1]", "Own<@>", "core::option::Option<@>", "self::Cond<@>")):
        g = [("type", n, "Tr" if "::A" in f else "") for n in "TUV"]
        ts = [f.replace("@", n) for n in "TUV"]
        add(f"w{i}s", "struct", g, [("S", "named", [("abc"[j], True, t, "") for j, t in enumerate(ts)] + [("d", False, "(PhantomData<T>, PhantomData<U>, PhantomData<V>)", "")])])
        add(f"w{i}t", "struct", g, [("S", "tuple", [("0", False, ts[0], ""), ("1", True, ts[1], ""), ("2", True, ts[2], ""), ("3", False, "(PhantomData<T>, PhantomData<U>, PhantomData<V>)", "")])])
        add(f"w{i}e", "enum", g, [("A", "tuple", [("0", True, ts[0], ""), ("1", False, "(PhantomData<T>, PhantomData<U>, PhantomData<V>)", "")]), ("B", "named", [("x", True, ts[1], ""), ("y", True, ts[2], "")])], args="project = Pm")
    # many fields, parameters, variants
    many = "ABCDEFGHIJKLMNOPQR"
    G12 = [("type", "T" + n, "") for n in many]
    for tag, pins in (("all", set(range(18))), ("last", {17}), ("none", set()), ("odd", set(range(1, 18, 2)))):
        add(f"y{tag}s", "struct", G12, [("S", "named", [("f_" + n.lower(), j in pins, "T" + n, "") for j, n in enumerate(many)])], args=allnames)
        add(f"y{tag}t", "struct", G12, [("S", "tuple", [(str(j), j in pins, "T" + n, "") for j, n in enumerate(many)])], args=allnames)
        add(f"y{tag}e", "enum", G12, [("V" + n, "tuple", [("0", j in pins, "T" + n, "")]) for j, n in enumerate(many)] + [("Z", "unit", [])], args=allnames)
    # together with a destructor
    for i in (0, 1, 2, 13, 17, 18, 20, 31):
        g, t = POOL[i]
        z = anchored(g, t)
        ds.append(pd(D(f"d{i}a", "struct", g, "", [("S", "named", [("a", True, t, ""), ("b", False, z, "")])])))
        ds.append(pd(D(f"d{i}c", "enum", g, "", [("A", "tuple", [("0", False, t, ""), ("1", False, z, "")]), ("B", "named", [("x", True, t, "")])], args="project = Pm")))
    return ds


def shapes():
    G = [TT, UU]
    return [
        ("struct", G, [("S", "named", [("a", True, "T", "pub"), ("b", False, "U", "")])], ""),
        ("struct", G, [("S", "tuple", [("0", False, "T", ""), ("1", False, "U", "")])], ""),
        ("struct", G, [("S", "named", [("a", True, "Box<T>", ""), ("b", True, "PhantomData<U>", "")])], ""),
        ("enum", G, [("A", "tuple", [("0", True, "T", "")]), ("B", "named", [("x", False, "U", "")])], "project = Pm"),
        ("enum", G, [("A", "tuple", [("0", False, "T", ""), ("1", False, "PhantomData<U>", "")]), ("B", "unit", [])], "project_ref = Pr, project = Pm"),
    ]


def modes():
    """!Unpin and UnsafeUnpin over the shapes."""
    ds = []
    for i, (kind, g, vs, args) in enumerate(shapes()):
        def mk(tag, a, extra="", mode="", user=None, where=""):
            d = D(f"{tag}{i}", kind, g, where, vs, args=(args + ", " if args else "") + a, extra=extra, mode=mode, user=user)
            ds.append(d)
            ds.append(pd(D(f"{tag}{i}d", kind, g, where, vs, args=(args + ", " if args else "") + a, extra=extra, mode=mode, user=user)))
        mk("n", "!Unpin", mode="never")
        mk("nw", "!Unpin", mode="never", where="T: Unpin, U: Unpin")
        mk("u0", "UnsafeUnpin", mode="forward", user=())
        mk("u1", "UnsafeUnpin", "unsafe impl<T, U> UnsafeUnpin for S<T, U> {}", "forward", ((),))
        mk("u2", "UnsafeUnpin", "unsafe impl<T: Unpin, U> UnsafeUnpin for S<T, U> {}", "forward", ((("Unpin", "T"),),))
        mk("u3", "UnsafeUnpin", "unsafe impl<T, U> UnsafeUnpin for S<T, U> where T: Mk, U: Unpin + Mk {}", "forward", ((("Mk", "T"), ("Unpin", "U"), ("Mk", "U")),))
        mk("u4", "UnsafeUnpin", "unsafe impl<U: Mk> UnsafeUnpin for S<u8, U> {}", "forward", "partial")
        mk("u5", "UnsafeUnpin", "unsafe impl<T: Mk + Unpin> UnsafeUnpin for S<T, u8> {} unsafe impl<T> UnsafeUnpin for S<T, u16> {}", "forward", "partial")
        mk("u6", "UnsafeUnpin", "unsafe impl<T, U> UnsafeUnpin for S<T, U> where Option<U>: Unpin, Box<T>: Unpin, Some2<T>: Unpin {}", "forward", "facts")
    ds.append(D("ng0", "struct", [], "", [("S", "named", [("a", True, "u8", "")])], args="!Unpin", mode="never"))
    ds.append(D("ng1", "struct", [LT], "", [("S", "tuple", [("0", False, "&'a u8", "")])], args="!Unpin, project_replace", mode="never"))
    ds.append(D("ng2", "struct", [("type", "T", "?Sized")], "", [("S", "named", [("a", True, "T", "")])], args="!Unpin", mode="never"))
    ds.append(D("ng3", "enum", [NN], "", [("A", "tuple", [("0", False, "[u8; N]", "")])], args="!Unpin, project = Pm", mode="never"))
    ds.append(D("uu0", "struct", [], "", [("S", "named", [("a", True, "u8", "")])], args="UnsafeUnpin", mode="forward", user=()))
    ds.append(D("uu1", "struct", [], "", [("S", "named", [("a", True, "Np", "")])], args="UnsafeUnpin", extra="unsafe impl UnsafeUnpin for S {}", mode="forward", user=((),)))
    ds.append(D("uu2", "struct", [("type", "T", "?Sized + Unpin")], "", [("S", "named", [("a", True, "T", "")])], args="UnsafeUnpin", mode="forward", user=()))
    return ds


def bounded():
    """Named projections of types with all forms of bounds."""
    N = "project = Pm, project_ref = Pr, project_replace = Po"
    gs = [
        ([LT, ("lt", "'b", "'a"), ("type", "T", "Tr + 'a"), UU, NN], "U: Copy + 'b, T::A: Copy", ["T::A", "&'b U", "[&'a T; N]"]),
        ([("type", "T", "Tr"), ("type", "U", "Tr<A = T>")], "", ["U::A", "U", "T"]),
        ([TT, UU], "T: Unpin", ["T", "U"]),
        ([TT, UU], "Option<T>: Copy, U: Mk", ["Option<T>", "U"]),
        ([("type", "T", "?Sized + Ob"), UU], "Box<T>: Unpin", ["Box<T>", "U"]),
        ([("type", "F", "Fn(u8) -> T"), TT], "", ["F", "T"]),
        ([("type", "T", "Copy + Mk"), ("const", "N", "bool")], "[T; 2]: Copy", ["T", "u8"]),
        ([LT, ("type", "T", "'a + Tr<A = &'a u8>")], "", ["&'a T", "T::A"]),
    ]
    ds = []
    for i, (g, w, ts) in enumerate(gs):
        fs = [("abc"[j], j % 2 == 0, t, "pub") for j, t in enumerate(ts)]
        tp = [(str(j), j % 2 == 1, t, "") for j, (n, p, t, v) in enumerate(fs)]
        ds.append(D(f"b{i}s", "struct", g, w, [("S", "named", fs)], args=N))
        ds.append(D(f"b{i}t", "struct", g, w, [("S", "tuple", tp)], args=N))
        ds.append(D(f"b{i}e", "enum", g, w, [("A", "named", fs), ("B", "tuple", tp), ("C", "unit", [])], args=N))
    return ds


def defaulted():
    """Defaults of type and const parameters."""
    N = "project = Pm, project_ref = Pr, project_replace = Po"
    ds = []
    for i, (g, w, df, ts) in enumerate([
        ([TT, UU], "", {"T": "u8", "U": "u16"}, ["T", "U"]),
        ([TT, UU], "", {"U": "Option<T>"}, ["T", "U"]),
        ([LT, ("type", "T", "'a"), NN], "", {"T": "&'a u8", "N": "3"}, ["&'a T", "[T; N]"]),
        ([("type", "T", "?Sized + Ob"), UU, ("const", "B", "bool")], "U: Copy", {"T": "dyn Ob", "U": "(u8,)", "B": "true"}, ["Box<T>", "U"]),
        ([NN], "", {"N": "{ 1 + 1 }"}, ["[u8; N]", "u8"]),
        ([TR, UU], "", {"U": "<T as Tr>::A"}, ["T", "U"]),
    ]):
        fs = [("abc"[j], j % 2 == 0, t, "pub") for j, t in enumerate(ts)]
        tp = [(str(j), j % 2 == 1, t, "") for j, (n, p, t, v) in enumerate(fs)]
        ds.append(D(f"f{i}s", "struct", g, w, [("S", "named", fs)], args=N, defaults=df))
        ds.append(D(f"f{i}t", "struct", g, w, [("S", "tuple", tp)], args=N, defaults=df))
        ds.append(D(f"f{i}e", "enum", g, w, [("A", "named", fs), ("B", "tuple", tp), ("C", "unit", [])], args=N, defaults=df))
    return ds


def selfs():
    """`Self` in field types and bounds."""
    N = "project = Pm, project_ref = Pr, project_replace = Po"
    tb = "pub trait Tb<X: ?Sized> { type B; } impl<X: ?Sized> Tb<X> for u8 { type B = u8; }"
    na = tb + " pub trait Na { type A; const K: usize; } impl<T, U> Na for S<T, U> { type A = T; const K: usize = 3; }"
    ds = []
    for i, t in enumerate(["fn(&Self) -> Self", "PhantomData<Self>", "*const Self", "Box<dyn Fn(Self) -> Option<Self>>", "mk!(Box<Self>)", "Option<Box<(Self, T)>>", "Vec<[Self; 0]>", "for<'x> fn(&'x mut Self, T)", "<Self as Na>::A", "Option<<Self as Na>::A>", "PhantomData<dyn Tb<Self, B = Self>>", "<u8 as Tb<Self>>::B", "(Vec<Self>)", "fn(<Self as Na>::A) -> mk!(Self)", "PhantomData<fn(Self) -> <u8 as Tb<Option<Self>>>::B>", "Pin<Box<Self>>"]):
        z = "(PhantomData<T>, PhantomData<U>)"
        x = na if "Na" in t else tb
        ds.append(D(f"s{i}a", "struct", [TT, UU], "", [("S", "named", [("a", True, t, "pub"), ("b", False, t, ""), ("c", False, z, "")])], args=N, extra=x))
        ds.append(D(f"s{i}b", "struct", [TT, UU], "", [("S", "tuple", [("0", False, z, ""), ("1", False, t, ""), ("2", True, t, "")])], args=N, extra=x))
        ds.append(D(f"s{i}c", "enum", [TT, UU], "", [("A", "tuple", [("0", i % 2 == 0, t, ""), ("1", False, z, "")]), ("B", "named", [("x", i % 2 == 1, t, ""), ("y", True, "T", "")])], args=N, extra=x))
    for i, (g, w) in enumerate([([("type", "T", "Tb<Self>"), UU], ""), ([TT, UU], "T: Tb<Self>"), ([TT, UU], "Self: Nb"), ([TT, UU], "Option<Self>: Nb, T: Tb<Option<Self>, B = u8>"), ([TT, ("type", "U", "Fn(Self) -> T")], ""), ([TT, UU], "for<'x> &'x Self: Nb, T: Tb<fn(Self)>")]):
        fs = [("a", True, "T", "pub"), ("b", False, "U", "")]
        x = tb + " pub trait Nb {} impl<X: ?Sized> Nb for X {}"
        ds.append(D(f"sb{i}s", "struct", g, w, [("S", "named", fs)], args=N, extra=x))
        ds.append(D(f"sb{i}e", "enum", g, w, [("A", "named", [(a, b, c, "") for a, b, c, e in fs]), ("C", "unit", [])], args=N, extra=x))
    ds.append(D("sn0", "struct", [], "", [("S", "named", [("a", True, "[u8; Self::K]", "pub"), ("b", False, "[u8; <Self>::K + <Self as Nc>::L]", "")])], args=N, extra="impl S { pub const K: usize = 3; } pub trait Nc { const L: usize; } impl Nc for S { const L: usize = 2; }"))
    ds.append(D("sn1", "enum", [], "", [("A", "tuple", [("0", True, "[u8; Self::K]", "")]), ("B", "named", [("x", False, "[*const Self; { Self::K + 1 }]", "")])], args=N, extra="impl S { pub const K: usize = 3; }"))
    return ds


def argued():
    """Every set of arguments."""
    ds = []
    k = 0
    for kind in ("struct", "tuple", "enum"):
        vs = {"struct": [("S", "named", [("a", True, "T", ""), ("b", False, "U", "pub")])], "tuple": [("S", "tuple", [("0", True, "T", ""), ("1", False, "U", "")])], "enum": [("A", "named", [("x", True, "T", "")]), ("B", "tuple", [("0", False, "U", "")])]}[kind]
        for m in range(12):
            a = []
            if m & 1:
                a.append("project = Pm")
            if m & 2:
                a.append("project_ref = Pr")
            if m // 4 == 1:
                a.append("project_replace = Po")
            if m // 4 == 2:
                if kind == "enum":
                    continue
                a.insert(m % 3, "project_replace")
            for o in ("", "PinnedDrop", "!Unpin", "UnsafeUnpin"):
                if o == "PinnedDrop" and m // 4:
                    continue
                d = D(f"q{k}", "enum" if kind == "enum" else "struct", [TT, UU], "", vs, args=", ".join(a + ([o] if o and o != "PinnedDrop" else [])))
                ds.append(pd(d) if o == "PinnedDrop" else d)
                k += 1
    return ds
