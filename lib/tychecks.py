"""The properties decided on rustc's facts about type-checked expansions."""
import os, re
import common as C
import e2e, facts, known, names, tyfam
from smt import *
import tyck
from tyck import conv, subst, pretty, UNPIN, DROP, UNSAFE_UNPIN, PINNED_DROP

MODEL = [
    "rustc (nightly) expands and type-checks the declarations with /repo's macros; its types, impls, bounds, signatures and visibilities are the input of the encoding",
    "trait selection is encoded as: explicit impls whose header matches, all bounds holding; auto traits structurally (coinductive) if no impl names the type; associated types normalised through impls",
    "for every declaration the solver's models of both outcomes are replayed with rustc (stable) on concrete types, and must agree",
]


def gather(rep, ds, name, prelude=tyfam.PRELUDE, stable=None):
    """Facts about the declarations; those that rustc rejects are violations and left out."""
    live = list(ds)
    for _ in range(8):
        text = "#![allow(warnings)]\n" + prelude
        where = []
        for d in live:
            start = text.count("\n") + 1
            text += f"pub mod m_{d.key} {{ use super::pre::*;\n{d.text()}\n}}\n"
            where.append((start, text.count("\n"), d))
        f, errs = facts.run(text, name)
        if f is not None:
            return f, live
        bad = {}
        for lines, msg in errs:
            for l in lines:
                for a, b, d in where:
                    if a <= l <= b:
                        bad.setdefault(d.key, msg)
        if not bad:
            raise C.Broken("the declarations do not compile: " + "\n".join(m for _, m in errs)[:2000])
        for d in list(live):
            if d.key in bad:
                live.remove(d)
                if isinstance(d, Raw):
                    raise C.Broken(f"control {d.key} does not compile: {bad[d.key][:600]}")
                pre = stable or prelude
                ok, m1 = e2e.compile("#![allow(warnings)]\n" + pre + f"pub mod m_{d.key} {{ use super::pre::*;\n{d.text()}\n}}\n", "ty" + d.key)
                ok2, m2 = e2e.compile("#![allow(warnings)]\n" + pre + f"pub mod m_{d.key} {{ use super::pre::*;\n{d.decl(False)}\n{'' if 'pinned_drop' in d.extra or 'UnsafeUnpin' in d.extra else d.extra}\n}}\n", "typ" + d.key)
                if ok or not ok2:
                    # the prelude's own annotated types may be what fails
                    raise C.Broken(f"declaration {d.key} fails in the driver only: {bad[d.key][:600]} / {m2[:300]}")
                rep.violation(f"`{d.describe()}` does not compile, though it does without the macro: {m1[:500]}", {"declaration": d.text(), "rustc": m1})
    raise C.Broken("the declarations do not compile")


IMPLS = r"""
pub struct Is<T: ?Sized>(core::marker::PhantomData<T>);
pub trait No { const B: bool = false; }
impl<T: ?Sized> No for T {}
impl<T: ?Sized + Unpin> Is<T> { pub const B: bool = true; }
"""


def is_unpin(rep, cases, name, prelude=tyfam.PRELUDE):
    """cases: [(decl, type expression inside its module)] -> [bool] as rustc answers."""
    if not cases:
        return []
    text = "#![allow(warnings)]\n" + prelude + IMPLS
    byd = {}
    for i, (d, t) in enumerate(cases):
        byd.setdefault(d.key, (d, []))[1].append((i, t))
    calls = ""
    for key, (d, ts) in byd.items():
        fn = "".join(f"{{ use crate::No; println!(\"{i} {{}}\", <crate::Is<{t}>>::B); }}\n" for i, t in ts)
        text += f"pub mod m_{key} {{ use super::pre::*;\n{d.text()}\npub fn show() {{\n{fn}}} }}\n"
        calls += f"m_{key}::show();\n"
    text += "fn main() { " + calls + " }\n"
    ok, out = e2e.output(text, name)
    if not ok:
        raise C.Broken("replay program does not compile: " + out[:1500])
    got = {int(a): b == "true" for a, b in re.findall(r"(?m)^(\d+) (true|false)$", out)}
    if len(got) != len(cases):
        raise C.Broken("replay program is incomplete: " + out[-300:])
    rep.add("replayed", len(cases))
    return [got[i] for i in range(len(cases))]


def choice(d, model):
    """Concrete types for the parameters that realise the model."""
    ch = {}
    for n in d.types():
        def val(a):
            return model.get(f"{d.key}|{a}", "true") == "true"
        ch[n] = (val(f"Unpin: {n}"), val(f"Unpin: <{n}>::A"), val(f"Mk: {n}"))
    if d.key == "g9":
        u, a, m = ch["U"]
        ch["T"] = (a, a, m)
    return ch


def adt_of(f, d):
    for a in f["adts"]:
        if a["id"] == f"fam::m_{d.key}::S":
            return a
    raise C.Broken("no type S in m_" + d.key)


def self_ty(a):
    return ("adt", a["id"], tuple(("lt", "") if k == "lt" else ("const", n) if k == "const" else ("param", n) for k, n in a["generics"]))


def used(rep, f, s, ds):
    keys = {f"fam::m_{d.key}::" for d in ds}
    for i in f["impls"]:
        if i["id"] in s.used and (i["local"] or i["id"].startswith("pin_project")):
            rep.ev["functions"].add(f"impl {i['trait'].split('::')[-1]} for {pretty(i['cargs'][0])} ({i['id']})"[:200])


def unpin(rep, d, s, f, at=None):
    """(formula for S: Unpin, formula that must be equivalent, well-formedness)"""
    a = adt_of(f, d)
    me = self_ty(a)
    if at:
        me = subst(me, at)
    s.scope = d.key + "|"
    got = s.holds(UNPIN, (me,))
    e = s.env(a["id"], me[2])
    if d.mode == "default":
        fs = s.fields_of(a["id"])
        want = And(*[s.holds(UNPIN, (subst(fs[v][i], e),)) for v, i in d.pinned()])
    elif d.mode == "never":
        want = F
    else:
        alts = [s.by_impl(i, (me,), ()) for i in f["impls"] if i["trait"] == UNSAFE_UNPIN and i["local"] and not i["expansion"] and i["id"].startswith(f"fam::m_{d.key}::")]
        want = Or(*alts)
    wf = s.assume_wf(a["id"]) if not at else T
    return got, want, wf, me


def rust_ty(d, me, ch):
    """The instance as source text."""
    def r(t):
        if t[0] == "lt":
            return "'static"
        if t[0] == "const":
            return "3"
        if t[0] == "param":
            return "H<%s, %s, %s>" % tuple(str(x).lower() for x in ch[t[1]])
        return {"u8": "u8", "u16": "u16"}.get(t[1], t[1].split("::")[-1])
    a = [r(x) for x in me[2]]
    return "S" + ("<" + ", ".join(a) + ">" if a else "")


def decide_unpin(rep, tier, ds, name, instances):
    f, live = gather(rep, ds, name)
    p = Problem()
    s = tyck.Solver(f, p)
    info = []
    for d in live:
        for at in instances(d):
            got, want, wf, me = unpin(rep, d, s, f, at)
            info.append((d, me, got, want))
            p.ask(("prop", len(info) - 1), wf, Not(Iff(got, want)))
            p.ask(("yes", len(info) - 1), wf, got)
            p.ask(("no", len(info) - 1), wf, Not(got))
    used(rep, f, s, live)
    res = p.solve(rep, name)
    bad, wit = [], []
    for (kind, i), verdict, model in res:
        d, me, got, want = info[i]
        if verdict == "sat":
            c = (d, rust_ty(d, me, choice(d, model)))
            if kind == "prop":
                bad.append((c, model, evaluate(want, p, model)))
            else:
                wit.append((c, kind == "yes"))
    rep.ev["paths"] += len(info)
    rep.ev["assertions"] += len(info)
    rep.ev["assertions_symbolic"] += sum(1 for x in info if not (x[2] in (T, F) and x[3] in (T, F)))
    rep.add("steps", sum(len(show(x[2])) + len(show(x[3])) for x in info))
    step = 1 if tier != "quick" or len(wit) < 800 else 2
    wit = wit[::step]
    ans = is_unpin(rep, [c for c, _ in wit] + [c for c, _, _ in bad], name)
    for (c, want), got in zip(wit, ans):
        if want != got:
            raise C.Broken(f"encoding disagrees with rustc: {c[0].describe()} at {c[1]}: encoding {want}, rustc {got}")
    for (c, model, want), got in zip(bad, ans[len(wit):]):
        if got == want:
            raise C.Broken(f"counterexample does not replay: {c[0].describe()} at {c[1]}: {model}")
        rep.violation(f"`{c[0].describe()}`: `{c[1]}` {'implements' if got else 'does not implement'} Unpin, and must{'' if want else ' not'} [model {model}]", {"declaration": c[0].text(), "instance": c[1], "model": model, "rustc": got})
    for c, k in wit[:4]:
        rep.ev["samples"].append({"declaration": c[0].describe()[:300], "instance": c[1], "unpin": k})
    return live


def evaluate(e, p, model):
    inv = {v: k for k, v in p.names.items()}
    def ev(x):
        if x == T or x == F:
            return x == T
        if isinstance(x, str):
            return model.get(inv[x], "true") == "true"
        if x[0] == "and":
            return all(ev(y) for y in x[1:])
        if x[0] == "or":
            return any(ev(y) for y in x[1:])
        if x[0] == "not":
            return not ev(x[1])
        return ev(x[1]) == ev(x[2])
    return ev(e)


def C03(rep, tier):
    ds = tyfam.family(tier) + tyfam.extra() + tyfam.bounded() + tyfam.argued() + tyfam.selfs()
    # the bounds of the others cannot be met by arbitrary, independent types
    ds = [d for d in ds if "Unpin" not in d.args and d.key[:2] != "sb" and (d.key[0] != "b" or d.key[:2] in ("b0", "b2", "b3"))]
    rep.ev["bounds"] = [
        f"{len(ds)} declarations: {len(tyfam.POOL)} field types x (pinned in a struct, unpinned in a struct, both in an enum), every subset of 4 pinned fields as struct, tuple struct and enum, 21 forms of types on several pinned fields at once, 18 fields or variants over 18 parameters, 20 forms of generics and bounds, `Self` in the types of fields, attributes (cfg_attr, other attributes before and after #[pin]) and names around the fields, all arguments, with and without a destructor",
        "every assignment of `T: Unpin`, `T::A: Unpin` and the bounds of hand-written impls to every type parameter (boolean variables)",
    ]
    rep.ev["outside"] = ["field types outside the pool; types with more than 18 type parameters"]
    rep.ev["assumptions"] = MODEL
    rep.ev["meaning"] = "states = (declaration, instance) pairs decided, each for every assignment of the undetermined bounds; transitions = size of the formulas in characters; traces_validated_against_impl = models replayed with rustc on concrete types"
    decide_unpin(rep, tier, ds + names.types(names.suspects(rep, names.DEFAULT)), "c03", lambda d: [None])


def C04(rep, tier):
    ds = tyfam.modes()
    rep.ev["bounds"] = [
        f"{len(ds)} declarations: 5 shapes x (!Unpin, UnsafeUnpin with 7 sets of user impls) x (with, without destructor), and 7 more",
        "each at every choice of its type parameters among: arbitrary type, u8, u16, a type that is not Unpin; the arbitrary ones with every assignment of their bounds (boolean variables)",
    ]
    rep.ev["outside"] = ["user impls of other forms"]
    rep.ev["assumptions"] = MODEL
    rep.ev["meaning"] = "states = (declaration, instance) pairs decided, each for every assignment of the undetermined bounds; transitions = size of the formulas in characters; traces_validated_against_impl = models replayed with rustc on concrete types"

    def instances(d):
        ts = d.types()
        if len(ts) != 2 or d.where:
            return [None]
        pool = [None, ("prim", "u8"), ("prim", "u16"), ("adt", "fam::pre::Np", ())]
        return [{n: x for n, x in zip(ts, (a, b)) if x} or None for a in pool for b in pool]
    decide_unpin(rep, tier, ds + names.types(names.suspects(rep, names.NOT), "!Unpin, " + names.NAMED, "never"), "c04", instances)


# ---------------------------------------------------------------- C02

PIN = "core::pin::Pin"
METHODS = ("project", "project_ref", "project_replace")


def methods(f, d):
    """Safe inherent functions of S in the expansion."""
    sid = f"fam::m_{d.key}::S"
    return [x for x in f["fns"] if x["assoc"] and x["self"] and x["self"].get("id") == sid and x["expansion"] and not x["unsafe"] and not x["trait"]]


def expected_methods(d):
    a = d.args
    def has(n):
        return re.search(r"\b%s\b" % n, a) is not None
    out = {"project", "project_ref"} if d.kind == "struct" else {m for m in ("project", "project_ref") if has(m)}
    if has("project_replace"):
        out.add("project_replace")
    return out


def reach(s, ty, target, how):
    """The condition under which safe code gets from a value of type ty to `how` of target."""
    pin = None
    if ty[0] == "adt" and ty[1] == PIN and ty[2] and ty[2][0][0] == "ref":
        pin, ref = True, ty[2][0]
    elif ty[0] == "ref":
        pin, ref = False, ty
    else:
        return F
    if ref[2] != target:
        return F
    mut = ref[1]
    un = s.holds(UNPIN, (target,))
    if how == "mut":
        return F if not mut else un if pin else T
    if how == "pinmut":
        return F if not mut else T if pin else un
    if how == "ref":
        return T
    if how == "pinref":
        return T if pin else un
    raise AssertionError(how)


def size(p, s, t, pre=""):
    """Symbolic size: an Int term."""
    if t[0] == "adt":
        a = s.adts.get(t[1])
        if a["phantom"]:
            return "0"
        if a["kind"] == "struct" and a["local"]:
            e = s.env(t[1], t[2])
            xs = [size(p, s, s.norm(subst(x, e))) for x in s.fields_of(t[1])[0]]
            return ("+", *xs) if len(xs) > 1 else xs[0] if xs else "0"
    if t[0] == "tuple":
        xs = [size(p, s, x) for x in t[1]]
        return ("+", *xs) if len(xs) > 1 else xs[0] if xs else "0"
    if t[0] == "prim":
        return {"u8": "1", "u16": "2", "bool": "1", "()": "0"}.get(t[1], "8")
    if t[0] in ("ref", "ptr", "fnptr"):
        return "8"
    return p.var(s.scope + "size of " + pretty(t), "Int")


def field_of(d, m, v, i, expr):
    """Source that yields field i of variant v of the projection."""
    name = {"project": "Pm", "project_ref": "Pr", "project_replace": "Po"}[m]
    vn, st, fs = d.variants[v]
    if d.kind == "struct":
        return f"{expr}.{fs[i][0]}"
    pat = f"{{ {fs[i][0]}: it, .. }}" if st == "named" else "(" + ", ".join("it" if j == i else "_" for j in range(len(fs))) + ")"
    return f"match {expr} {{ {name}::{vn}{pat} => it, _ => loop {{}} }}" if len(d.variants) > 1 else f"match {expr} {{ {name}::{vn}{pat} => it }}"


def instance(d, ch):
    """Items that fix the parameters, for use in a module inside the declaration's."""
    items, lts = "", []
    for k, n, b in d.generics:
        if k == "lt":
            lts.append(n)
        elif k == "const":
            items += f"const {n}: {b} = 3; "
        else:
            items += f"type {n} = H<%s, %s, %s>; " % tuple(str(x).lower() for x in ch.get(n, (True, True, True)))
    return items, lts


TAKE = r"""
pub mod take {
    use core::pin::Pin;
    pub trait Mut<'x, F: ?Sized> { fn to(self) -> &'x mut F; }
    impl<'x, F: ?Sized> Mut<'x, F> for &'x mut F { fn to(self) -> &'x mut F { self } }
    impl<'x, F: ?Sized + Unpin> Mut<'x, F> for Pin<&'x mut F> { fn to(self) -> &'x mut F { self.get_mut() } }
    pub trait PinMut<'x, F: ?Sized> { fn to(self) -> Pin<&'x mut F>; }
    impl<'x, F: ?Sized> PinMut<'x, F> for Pin<&'x mut F> { fn to(self) -> Pin<&'x mut F> { self } }
    impl<'x, F: ?Sized + Unpin> PinMut<'x, F> for &'x mut F { fn to(self) -> Pin<&'x mut F> { Pin::new(self) } }
    pub trait Ref<'x, F: ?Sized> { fn to(self) -> &'x F; }
    impl<'x, F: ?Sized> Ref<'x, F> for &'x F { fn to(self) -> &'x F { self } }
    impl<'x, F: ?Sized> Ref<'x, F> for &'x mut F { fn to(self) -> &'x F { self } }
    impl<'x, F: ?Sized> Ref<'x, F> for Pin<&'x F> { fn to(self) -> &'x F { self.get_ref() } }
    impl<'x, F: ?Sized> Ref<'x, F> for Pin<&'x mut F> { fn to(self) -> &'x F { self.into_ref().get_ref() } }
    pub trait PinRef<'x, F: ?Sized> { fn to(self) -> Pin<&'x F>; }
    impl<'x, F: ?Sized + Unpin> PinRef<'x, F> for &'x F { fn to(self) -> Pin<&'x F> { Pin::new(self) } }
    impl<'x, F: ?Sized + Unpin> PinRef<'x, F> for &'x mut F { fn to(self) -> Pin<&'x F> { Pin::new(self) } }
    impl<'x, F: ?Sized> PinRef<'x, F> for Pin<&'x F> { fn to(self) -> Pin<&'x F> { self } }
    impl<'x, F: ?Sized> PinRef<'x, F> for Pin<&'x mut F> { fn to(self) -> Pin<&'x F> { self.into_ref() } }
}
"""


def accepted(rep, cases, name, prelude=tyfam.PRELUDE):
    """cases: [(declaration, choice, function source with @L for lifetimes and @S for the type)] -> [bool]: does rustc accept each?
    One crate; an error inside a function's lines rejects that function. Repeated with what is left until nothing is rejected."""
    live = list(range(len(cases)))
    for _ in range(6):
        if not live:
            break
        text = "#![allow(warnings)]\n" + prelude + TAKE
        byd, where = {}, []
        for i in live:
            d, ch, src = cases[i]
            byd.setdefault(d.key, (d, []))[1].append((i, ch, src))
        for key, (d, xs) in byd.items():
            text += f"pub mod m_{key} {{ use super::pre::*;\n{d.text()}\n"
            for i, ch, src in xs:
                items, lts = instance(d, ch)
                src = src.replace("@L", "".join(", " + l for l in lts)).replace("@S", "S" + d.use())
                a = text.count("\n") + 1
                text += f"mod k{i} {{ use super::*; {items}\n{src} }}\n"
                where.append((a, text.count("\n"), i))
            text += "}\n"
        errs = e2e.errors(text, name)
        if not errs:
            break
        bad = set()
        for lines, msg in errs:
            hit = {i for a, b, i in where if any(a <= l <= b for l in lines)}
            if not hit:
                raise C.Broken(f"replay program {name} has errors outside its functions: {msg[:1500]}")
            bad |= hit
        live = [i for i in live if i not in bad]
    rep.add("replayed", len(cases))
    return [i in set(live) for i in range(len(cases))]


def same_object(ty, orig):
    """ty with the trait object it refers to replaced by orig if they differ in the object's lifetime only."""
    ref = ty[2][0] if ty[0] == "adt" and ty[1] == PIN and ty[2] else ty
    if orig[0] != "dyn" or ref[0] != "ref" or ref[2] == orig or ref[2][0] != "dyn":
        return ty, False

    def bare(t):
        return re.sub(r" \+ '\w+\b|[()]", "", t[1])
    if bare(ref[2]) != bare(orig) or ref[2][2:] != orig[2:]:
        return ty, False
    new = (ref[0], ref[1], orig) + tuple(ref[3:])
    return ((ty[0], ty[1], (new,) + tuple(ty[2][1:])) + tuple(ty[3:]) if ref is not ty else new), True


def trait_objects(rep, objects):
    """Fields whose type is a trait object, projected to one of another lifetime."""
    cases = []
    for d, n, v, i in objects:
        pin = (v, i) in set(d.pinned())
        q = "&'x0 mut" if n == "project" else "&'x0"
        t = f"({d.variants[v][2][i][2]} + 'static)"
        ret = f"Pin<{q} {t}>" if pin else f"{q} {t}"
        cases.append((d, {}, f"fn f<'x0@L>(p: Pin<{q} @S>) -> {ret} {{ {field_of(d, n, v, i, f'p.{n}()')} }}"))
    for (d, n, v, i), (_, _, src), ok in zip(objects, cases, accepted(rep, cases, "c02o") if cases else []):
        if ok:
            continue
        t = d.variants[v][2][i][2]
        k = [k for k in known.findings("C02") if t in k["field_types"]]
        if k:
            if k[0]["what"] not in rep.known:
                rep.known.append(k[0]["what"])
        else:
            rep.violation(f"`{d.describe()}`: the result of {n} refers to field {d.variants[v][2][i][0]} as an object of a shorter lifetime: rustc rejects `{src}`", {"declaration": d.text(), "program": src})


def C02(rep, tier):
    ds = tyfam.family(tier) + tyfam.extra() + [d for d in tyfam.selfs() if d.key[:2] != "sb"]
    rep.ev["bounds"] = [
        f"{len(ds)} declarations: {len(tyfam.POOL)} field types x (pinned in a struct, unpinned in a tuple struct, both in an enum), every subset of 4 pinned fields as struct, tuple struct and enum, other forms of generics, 18 types that contain `Self`, destructors, attributes and names",
        "every assignment of `T: Unpin`, `T::A: Unpin` and the bounds of hand-written impls to every type parameter (boolean variables); sizes of the parameters any non-negative integers",
    ]
    rep.ev["outside"] = ["field types outside the pool; types with more than 4 type parameters; unsafe code"]
    rep.ev["assumptions"] = MODEL + ["from Pin<&mut F> safe code gets &mut F exactly if F: Unpin, and from &mut F it gets Pin<&mut F> exactly if F: Unpin (the contract of core::pin)"]
    rep.ev["meaning"] = "states = (declaration, method, field) triples decided, each for every assignment of the undetermined bounds; transitions = size of the formulas in characters; traces_validated_against_impl = programs that obtain the field in one way, each accepted or rejected by rustc (stable) as the encoding says"
    ds += names.types(names.suspects(rep, names.DEFAULT))
    f, live = gather(rep, ds, "c02")
    p = Problem()
    s = tyck.Solver(f, p)
    info = []
    structural = []
    objects = []
    for d in live:
        a = adt_of(f, d)
        s.scope = d.key + "|"
        fs = s.fields_of(a["id"])
        wf = s.assume_wf(a["id"])
        pinned = set(d.pinned())
        ms = {}
        for m in methods(f, d):
            ms.setdefault(m["name"], []).append(m)
        rep.ev["functions"] |= {f"{d.key}: S::{n}" for n in ms}
        for n in sorted(expected_methods(d) | set(ms)):
            for m in ms.get(n, [None]):
                if n not in METHODS or m is None:
                    continue  # C18
                out = conv(m["output"])
                b = s.adts.get(out[1]) if out[0] == "adt" else None
                if b is None:
                    raise C.Broken(f"{d.key}: {n} returns no projection type")
                e = s.env(b["id"], out[2])
                pf = [{x["name"]: s.norm(subst(conv(x["ty"]), e)) for x in v["fields"]} for v in b["variants"]]
                if len(pf) != len(d.variants):
                    structural.append((d, f"`{n}` returns a type with other variants"))
                    continue
                for v, (vn, st, flds) in enumerate(d.variants):
                    for i, (fn_, pin, _, _) in enumerate(flds):
                        nm = fn_.replace("r#", "")
                        if nm not in pf[v]:
                            structural.append((d, f"field {fn_} is missing from the result of `{n}`"))
                            continue
                        orig = s.norm(fs[v][i])
                        ty = pf[v][nm]
                        ispin = (v, i) in pinned
                        ty, weak = same_object(ty, orig)
                        if weak:
                            objects.append((d, n, v, i))
                        un = s.holds(UNPIN, (orig,))
                        if n == "project":
                            asks = [("mut", un if ispin else T), ("pinmut", T if ispin else un)]
                        elif n == "project_ref":
                            asks = [("ref", T), ("pinref", T if ispin else un), ("mut", F), ("pinmut", F)]
                        else:
                            asks = []
                            if ispin:
                                z = size(p, s, ty)
                                vs = p.syms(z, set())
                                k = len(info)
                                info.append((d, n, v, i, "marker", None, None))
                                if ty == orig and not (orig[0] == "adt" and s.adts[orig[1]]["phantom"] or orig == ("tuple", ())):
                                    structural.append((d, f"the result of project_replace holds #[pin] field {fn_} by value"))
                                if ty != orig:
                                    p.ask(("prop", k), wf, *[(">=", x, "0") for x in vs], Not(("=", z, "0")))
                            else:
                                k = len(info)
                                info.append((d, n, v, i, "value", T if ty == orig else F, T))
                                p.ask(("prop", k), wf, Not(Iff(info[k][5], T)))
                        for how, want in asks:
                            got = reach(s, ty, orig, how)
                            k = len(info)
                            info.append((d, n, v, i, how, got, want))
                            p.ask(("prop", k), wf, Not(Iff(got, want)))
                            if how in ("mut", "pinmut") or ispin:
                                p.ask(("yes", k), wf, got)
                                p.ask(("no", k), wf, Not(got))
    used(rep, f, s, live)
    for d, msg in structural:
        rep.violation(f"`{d.describe()}`: {msg}", {"declaration": d.text()})
    trait_objects(rep, objects)
    res = p.solve(rep, "c02")
    rep.ev["paths"] += len(info)
    rep.ev["assertions"] += len(info)
    rep.ev["assertions_symbolic"] += sum(1 for x in info if not (x[5] in (T, F, None) and x[6] in (T, F, None)))
    rep.add("steps", sum(len(show(x[5] or T)) + len(show(x[6] or T)) for x in info))
    cases, exp = [], []
    for (kind, k), verdict, model in res:
        if verdict != "sat":
            continue
        d, n, v, i, how, got, want = info[k]
        ch = choice(d, model)
        if how == "marker":
            z = marker_size(rep, d, v, i, ch)
            if z == 0:
                raise C.Broken(f"counterexample does not replay: {d.describe()}: {model}")
            rep.violation(f"`{d.describe()}`: in the result of project_replace, #[pin] field {d.variants[v][2][i][0]} is not a zero-sized marker but of size {z}", {"declaration": d.text(), "model": model})
            continue
        cases.append((d, ch, taking(d, n, v, i, how)))
        w = None if want is None else evaluate(want, p, model)
        exp.append((kind, k, model, w))
    ans = accepted(rep, cases, "c02r")
    wrong = []
    for (d, ch, src), (kind, k, model, want), got in zip(cases, exp, ans):
        _, n, v, i, how, _, _ = info[k]
        fld = d.variants[v][2][i][0]
        desc = f"`{d.describe()}`, field {fld}" + (f" of {d.variants[v][0]}" if d.kind == "enum" else "") + f", through {n}"
        if kind != "prop":
            if got != (kind == "yes"):
                wrong.append(f"encoding disagrees with rustc: {desc}, {how}, {ch}: encoding {kind}, rustc {got}: {src}")
            continue
        if got == want:
            wrong.append(f"counterexample does not replay: {desc}, {how}: {model}")
            continue
        words = {"mut": "`&mut`", "pinmut": "`Pin<&mut _>`", "ref": "`&`", "pinref": "`Pin<&_>`", "value": "a value"}[how]
        rep.violation(f"{desc}: safe code {'obtains' if got else 'cannot obtain'} {words} to it, and must{'' if want else ' not'} [model {model}]", {"declaration": d.text(), "field": fld, "program": src, "choice": ch, "model": model})
    if wrong:
        raise C.Broken(wrong[0] + f" ({len(wrong)} in all)")
    for (d, ch, src), (kind, k, model, want), got in list(zip(cases, exp, ans))[:40:10]:
        rep.ev["samples"].append({"declaration": d.describe()[:300], "program": src, "accepted": got})


def field_ty(d, v, i):
    t = d.variants[v][2][i][2]
    t = re.sub(r"(?<![\w:<])([A-Z])::A\b", r"<\1 as Tr>::A", t)
    return re.sub(r"\bSelf\b", "S" + d.use(), t)


def taking(d, n, v, i, how):
    ft = field_ty(d, v, i)
    q = {"project": "&'x0 mut", "project_ref": "&'x0"}.get(n)
    if n == "project_replace":
        e = field_of(d, n, v, i, "p.project_replace(v)")
        if how == "value":
            return f"fn f<'x0@L>(p: Pin<&'x0 mut @S>, v: @S) -> {ft} {{ {e} }}"
    e = field_of(d, n, v, i, f"p.{n}()")
    direct = {"mut": f"&'x0 mut ({ft})", "pinmut": f"Pin<&'x0 mut ({ft})>", "ref": f"&'x0 ({ft})", "pinref": f"Pin<&'x0 ({ft})>"}[how]
    return f"fn f<'x0@L>(p: Pin<{q} @S>) -> {direct} {{ crate::take::{ {'mut': 'Mut', 'pinmut': 'PinMut', 'ref': 'Ref', 'pinref': 'PinRef'}[how] }::to({e}) }}"


def marker_size(rep, d, v, i, ch):
    """The size of what project_replace leaves of the field."""
    items, lts = instance(d, ch)
    e = field_of(d, "project_replace", v, i, "p.project_replace(v)")
    st = "S" + re.sub(r"'\w+", "'static", d.use())
    text = "#![allow(warnings)]\n" + tyfam.PRELUDE + f"pub mod m_{d.key} {{ use super::pre::*;\n{d.text()}\npub mod k {{ use super::*; {items}\nfn g(p: Pin<&'static mut {st}>, v: {st}) -> impl Sized {{ {e} }}\nfn sz<P, V, R>(_: impl Fn(P, V) -> R) -> usize {{ core::mem::size_of::<R>() }}\npub fn show() {{ println!(\"size {{}}\", sz(g)) }} }} }}\nfn main() {{ m_{d.key}::k::show() }}\n"
    ok, out = e2e.output(text, "c02m")
    m = re.search(r"size (\d+)", out)
    rep.add("replayed", 1)
    return int(m.group(1)) if ok and m else None


# ---------------------------------------------------------------- C05

from coherence import Coherence

C05_PRE = tyfam.PRELUDE.replace("pub mod pre {", """pub mod pre {
    pub struct Neg; impl !Unpin for Neg {}
    pub struct Loc;
    impl Mk for Loc {} impl Mk for u8 {} impl Mk for Np {} impl Mk for Neg {} impl<T: ?Sized> Mk for Box<T> {}
""")
C05_STABLE = C05_PRE.replace("impl !Unpin for Neg {}", "").replace("Neg;", "Neg(PhantomPinned);")
NIGHTLY = "#![feature(negative_impls)]\n"
# what a user may put for a type parameter: (text, type, needs nightly)
ARG = [
    ("u8", ("prim", "u8"), False),
    ("PhantomPinned", ("adt", "core::marker::PhantomPinned", ()), False),
    ("Np", ("adt", "fam::pre::Np", ()), False),
    ("Loc", ("adt", "fam::pre::Loc", ()), False),
    ("Neg", ("adt", "fam::pre::Neg", ()), True),
    ("Box<Np>", ("adt", "alloc::boxed::Box", (("adt", "fam::pre::Np", ()), ("adt", "alloc::alloc::Global", ()))), False),
    ("&'static Np", ("ref", False, ("adt", "fam::pre::Np", ()), ""), False),
    ("(Np, u8)", ("tuple", (("adt", "fam::pre::Np", ()), ("prim", "u8"))), False),
]
BOUND = ["", "Mk", "Unpin", "Copy"]
SHAPES = len(ARG) + 1
DIR = {"Unpin": UNPIN, "Drop": DROP, "UnsafeUnpin": UNSAFE_UNPIN, "PinnedDrop": PINNED_DROP}


def user_impl(d, trait, sel, bnd):
    """Source of the user's impl. sel: per type parameter 0 = parameter, k = ARG[k-1]; bnd: bound on the parameters."""
    gs, args = [], []
    w = [d.where] if d.where else []
    for j, (k, n, b) in enumerate(d.generics):
        if k == "type" and sel.get(n, 0):
            args.append(ARG[sel[n] - 1][0])
            continue
        gs.append(f"const {n}: {b}" if k == "const" else n + (": " + b if b else ""))
        args.append(n)
        if k == "type" and BOUND[bnd]:
            w.append(f"{n}: {BOUND[bnd]}")
    g = "<" + ", ".join(gs) + ">" if gs else ""
    a = "<" + ", ".join(args) + ">" if args else ""
    wh = " where " + ", ".join(w) if w else ""
    if trait == "Unpin":
        return f"impl{g} Unpin for S{a}{wh} {{}}"
    if trait == "UnsafeUnpin":
        return f"unsafe impl{g} pin_project::UnsafeUnpin for S{a}{wh} {{}}"
    if trait == "Drop":
        return f"impl{g} Drop for S{a}{wh} {{ fn drop(&mut self) {{}} }}"
    return f"#[pin_project::pinned_drop] impl{g} PinnedDrop for S{a}{wh} {{ fn drop(self: Pin<&mut Self>) {{}} }}"


class Raw:
    """A hand-written declaration that guards S less well: shows that the encoding can tell."""
    def __init__(self, key, generics, src):
        self.key, self.generics, self.src, self.where = key, generics, src, ""

    def text(self):
        return self.src

    def describe(self):
        return self.src

    def types(self):
        return [n for k, n, b in self.generics if k == "type"]


CONTROL = [
    Raw("c0", [tyfam.TT], "pub struct S<T>(pub T); trait L {} impl<T> Unpin for S<T> where S<T>: L {}"),
    Raw("c1", [tyfam.TT], "pub struct S<T>(pub T); struct X<'a, T>(&'a (), T, PhantomPinned); impl<'a, T> Unpin for S<T> where X<'a, T>: Unpin {}"),
    Raw("c2", [tyfam.TT], "pub struct S<T>(pub T); impl Unpin for S<u8> {}"),
    Raw("c3", [tyfam.TT], "pub struct S<T>(pub T); impl<T: ?Sized> Unpin for S<Box<T>> {}"),
    Raw("c4", [tyfam.TT], "pub struct S<T>(pub T); impl<T> Unpin for S<T> where S<T>: pin_project::UnsafeUnpin {}"),
    Raw("c5", [tyfam.TT], "pub struct S<T>(pub T); struct X<'a, T>(&'a (), T); impl<'a, T> Unpin for S<T> where X<'a, T>: Unpin {}"),
    Raw("c6", [tyfam.TT], "pub struct S<T>(pub T); impl<T> Unpin for S<T> where T: Mk {}"),
    Raw("c7", [tyfam.TT], "pub struct S<T>(pub T); impl<T> Unpin for S<T> where Vec<S<T>>: pin_project::UnsafeUnpin {}"),
    Raw("c8", [tyfam.TT, tyfam.UU], "pub struct S<T, U>(pub T, pub U); impl<T> Unpin for S<T, T> {}"),
]


def guarded():
    """The declarations of C05: [(declaration, traits that may not be implemented by hand)]"""
    out = []

    def add(key, kind, g, vs, args, where="", mode="default"):
        for pdrop in (False, True):
            ms = [("", "default"), ("!Unpin", "never"), ("UnsafeUnpin", "forward")]
            for a, m in ms:
                d = D = tyfam.D(f"{key}{m[0]}{'p' if pdrop else ''}", kind, g, where, vs, args=", ".join(x for x in (args, a) if x and not (pdrop and x == "project_replace")), mode=m)
                if pdrop:
                    d = tyfam.pd(d)
                no = ["Unpin", "Drop"] + ([] if m == "forward" else ["UnsafeUnpin"]) + ([] if pdrop else ["PinnedDrop"])
                out.append((d, no))
    for i, (kind, g, vs, args) in enumerate(tyfam.shapes()):
        add(f"a{i}", kind, g, vs, args)
    LT, TT, UU, NN = tyfam.LT, tyfam.TT, tyfam.UU, tyfam.NN
    add("b0", "struct", [], [("S", "named", [("a", True, "u8", "")])], "")
    add("b1", "struct", [], [("S", "tuple", [("0", True, "Np", "")])], "project_replace")
    add("b2", "struct", [], [("S", "tuple", [("0", False, "PhantomPinned", "")])], "")
    add("b3", "enum", [], [("A", "tuple", [("0", False, "u8", "")]), ("B", "unit", [])], "")
    add("b4", "struct", [LT], [("S", "named", [("a", True, "&'a Np", "")])], "")
    add("b5", "struct", [LT, ("type", "T", "'a")], [("S", "named", [("a", True, "&'a mut T", ""), ("b", True, "T", "pub")])], "project = Pm")
    add("b6", "struct", [NN, TT], [("S", "named", [("a", True, "[T; N]", ""), ("b", False, "T", "pub")])], "")
    add("b7", "struct", [("type", "T", "?Sized")], [("S", "named", [("b", False, "u8", ""), ("a", True, "T", "")])], "")
    add("b8", "struct", [TT, UU], [("S", "named", [("a", True, "T", ""), ("b", False, "U", "")])], "project_replace", where="U: Sized")
    add("b9", "enum", [TT], [("A", "tuple", [("0", True, "Option<Box<Self>>", "")]), ("B", "named", [("x", True, "T", "")])], "project_ref = Pr")
    add("ba", "struct", [("type", "T", "Unpin")], [("S", "named", [("a", True, "T", "")])], "")
    add("bb", "struct", [TT], [("S", "named", [("a", True, "Never<T>", ""), ("b", True, "Always<T>", "")])], "")
    return out


def try_impls(rep, cases, name):
    """cases: [(declaration, user's impl, nightly)] -> [(accepted, first error)]"""
    res = [None] * len(cases)
    for night in (False, True):
        live = [i for i, c in enumerate(cases) if c[2] == night]
        while live:
            text = "#![allow(warnings)]\n" + (NIGHTLY + C05_PRE if night else C05_STABLE)
            where = []
            for i in live:
                d, im, _ = cases[i]
                a = text.count("\n") + 1
                text += f"pub mod m_{d.key}_{i} {{ use super::pre::*;\n{d.text()}\n{im}\n}}\n"
                where.append((a, text.count("\n"), i))
            errs = facts.run(text, name)[1] if night else e2e.errors(text, name)
            if not errs:
                for i in live:
                    res[i] = (True, "")
                break
            hit = set()
            for lines, msg in errs:
                h = {i for a, b, i in where if any(a <= l <= b for l in lines)}
                if not h:
                    raise C.Broken(f"replay program {name} has errors outside the declarations: {msg[:1200]}")
                for i in h:
                    res[i] = (False, msg)
                hit |= h
            live = [i for i in live if i not in hit]
    rep.add("replayed", len(cases))
    return res


def C05(rep, tier):
    gs = guarded()
    ds = [d for d, _ in gs] + CONTROL
    rep.ev["bounds"] = [
        f"{len(gs)} declarations: 17 shapes (structs, tuple structs, enums; no generics, lifetimes, const generics, unsized and bounded parameters; #[pin] on all, some, no fields) x (default, !Unpin, UnsafeUnpin) x (with, without PinnedDrop)",
        f"for each and each forbidden trait, a hand-written impl for S<A, ..> with every A among a parameter and {len(ARG)} concrete types ({', '.join(a[0] for a in ARG)}; integer variables) and every bound among none, {', '.join(BOUND[1:])} on the parameters",
    ]
    rep.ev["outside"] = ["hand-written impls of other forms (for references or boxes of the type, with other bounds, in another crate: rejected by rustc's orphan rule)"]
    rep.ev["assumptions"] = MODEL[:1] + [
        "impl overlap is encoded as in rustc: headers unify and no bound of either impl is known to fail; a bound is known to fail only if no other crate may implement it (orphan rules, fundamental types) and no impl can apply",
        "the encoding is compared with rustc's verdict on witnesses of both outcomes for every declaration and on 9 hand-written controls, exhaustively for those",
    ]
    rep.ev["meaning"] = "states = (declaration, trait) pairs decided, each for every form of the user's impl; transitions = number of forms encoded; traces_validated_against_impl = crates compiled with rustc (stable; nightly for types with a negative impl)"
    f, live = gather(rep, ds, "c05", NIGHTLY + C05_PRE, C05_STABLE)
    p = Problem()
    s = tyck.Solver(f, p)
    co = Coherence(s, f)
    info = []
    no = {d.key: t for d, t in gs}
    for d in live:
        a = adt_of(f, d)
        ctl = isinstance(d, Raw)
        for trait in no.get(d.key, ["Unpin"]):
            tid = DIR[trait]
            free = [n for k, n, b in d.generics if k == "type" and trait != "Drop" and not b and not d.where]
            sel = {n: p.var(f"{d.key}|{trait}|{n}", "Int") for n in free}
            bnd = p.var(f"{d.key}|{trait}|bound", "Int")
            rng = [("<=", "0", v) for v in sel.values()] + [("<", v, str(SHAPES)) for v in sel.values()] + [("<=", "0", bnd), ("<", bnd, str(len(BOUND) if trait != "Drop" and free else 1))]
            # without a parameter there is nothing to bound
            rng.append(Implies(And(*[Not(("=", v, "0")) for v in sel.values()]), ("=", bnd, "0")) if sel else ("=", bnd, "0"))
            alts = []
            combos = [{}]
            for n in free:
                combos = [dict(c, **{n: k}) for c in combos for k in range(SHAPES)]
            for c in combos:
                args = []
                for k, n in a["generics"]:
                    args.append(("lt", "") if k == "lt" else ("const", n) if k == "const" else ARG[c[n] - 1][1] if c.get(n) else ("param", "user " + n))
                me = ("adt", a["id"], tuple(args))
                co.extra = [(tid, (me,))]
                hit = any(i["local"] and i["positive"] and co.conflicts(i, (me,)) for i in s.impls.get(tid, []) if i["id"].startswith(f"fam::m_{d.key}::") or not i["local"])
                if not hit:
                    # two impls of another trait that the user's impl makes overlap
                    for tr, ims in s.impls.items():
                        loc = [i for i in ims if i["local"] and i["positive"] and i["id"].startswith(f"fam::m_{d.key}::")]
                        for x in loc:
                            for y in loc:
                                if x is not y and x["cargs"][0][0] == "param" and y["cargs"][0][0] == "adt" and y["cargs"][0][1] == a["id"]:
                                    co.extra = []
                                    was = co.conflicts(x, y["cargs"])
                                    co.extra = [(tid, (me,))]
                                    if not was and co.conflicts(x, y["cargs"]):
                                        hit = True
                co.extra = []
                if hit:
                    alts.append(And(*[("=", sel[n], str(c[n])) for n in free]))
            over = Or(*alts) if len(alts) < len(combos) else T
            info.append((d, trait, sel, bnd, rng, over, len(combos)))
    used(rep, f, s, live)
    for k, (d, trait, sel, bnd, rng, over, n) in enumerate(info):
        if not isinstance(d, Raw):
            p.ask(("prop", k), *rng, Not(over))
        # two spread-out witnesses of each outcome
        for j, extra in enumerate([[("=", v, str((k * 3 + 1) % SHAPES)) for v in list(sel.values())[:1]], [("=", v, "0") for v in sel.values()], [("=", v, "5") for v in list(sel.values())[:1]], []]):
            for w, q in (("hit", over), ("miss", Not(over))):
                p.ask((w, k), *rng, *extra, q)
        if isinstance(d, Raw) and len(sel) == 1:
            for c in range(SHAPES):
                for w, q in (("hit", over), ("miss", Not(over))):
                    p.ask((w, k), *rng, ("=", list(sel.values())[0], str(c)), ("=", bnd, "0"), q)
    res = p.solve(rep, "c05")
    rep.ev["paths"] += len(info)
    rep.ev["assertions"] += sum(1 for x in info if not isinstance(x[0], Raw))
    rep.ev["assertions_symbolic"] += sum(1 for x in info if not isinstance(x[0], Raw) and x[2])
    rep.add("steps", sum(x[6] for x in info))
    cases, what, seen = [], [], set()
    bad = []
    for (w, k), verdict, model in res:
        if verdict != "sat":
            continue
        d, trait, sel, bnd, rng, over, n = info[k]
        if w == "prop":
            bad.append(k)
            continue
        c, b = decode(d, trait, sel, model)
        src = user_impl(d, trait, c, b)
        if (d.key, src) in seen:
            continue
        seen.add((d.key, src))
        cases.append((d, src, "Neg" in src))
        what.append((w, k))
    # every form of a (declaration, trait) the solver refutes
    for k in bad:
        d, trait, sel, bnd, rng, over, n = info[k]
        combos = [{}]
        for nm in sel:
            combos = [dict(c, **{nm: j}) for c in combos for j in range(SHAPES)]
        for c in combos:
            m = {f"{d.key}|{trait}|{nm}": str(j) for nm, j in c.items()}
            if evaluate_int(over, p, m):
                continue
            src = user_impl(d, trait, c, 0)
            if (d.key, src) not in seen:
                seen.add((d.key, src))
                cases.append((d, src, "Neg" in src))
                what.append(("miss", k))
    # the decisive part: does rustc accept a forbidden crate?
    ans = try_impls(rep, cases, "c05r")
    spurious, wrong = 0, []
    reported = set()
    for (d, src, _), (w, k), (ok, msg) in zip(cases, what, ans):
        trait = info[k][1]
        if isinstance(d, Raw):
            if (ok or "E0119" in msg) and ok != (w == "miss"):
                wrong.append(f"encoding disagrees with rustc on control {d.text()} {src}: encoding {w}, rustc {ok} {msg[:300]}")
            continue
        if ok:
            if (d.key, trait) not in reported:
                reported.add((d.key, trait))
                rep.violation(f"`{d.describe()}` together with `{src}` compiles", {"declaration": d.text(), "impl": src, "encoding": w})
            if w == "hit":
                wrong.append(f"encoding says conflict, rustc accepts: {d.describe()} {src}")
        elif w == "miss":
            spurious += 1
    codes = {}
    for (ok, msg) in ans:
        m = re.search(r"error\[(E\d+)\]", msg)
        c = "accepted" if ok else m.group(1) if m else "other error"
        codes[c] = codes.get(c, 0) + 1
    rep.ev["detail"] = {"models refuted by rustc": spurious, "rustc's verdicts on the replayed crates": codes}
    if wrong and not rep.viol:
        raise C.Broken(wrong[0])
    for (d, src, _), (w, k), (ok, msg) in list(zip(cases, what, ans))[::97][:5]:
        rep.ev["samples"].append({"declaration": d.describe()[:300], "impl": src, "accepted": ok, "rustc": msg[:120]})


def decode(d, trait, sel, model):
    c = {n: int(model.get(f"{d.key}|{trait}|{n}", "0")) for n in sel}
    b = int(model.get(f"{d.key}|{trait}|bound", "0"))
    return c, b


def evaluate_int(e, p, model):
    inv = {v: k for k, v in p.names.items()}
    if e == T or e == F:
        return e == T
    if e[0] == "and":
        return all(evaluate_int(x, p, model) for x in e[1:])
    if e[0] == "or":
        return any(evaluate_int(x, p, model) for x in e[1:])
    if e[0] == "not":
        return not evaluate_int(e[1], p, model)
    return model.get(inv[e[1]], "0") == e[2]


# ---------------------------------------------------------------- C14

VIS = ["", "pub(self)", "pub(super)", "pub(in crate::t_KEY::a)", "pub(in super::super)", "pub(crate)", "pub(in crate)", "pub"]
OBS = ["", "t_KEY", "t_KEY::a", "t_KEY::a::b", "t_KEY::a::b::c", "t_KEY::a::d", "t_KEY::e"]


def seen_decls(tier):
    out = []
    N = "project = Pm, project_ref = Pr, project_replace = Po"
    for i, v in enumerate(VIS):
        def fv(j):
            return VIS[(i + j) % len(VIS)]
        def key(x):
            return f"{x}{i}"
        named = [("abcdefgh"[j], j % 3 == 0, ["u8", "T"][j % 2], VIS[j]) for j in range(len(VIS))]
        tup = [(str(j), j % 3 == 1, ["T", "u8"][j % 2], fv(j + 1)) for j in range(len(VIS))]
        en = [("A", "named", [("x", True, "T", ""), ("y", False, "u8", "")]), ("B", "tuple", [("0", False, "T", ""), ("1", True, "u8", "")]), ("C", "unit", [])]
        G = [tyfam.TT]
        for x, kind, vs, args in (("sn", "struct", [("S", "named", named)], N), ("su", "struct", [("S", "named", named)], "project_replace"), ("tn", "struct", [("S", "tuple", tup)], N), ("tu", "struct", [("S", "tuple", tup)], "!Unpin"), ("en", "enum", en, N), ("ep", "enum", en, "project = Pm")):
            k = key(x)
            d = tyfam.D(k, kind, G, "", [(a, b, [(n, p, t, w.replace("KEY", k)) for n, p, t, w in fs]) for a, b, fs in vs], args=args, vis=v.replace("KEY", k))
            out.append(d)
            if x in ("tu", "ep"):
                d2 = tyfam.D(k + "d", kind, G, "", [(a, b, [(n, p, t, w.replace(f"t_{k}", f"t_{k}d")) for n, p, t, w in fs]) for a, b, fs in d.variants], args=args, vis=v.replace("KEY", k + "d"))
                out.append(tyfam.pd(d2))
    return out


def tree(d, at):
    """The module tree around the declaration; at: {observer: source}."""
    def o(n):
        return at.get(n.replace("KEY", d.key), "")
    return f"""pub mod t_{d.key} {{ use crate::pre::*; {o("t_KEY")}
pub mod a {{ use crate::pre::*; {o("t_KEY::a")}
pub mod b {{ use crate::pre::*;
{d.text()}
{o("t_KEY::a::b")}
pub mod c {{ use crate::pre::*; {o("t_KEY::a::b::c")} }} }}
pub mod d {{ use crate::pre::*; {o("t_KEY::a::d")} }} }}
pub mod e {{ use crate::pre::*; {o("t_KEY::e")} }} }}
"""


def C14(rep, tier):
    ds = seen_decls(tier)
    rep.ev["bounds"] = [
        f"{len(ds)} declarations: the 8 spellings of a visibility ({', '.join(v or '(none)' for v in VIS)}) on structs, tuple structs and enums in a module two levels deep, with and without named projections, fields with each of the 8 visibilities, with and without a destructor",
        "observer: any module of the crate or another crate (integer variable)",
    ]
    rep.ev["outside"] = ["deeper module trees; types declared in function bodies"]
    rep.ev["assumptions"] = MODEL[:1] + ["an item is accessible from a module exactly if the module lies in the subtree of the item's visibility; a method or field also needs its type accessible", "compared with rustc (stable) by a use of the item from the observer's module, for the solver's witnesses of both outcomes"]
    rep.ev["meaning"] = "states = (declaration, item) pairs decided, each for every observer; transitions = size of the formulas in characters; traces_validated_against_impl = uses of an item in some module that rustc accepted or rejected as the encoding says"
    pre = tyfam.PRELUDE
    live = list(ds)
    for _ in range(6):
        text, where = "#![allow(warnings)]\n" + pre, []
        for d in live:
            a = text.count("\n") + 1
            text += tree(d, {})
            where.append((a, text.count("\n"), d))
        f, errs = facts.run(text, "c14")
        if f is not None:
            break
        for lines, msg in errs:
            for d in {x[2].key: x[2] for x in where if any(x[0] <= l <= x[1] for l in lines)}.values():
                if d not in live:
                    continue
                live.remove(d)
                e1 = e2e.errors("#![allow(warnings)]\n" + pre + tree(d, {}), "c14x")
                if not e1:
                    raise C.Broken(f"declaration {d.key} fails in the driver only: {msg[:600]}")
                rep.violation(f"`{d.describe()}` does not compile: {e1[0][1][:400]}", {"declaration": d.text()})
    else:
        raise C.Broken("the declarations do not compile")
    # depth-first numbering of the modules
    kids, num = {}, {}
    for m in f["mods"]:
        kids.setdefault(m["parent"], []).append(m["id"])
    count = [0]

    def walk(m):
        lo = count[0]
        count[0] += 1
        for k in sorted(kids.get(m, [])):
            walk(k)
        num[m] = (lo, count[0] - 1)
    root = [m for m in kids[None]][0] if None in kids else "fam"
    walk(root)
    FOREIGN = count[0]
    p = Problem()
    O = p.var("observer", "Int")

    def acc(vis):
        if vis == "pub":
            return T
        if vis not in num:
            raise C.Broken("visibility in no module: " + str(vis))
        return And(("<=", str(num[vis][0]), O), ("<=", O, str(num[vis][1])))
    rng = [("<=", "0", O), ("<=", O, str(FOREIGN))]
    incrate = ("<", O, str(FOREIGN))
    info = []
    adts = {a["id"]: a for a in f["adts"]}
    for d in live:
        base = f"fam::t_{d.key}::a::b"
        a = adts[base + "::S"]
        tvis = acc(a["vis"])
        want = And(tvis, incrate)
        for m in f["fns"]:
            if not (m["assoc"] and m["self"] and m["self"].get("id") == a["id"] and m["expansion"] and not m["trait"] and m["name"] in METHODS):
                continue
            mv = acc(m["vis"])
            rep.ev["functions"].add(f"{d.key}: S::{m['name']}, visibility {m['vis']}")
            pv = adts.get(m["output"].get("id"))
            meth = And(tvis, mv, acc(pv["vis"]))
            info.append((d, "method", m["name"], None, meth, want))
            named = re.search(r"\b%s = (\w+)" % m["name"], d.args)
            if named:
                info.append((d, "type", m["name"], named.group(1), acc(pv["vis"]), want))
            if d.kind == "struct":
                pf = {x["name"]: x for x in pv["variants"][0]["fields"]}
                for x in a["variants"][0]["fields"]:
                    if x["name"] in pf:
                        fa, fb = acc(x["vis"]), acc(pf[x["name"]]["vis"])
                        info.append((d, "field", m["name"], x["name"], And(meth, fb), And(want, fa)))
    names = {num[k][0]: k for k in num}

    def observers(d):
        return {("fam::" + o.replace("KEY", d.key)) if o else "fam": o.replace("KEY", d.key) for o in OBS}
    for k, (d, what, m, n, got, want) in enumerate(info):
        obs = observers(d)
        # the modules of other declarations look like the root
        near = Or(*[("=", O, str(num[o][0])) for o in obs], ("=", O, str(FOREIGN)))
        p.ask(("prop", k), *rng, Not(Iff(got, want)))
        for w, q in (("yes", got), ("no", Not(got))):
            for j in range(2):
                lim = [("<=", O, str(num[f"fam::t_{d.key}::a::b"][0]))] if j else [(">=", O, str(num[f"fam::t_{d.key}::a::b"][0] + (k % 3)))]
                p.ask((w, k), *rng, near, *lim, q)
    rep.ev["paths"] += len(info)
    rep.ev["assertions"] += len(info)
    rep.ev["assertions_symbolic"] += len(info)
    rep.add("steps", sum(len(show(x[4])) + len(show(x[5])) for x in info))
    res = p.solve(rep, "c14")
    uses, exp, seen = [], [], set()
    for (w, k), verdict, model in res:
        if verdict != "sat":
            continue
        d, what, m, n, got, want = info[k]
        o = int(model["observer"])
        obs = observers(d)
        mod = None if o == FOREIGN else obs.get(names[o], "")
        if (k, mod, w) in seen:
            continue
        seen.add((k, mod, w))
        uses.append((d, what, m, n, mod))
        exp.append((w, k, o, evaluate_obs(got, O, o), evaluate_obs(want, O, o)))
    ans = try_uses(rep, live, uses, pre)
    wrong = []
    for (d, what, m, n, mod), (w, k, o, got, want), ok in zip(uses, exp, ans):
        place = "another crate" if mod is None else f"module `crate{'::' + mod if mod else ''}`"
        item = {"method": f"method {m}", "type": f"projection type {n}", "field": f"field {n} of {m}'s result"}[what]
        if ok != got:
            wrong.append(f"encoding disagrees with rustc: {d.describe()}: {item} from {place}: encoding {got}, rustc {ok}")
        if w == "prop" and ok != want:
            rep.violation(f"`{d.describe()}` in module `crate::t_{d.key}::a::b`: {item} is {'' if ok else 'not '}accessible from {place}, and must{'' if want else ' not'} be", {"declaration": tree(d, {}), "item": item, "observer": place})
    if wrong:
        raise C.Broken(wrong[0] + f" ({len(wrong)} in all)")
    for (d, what, m, n, mod), (w, k, o, got, want), ok in list(zip(uses, exp, ans))[::401][:5]:
        rep.ev["samples"].append({"declaration": d.describe()[:200], "item": [what, m, n], "observer": mod, "accessible": ok})


def evaluate_obs(e, O, o):
    if e == T or e == F:
        return e == T
    if e[0] == "and":
        return all(evaluate_obs(x, O, o) for x in e[1:])
    if e[0] == "or":
        return any(evaluate_obs(x, O, o) for x in e[1:])
    if e[0] == "not":
        return not evaluate_obs(e[1], O, o)
    a, b = (o if x == O else int(x) for x in e[1:])
    return {"<=": a <= b, "<": a < b, ">=": a >= b, "=": a == b}[e[0]]


def try_uses(rep, live, uses, pre):
    """Does rustc accept each use?"""
    def source(i, krate):
        d, what, m, n, mod = uses[i]
        path = f"{krate}::t_{d.key}::a::b"
        if what == "type":
            lt = "'x, " if m != "project_replace" else ""
            return f"fn u{i}<{lt}X>(_: {path}::{n}<{lt}X>) {{}}"
        S = f"{path}::S<u8>"
        q = {"project": f"p: Pin<&mut {S}>", "project_ref": f"p: Pin<&{S}>", "project_replace": f"p: Pin<&mut {S}>, v: {S}"}[m]
        return f"fn u{i}({q}) {{ let r = p.{m}({'v' if m == 'project_replace' else ''}); {'let _ = r.%s;' % n if what == 'field' else ''} }}"
    res = [None] * len(uses)
    for foreign in (False, True):
        left = [i for i, u in enumerate(uses) if (u[4] is None) == foreign]
        if foreign and left:
            t = "#![allow(warnings)]\n" + pre + "".join(tree(d, {}) for d in live)
            if e2e.errors(t, "c14lib", krate="fam"):
                raise C.Broken("the declarations do not compile as a library")
        while left:
            text = "#![allow(warnings)]\n"
            if foreign:
                text += "use core::pin::Pin;\n"
                lines = {}
                for i in left:
                    text += source(i, "fam") + "\n"
                errs = e2e.errors(text, "c14f", uses=(("fam", "c14lib"),))
            else:
                text += pre
                at = {}
                for i in left:
                    d, what, m, n, mod = uses[i]
                    at.setdefault(d.key if mod else None, {}).setdefault(mod, []).append("\n" + source(i, "crate"))
                text += "use core::pin::Pin;\n" + "\n".join(at.get(None, {}).get("", [])) + "\n"
                for d in live:
                    text += tree(d, {k: "".join(v) + "\n" for k, v in at.get(d.key, {}).items()})
                errs = e2e.errors(text, "c14u")
            if not errs:
                for i in left:
                    res[i] = True
                break
            lines = text.split("\n")
            hit = set()
            for ls, msg in errs:
                h = {int(m.group(1)) for l in ls for m in [re.match(r"\s*fn u(\d+)[(<]", lines[l - 1])] if m}
                if not h:
                    raise C.Broken("replay program has errors outside the uses: " + msg[:1200])
                hit |= h
            for i in hit:
                res[i] = False
            left = [i for i in left if i not in hit]
    rep.add("replayed", len(uses))
    return res


def named_types(d):
    return {m: x.group(1) for m in METHODS for x in [re.search(r"\b%s = (\w+)" % m, d.args)] if x}


def header_programs(d, m, n):
    """[(source with P, source with S)]: a function generic over the declaration's parameters, with all its bounds and with one left out."""
    bounds = []
    for k, g, b in d.generics:
        if k != "const":
            for x in split_plus(b):
                if not x.startswith("?"):
                    bounds.append(f"{g}: {x}")
    for w in split_commas(d.where):
        t, b = w.split(":", 1) if not w.startswith("for") else (w, "")
        if "::" in w.split(":", 1)[0] + ":" + w.split(":", 1)[1][:1]:
            i = re.search(r"(?<!:):(?!:)", w).start()
            t, b = w[:i], w[i + 1:]
        bounds += [f"{t}: {x}" for x in split_plus(b)]
    relaxed = {g: [x for x in split_plus(b) if x.startswith("?")] for k, g, b in d.generics}
    # lifetime bounds are implied by the argument's type
    must = [b for b in bounds if re.search(r":\s*'", b)]
    drop = [b for b in bounds if b not in must]
    ps = ", ".join(f"const {g}: {b}" if k == "const" else g + (": " + relaxed[g][0] if relaxed[g] else "") for k, g, b in sorted(d.generics, key=lambda x: x[0] != "lt"))
    args = ", ".join(g for k, g, b in d.generics)
    lt = "'x0, " if m != "project_replace" else ""
    out = []
    for gone in [None] + drop:
        w = ", ".join(b for b in bounds if b != gone)
        for what, ty in (("P", f"{n}<{lt}{args}>"), ("S", f"S<{args}>")):
            out.append((what, gone, f"fn u<{lt}{ps}>(_: &{ty}) where {w} {{}}"))
    return out


def split_commas(t):
    out, depth, cur = [], 0, ""
    for i, c in enumerate(t):
        depth += c in "<(["
        depth -= c in ")]" or (c == ">" and t[i - 1] != "-")
        if c == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    return [x.strip() for x in out + [cur] if x.strip()]


def split_plus(t):
    return [x.strip() for x in re.split(r"\+(?![^<(]*[>)])", t) if x.strip()]


def existence(rep, tier):
    ds = tyfam.family(tier) + tyfam.extra() + tyfam.modes() + tyfam.bounded() + tyfam.argued() + tyfam.defaulted() + tyfam.selfs()
    rep.ev["bounds"] += [f"as rustc sees it: {len(ds)} declarations, any name (integer variable), any position in the generics (integer variable), every assignment of the bounds of the parameters"]
    rep.ev["assumptions"] = rep.ev["assumptions"] + MODEL[:2]
    f, live = gather(rep, ds, "c18")
    p = Problem()
    s = tyck.Solver(f, p)
    name, pos = p.var("name", "Int"), p.var("position", "Int")
    ids = {}

    def code(n):
        return str(ids.setdefault(n, len(ids)))

    def among(ns):
        return Or(*[("=", name, code(n)) for n in sorted(ns)])
    info, cases, exp = [], [], []
    adts = {a["id"]: a for a in f["adts"]}
    for d in live:
        mod = f"fam::m_{d.key}"
        a = adt_of(f, d)
        got = {m["name"] for m in methods(f, d)} & set(METHODS)
        want = expected_methods(d)
        info.append((d, "method", None, among(got), among(want), T))
        for m in METHODS:
            w = f" where {d.where}" if d.where else ""
            cases.append((d, "own", f"impl{d.gen()} S{d.use()}{w} {{ fn u{len(cases)}() {{ let _ = Self::{m}; }} }}"))
            exp.append((m in got, m in want, f"method {m}", None))
        gott = {x["name"] for x in f["adts"] if x["local"] and x["parent"] == mod}
        wantt = {"S"} | set(named_types(d).values())
        info.append((d, "type", None, among(gott), among(wantt), T))
        for n in sorted(gott | wantt | {"Pm", "Pr", "Po"}):
            cases.append((d, "own", f"use super::{n} as X;"))
            exp.append((n in gott, n in wantt, f"type {n}", None))
        for m, n in named_types(d).items():
            b = adts.get(mod + "::" + n)
            if not b:
                continue
            rep.ev["functions"].add(f"{d.key}: type {n} of {m}")
            gk = [k for k, _ in b["generics"]]
            wk = (["lt"] if m != "project_replace" else []) + [k for k, _ in a["generics"]]
            K = {"lt": "1", "type": "2", "const": "3"}

            def at(ks):
                return [("=", pos, str(i)) if False else And(("=", pos, str(i)), ("=", name, K[k])) for i, k in enumerate(ks)]
            info.append((d, "generics", (m, n), Or(*at(gk)), Or(*at(wk)), T))
            if gk == wk:
                env = {x[1]: (("lt", "") if x[0] == "lt" else ("const", y[1]) if x[0] == "const" else ("param", y[1])) for x, y in zip(b["generics"][len(gk) - len(a["generics"]):], a["generics"])}
                s.scope = d.key + "|"

                def wf(z, e):
                    out = []
                    for q in z["preds"]:
                        if q["k"] == "trait" and q["positive"] and q["trait"] not in tyck.SIZED:
                            out.append(s.holds(q["trait"], tuple(subst(conv(x), e) for x in q["args"])))
                    return And(*out)
                info.append((d, "bounds", (m, n), wf(b, env), wf(a, {}), T))
                if any(a["defaults"]) or any(b["defaults"]):
                    def dfl(xs):
                        return Or(*[And(("=", pos, str(i)), ("=", name, code("default " + x))) for i, x in enumerate(xs) if x])
                    info.append((d, "defaults", (m, n), dfl(b["defaults"][len(gk) - len(a["generics"]):]), dfl(a["defaults"]), T))
                # the method returns it
            for x in methods(f, d):
                if x["name"] == m:
                    o = conv(x["output"])
                    info.append((d, "result", (m, n), T if o[0] == "adt" and o[1] == mod + "::" + n else F, T, T))
    for k, (d, what, mn, got, want, wf) in enumerate(info):
        p.ask(k, Not(Iff(got, want)))
    rep.ev["paths"] += len(info)
    rep.ev["assertions"] += len(info)
    rep.ev["assertions_symbolic"] += len(info)
    res = p.solve(rep, "c18")
    back = {v: k for k, v in ids.items()}
    todo = []
    for k, verdict, model in res:
        if verdict == "sat":
            todo.append(info[k])
    # rustc's answer to every question above, and for bounds the header with each bound left out
    heads = []
    for d in live:
        for m, n in named_types(d).items():
            if any(x[0] is d and x[2] == (m, n) for x in todo) or d.key.startswith("b"):
                for what, gone, src in header_programs(d, m, n):
                    heads.append((d, m, n, what, gone, len(cases)))
                    cases.append((d, "own", src))
                    exp.append(None)
    ans = accepted_own(rep, cases, "c18")
    wrong = []
    for (d, _, src), e, ok in zip(cases, exp, ans):
        if e is None:
            continue
        got, want, what, _ = e
        if ok != got:
            wrong.append(f"facts disagree with rustc: {d.describe()}: {what}: facts {got}, rustc {ok}")
        elif ok != want:
            rep.violation(f"`{d.describe()}`: {what} {'exists' if ok else 'does not exist'}, and must{'' if want else ' not'}", {"declaration": d.text(), "use": src})
    by = {}
    for d, m, n, what, gone, i in heads:
        by.setdefault((d.key, m, gone), {})[what] = (d, n, i)
    confirmed = set()
    for (key, m, gone), x in by.items():
        d, n, i = x["P"]
        if ans[i] != ans[x["S"][2]]:
            confirmed.add((key, m))
            rep.violation(f"`{d.describe()}`: projection type {n} of {m} is {'' if ans[i] else 'not '}well-formed where S is {'' if ans[x['S'][2]] else 'not '}: `{cases[i][2]}`", {"declaration": d.text(), "use": cases[i][2]})
    if wrong and not rep.viol:
        raise C.Broken(wrong[0] + f" ({len(wrong)} in all)")
    for d, what, mn, got, want, wf in todo:
        if what == "result":
            m, n = mn
            # `let r: P<..> = x.project()` must be accepted
            ok = accepted(rep, [(d, {}, f"fn u<'x0@L>() {{ let f = <@S>::{m}; }} fn v<'x0@L>(r: {n}<{chr(39) + 'x0, ' if m != 'project_replace' else ''}{', '.join(g for k, g, b in d.generics)}>, q: @S, p: Pin<&'x0 {'' if m == 'project_ref' else 'mut '}@S>) {{ let mut r = r; r = p.{m}({'q' if m == 'project_replace' else ''}); }}")], "c18r")
            if not ok[0]:
                rep.violation(f"`{d.describe()}`: {m} does not return {n}", {"declaration": d.text()})
        elif what == "defaults":
            m, n = mn
            # the projection type with the arguments that have defaults left out is the one with them written out
            k = min([i for i, (_, g, _) in enumerate(d.generics) if g in d.defaults] or [len(d.generics)])
            lt = ["'x0"] if m != "project_replace" else []
            short, full = [x + [g for _, g, _ in d.generics[:k]] for x in (lt, lt)], [d.defaults.get(g, g) for _, g, _ in d.generics[k:]]
            gen = ", ".join(["'x0"] + [x for x in tyfam.D("", "", d.generics[:k], "", []).gen()[1:-1].split(", ") if x])
            src = f"fn u<{gen}>(x: {n}<{', '.join(short[0])}>) -> {n}<{', '.join(short[1] + full)}>{' where ' + d.where if d.where and k else ''} {{ x }}"
            ok = accepted_own(rep, [(d, "own", src), (d, "own", f"fn u<{gen}>(x: S<{', '.join(g for _, g, _ in d.generics[:k])}>) -> S<{', '.join([g for _, g, _ in d.generics[:k]] + full)}> {{ x }}")], "c18d")
            if not ok[0] and ok[1]:
                rep.violation(f"`{d.describe()}`: projection type {n} of {m} has other defaults than S: `{src}`", {"declaration": d.text(), "use": src})
            else:
                rep.add("unobservable", 1)
                rep.ev["notes"].append(f"difference in defaults of {n} without observable effect: {d.describe()}")
        elif what in ("bounds", "generics") and (d.key, mn[0]) not in confirmed:
            rep.add("unobservable", 1)
            rep.ev["notes"].append(f"difference in {what} of {mn[1]} without observable effect: {d.describe()}")


def accepted_own(rep, cases, name):
    """As accepted, but a case with choice "own" brings its own parameters."""
    live = list(range(len(cases)))
    for _ in range(8):
        if not live:
            break
        text = "#![allow(warnings)]\n" + tyfam.PRELUDE
        byd, where = {}, []
        for i in live:
            d, ch, src = cases[i]
            byd.setdefault(d.key, (d, []))[1].append((i, ch, src))
        for key, (d, xs) in byd.items():
            text += f"pub mod m_{key} {{ use super::pre::*;\n{d.text()}\n"
            for i, ch, src in xs:
                items, lts = instance(d, ch) if ch != "own" else ("", [])
                src = src.replace("@L", "".join(", " + l for l in lts)).replace("@S", "S" + d.use())
                a = text.count("\n") + 1
                text += f"mod k{i} {{ use super::*; {items}\n{src} }}\n"
                where.append((a, text.count("\n"), i))
            text += "}\n"
        errs = e2e.errors(text, name)
        if not errs:
            break
        bad = set()
        for lines, msg in errs:
            hit = {i for a, b, i in where if any(a <= l <= b for l in lines)}
            if not hit:
                raise C.Broken(f"replay program {name} has errors outside its functions: {msg[:1500]}")
            bad |= hit
        live = [i for i in live if i not in bad]
    rep.add("replayed", len(cases))
    return [i in set(live) for i in range(len(cases))]


def C19(rep, tier):
    ds = tyfam.family(tier) + tyfam.extra() + tyfam.bounded() + tyfam.argued() + tyfam.selfs()
    rep.ev["bounds"] = [
        f"{len(ds)} declarations (see C02 and C18); every field of every projection",
        "every choice of the lifetimes of the method's signature by the caller (integer variables, longer = greater), under the bounds the signature states",
    ]
    rep.ev["outside"] = ["declarations outside these families; unsafe code in the user's crate"]
    rep.ev["assumptions"] = MODEL[:1] + ["a caller may instantiate the lifetimes of a signature in any way that satisfies its bounds; rustc checks the caller, and the body of the method only up to the unsafe code in it", "for every field rustc (stable) is asked to accept a function that returns the field for the receiver's lifetime and to reject one that returns it for an unrelated one"]
    rep.ev["meaning"] = "states = (declaration, method, field) triples decided, each for every choice of lifetimes; transitions = size of the formulas in characters; traces_validated_against_impl = programs that return the field for the receiver's or an unrelated lifetime, each accepted or rejected by rustc"
    ds = ds + names.types(names.suspects(rep, names.DEFAULT))
    f, live = gather(rep, ds, "c19")
    p = Problem()
    s = tyck.Solver(f, p)
    adts = {a["id"]: a for a in f["adts"]}
    info, cases, exp = [], [], []
    STATIC = "1000000"

    def region(n, d, m):
        return STATIC if n in ("'static", "static") else p.var(f"{d.key} {m}: {n}", "Int")
    for d in live:
        for m in methods(f, d):
            n = m["name"]
            if n not in ("project", "project_ref"):
                continue
            slf, out = conv(m["inputs"][0], True), conv(m["output"], True)
            if slf[0] != "adt" or slf[1] != PIN or slf[2][0][0] != "ref" or out[0] != "adt" or out[1] not in adts:
                raise C.Broken(f"{d.key}: {n} has an unexpected signature")
            b = adts[out[1]]
            rep.ev["functions"].add(f"{d.key}: S::{n}")
            env = {g: (a[1] if a[0] == "lt" else None) for (k, g), a in zip(b["generics"], out[2])}
            recv = region(slf[2][0][3], d, n)
            bounds = []
            for q in m["preds"]:
                x = re.match(r"OutlivesClause\(('\w+)(?:/#\d+)?, ('\w+)(?:/#\d+)?\)$", q.get("name", ""))
                if x:
                    bounds.append((">=", region(x.group(1), d, n), region(x.group(2), d, n)))
            for v, (vn, st, flds) in enumerate(d.variants):
                for i, (fn_, pin, ft, _) in enumerate(flds):
                    nm = fn_.replace("r#", "")
                    fl = [x for x in b["variants"][v]["fields"] if x["name"] == nm] if v < len(b["variants"]) else []
                    if not fl:
                        continue  # C02
                    t = conv(fl[0]["ty"], True)
                    t = t[2][0] if t[0] == "adt" and t[1] == PIN else t
                    if t[0] != "ref":
                        continue  # C02
                    lt = env.get(t[3], t[3])
                    if lt is None:
                        raise C.Broken(f"{d.key}: lifetime {t[3]} of {nm}")
                    got = region(lt, d, n)
                    k = len(info)
                    info.append((d, n, v, i, got, recv))
                    dom = [And((">=", x, "0"), ("<=", x, STATIC)) for x in sorted({got, recv} - {STATIC})]
                    p.ask(k, *dom, *bounds, Not(("=", got, recv)))
                    rep.add("steps", len(show(And(*bounds))) + 20)
                    pinned = (v, i) in set(d.pinned())
                    mut = "mut " if n == "project" else ""
                    for life, want in (("'x0", True), ("'y0", False)):
                        ref = f"&{life} {mut}({field_ty(d, v, i)})"
                        ret = f"Pin<{ref}>" if pinned else ref
                        gen = "<'x0, 'y0" + (", " + d.outer(d.gen())[1:] if d.generics else ">")
                        cases.append((d, "own", f"fn f{gen}(p: Pin<&'x0 {mut}@S>) -> {ret}{' where ' + d.outer(d.where) if d.where else ''} {{ {field_of(d, n, v, i, f'p.{n}()')} }}"))
                        exp.append((k, want))
    rep.ev["paths"] += len(info)
    rep.ev["assertions"] += len(info)
    rep.ev["assertions_symbolic"] += len(info)
    bad = {k for k, verdict, model in p.solve(rep, "c19") if verdict == "sat"}
    ans = accepted_own(rep, cases, "c19")
    wrong, seen = [], set()
    for (d, ch, src), (k, want), ok in zip(cases, exp, ans):
        _, n, v, i, got, recv = info[k]
        if ok == want:
            continue
        if k in bad:
            seen.add(k)
            rep.violation(f"`{d.describe()}`: field {d.variants[v][2][i][0]} of the result of {n} {'outlives' if ok else 'does not live as long as'} the borrow it comes from: rustc {'accepts' if ok else 'rejects'} `{src}`", {"declaration": d.text(), "program": src})
        else:
            wrong.append(f"encoding disagrees with rustc: {d.describe()}: {src}: rustc {'accepts' if ok else 'rejects'}")
    for k in bad - seen:
        rep.add("unobservable", 1)
        rep.ev["notes"].append(f"lifetimes that differ without observable effect: {info[k][0].describe()} {info[k][1]}")
    if wrong and not rep.viol:
        raise C.Broken(wrong[0] + f" ({len(wrong)} in all)")
    for (d, ch, src), ok in list(zip(cases, ans))[::301][:5]:
        rep.ev["samples"].append({"declaration": d.describe()[:200], "program": src, "accepted": ok})
