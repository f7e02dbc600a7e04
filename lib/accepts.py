"""Declarations that the documentation does not exclude, in unusual forms. rustc must accept each with the macro if it does without."""
import re
import common as C
import e2e, known, tyfam

PRELUDE = """pub mod odd { pub use pin_project::*; pub use core::marker::*; pub use core::pin::Pin;
pub trait Tr { type A; } pub trait Ob {} pub trait G<T> { type B<'a> where Self: 'a; }
macro_rules! ty { ($($t:tt)*) => { $($t)* } }
pub(crate) use ty;
}
"""

ODD = r"""
#[pin_project] struct S { #[pin] a: dyn for<'a> Fn(&'a u8) -> &'a u8 }
#[pin_project] struct S<'a> { #[pin] a: &'a mut (dyn Ob + Send + 'a), b: str }
#[pin_project] struct S<'a, T> { b: &'a T, #[pin] a: [T] }
#[pin_project(!Unpin)] struct S<'a, T> { b: &'a T, #[pin] a: [T] }
#[pin_project(UnsafeUnpin)] struct S<'a, T> { b: &'a T, #[pin] a: [T] }
#[pin_project(project = P, project_ref = R)] struct S<'a, T: ?Sized> { b: &'a u8, #[pin] a: T }
#[pin_project(PinnedDrop)] struct S<'a, T: ?Sized> { b: &'a u8, #[pin] a: T } #[pinned_drop] impl<'a, T: ?Sized> PinnedDrop for S<'a, T> { fn drop(self: Pin<&mut Self>) {} }
#[pin_project] struct S<T> where T: ?Sized { b: u8, #[pin] a: T }
#[pin_project] struct S<T> where T: ?Sized, { b: u8, #[pin] a: T }
#[pin_project] struct S<T>(#[pin] T) where T: Copy,;
#[pin_project] struct S<T,>(#[pin] T,);
#[pin_project] struct S<>(#[pin] u8,);
#[pin_project] struct S<T>(#[pin] T) where;
#[pin_project] struct S<T> where { #[pin] a: T }
#[pin_project(project = P)] enum E<T> where { A(#[pin] T), B {}, C(), D }
#[pin_project(project = P, project_ref = R, project_replace = O)] enum E<T> where { A(#[pin] T), B {}, C(), D, }
#[pin_project] struct S<T:>{ #[pin] a: T }
#[pin_project] struct S<'a:, T>{ #[pin] a: &'a T }
#[pin_project] struct S<'a, 'b: 'a + , T: Copy + >{ #[pin] a: &'a &'b T }
#[pin_project] struct S<#[cfg(all())] T>{ #[pin] a: T }
#[pin_project] struct S<#[cfg(any())] U, T>{ #[pin] a: T }
#[pin_project] struct S<#[cfg(all())] 'a, T>{ #[pin] a: &'a T }
#[pin_project] struct S<T: for<'x> Fn(&'x u8) -> &'x u8>{ #[pin] a: T }
#[pin_project] struct S<T> where for<'x> T: Fn(&'x u8) -> &'x u8 { #[pin] a: T }
#[pin_project] struct S<T> where for<'x> &'x T: Tr<A = &'x u8> { #[pin] a: T }
#[pin_project] struct S<T: Tr<A: Copy>> { #[pin] a: T::A }
#[pin_project] struct S<const N: usize, T> where [T; N]: Sized { #[pin] a: [T; N] }
#[pin_project] struct S<const N: usize = 3> { #[pin] a: [u8; N] }
#[pin_project] struct S<const N: char = 'x'> { #[pin] a: u8 }
#[pin_project] struct S<const N: i8 = -3> { #[pin] a: u8 }
#[pin_project] struct S<const N: bool = { true && false }, T = u8> { #[pin] a: T }
#[pin_project] struct S<T> { #[pin] a: ty!(Option<T>), b: ty![fn(u8) -> T] }
#[pin_project] struct S { #[pin] a: extern "C" fn(u8), b: unsafe extern "system" fn() -> u8, c: unsafe extern "C" fn(*const u8, ...) -> u8 }
#[pin_project] struct S { #[pin] a: fn(x: u8, _: u16) -> (), b: for<'a, 'b> fn(&'a u8, &'b u8) -> &'a u8 }
#[pin_project] struct S<T> { #[pin] a: (T), b: ((T)) }
#[pin_project] struct S<'a, T: G<u8> + 'a> { #[pin] a: T::B<'a> }
#[pin_project] struct S { #[pin] a: [u8; { const X: usize = 3; X }], b: [u8; 1 + 2] }
#[pin_project] pub(in crate) struct S { #[pin] pub(crate) a: u8, pub(in crate) b: u8, pub(self) c: u8 }
mod a { pub mod b { use pin_project::*; #[pin_project(project = P)] pub(in super::super::a) struct S { #[pin] pub(in super::super) a: u8, pub(super) b: u8 } } }
mod a { pub mod b { use pin_project::*; #[pin_project(project = P, project_ref = R)] pub(super) enum S { A(#[pin] u8) } } }
fn f<T>(t: T) { #[pin_project] struct S<T> { #[pin] a: T } let x = S { a: t }; }
fn f() { #[pin_project(project = P)] enum E { A(#[pin] u8) } impl E { fn g(self: Pin<&mut Self>) { match self.project() { P::A(x) => {} } } } }
const X: u8 = { #[pin_project] struct S<T> { #[pin] a: T } 3 };
#[pin_project] #[derive(Debug, Clone, Copy, PartialEq, Default)] struct S<T> { #[pin] a: T }
#[derive(Debug, Clone, Copy, PartialEq, Default)] #[pin_project] struct S<T> { #[pin] a: T }
#[derive(Debug, Default)] #[pin_project(project = P)] enum S<T> { A(#[pin] T), #[default] B }
#[pin_project(project = P)] #[derive(Debug, Default)] enum S<T> { A(#[pin] T), #[default] B }
#[pin_project] #[repr(C)] struct S<T> { #[pin] a: T }
#[pin_project] #[repr(transparent)] struct S<T> { #[pin] a: T }
#[pin_project] #[repr(align(16))] struct S<T> { #[pin] a: T }
#[pin_project(project = P)] #[repr(u8)] enum S<T> { A(#[pin] T) }
#[pin_project(project = P)] #[repr(C, u8)] enum S<T> { A(#[pin] T) }
#[pin_project(project = P)] #[non_exhaustive] enum S<T> { #[non_exhaustive] A(#[pin] T) }
#[pin_project(project = P)] #[non_exhaustive] struct S<T> { #[pin] a: T }
#[pin_project] #[must_use = "x"] #[doc(hidden)] #[deprecated] struct S<T> { #[pin] a: T, #[deprecated] b: u8 }
#[pin_project(project = P, project_ref = R, project_replace = O)] #[deprecated] enum S<T> { #[deprecated] A(#[pin] T), #[deprecated] B { #[deprecated] a: u8, #[pin] b: T } }
mod x { #[pin_project::pin_project] struct Pin<T> { #[pin] a: T } }
mod x { #[pin_project::pin_project(PinnedDrop)] struct PinnedDrop<T> { #[pin] a: T } #[pin_project::pinned_drop] impl<T> PinnedDrop for PinnedDrop<T> { fn drop(self: core::pin::Pin<&mut Self>) {} } }
mod x { #[pin_project::pin_project] struct Drop<T> { #[pin] a: T } }
mod x { #[pin_project::pin_project] struct Option<T> { #[pin] a: T } }
mod x { #[pin_project::pin_project] struct Unpin<T> { #[pin] a: T } }
mod x { #[pin_project::pin_project(project = Proj)] enum r#enum<T> { r#fn(#[pin] T), r#struct { #[pin] r#type: T } } }
mod x { #[pin_project::pin_project(project = r#struct)] enum E<T> { A(#[pin] T) } }
#[pin_project(project = P)] enum E<T> { E(#[pin] T), P(T), Self_ }
#[pin_project(project = P)] enum E<T> { Some(#[pin] T), None, Ok(T), Err }
#[pin_project(project = P)] enum E<T> { T(#[pin] T), Unpin(T), Drop, Pin }
#[pin_project] struct S<Pin, Unpin, Drop> { #[pin] a: Pin, b: Unpin, c: Drop }
#[pin_project] struct S<Sized, T> { #[pin] a: Sized, b: T }
#[pin_project(UnsafeUnpin)] struct S<UnsafeUnpin> { #[pin] a: UnsafeUnpin }
#[pin_project(!Unpin)] struct S<PhantomPinned, Wrapper> { #[pin] a: PhantomPinned, b: Wrapper }
#[pin_project(project_replace)] struct S<PhantomData, ManuallyDrop> { #[pin] a: PhantomData, b: ManuallyDrop }
#[pin_project] struct S<u8, str> { #[pin] a: u8, b: str }
#[pin_project(project_replace)] struct S<const self_: usize> { #[pin] a: u8, b: u8 }
#[pin_project] struct S { #[pin] self_: u8, Self_: u8, r#try: u8, r#async: u8, union: u8, auto: u8, r#dyn: u8, macro_rules: u8, default: u8 }
#[pin_project] struct S { #[doc = "x"] #[pin] #[allow(x)] a: u8, /** y */ b: u8 }
#[pin_project] struct S { #[rustfmt::skip] #[pin] a: u8 }
#[pin_project] struct S(#[rustfmt::skip] #[pin] u8, #[clippy::x] u8);
#[pin_project(project = P)] enum S { #[rustfmt::skip] A(#[pin] u8), #[cfg(any())] B(u8), #[cfg(all())] C(u8) }
#[pin_project(project = P, project_ref = R, project_replace = O)] enum S { A(#[pin] u8), #[cfg(any())] B(u8), #[cfg(all())] C(u8), D { #[cfg(any())] x: u8, #[cfg(all())] #[pin] y: u8 } }
#[pin_project(project_replace)] struct S { #[cfg(any())] a: Nope, #[pin] b: u8 }
#[pin_project(project_replace)] struct S(#[cfg(any())] Nope, #[pin] u8);
#[cfg(all())] #[pin_project] #[cfg(all())] struct S { #[pin] b: u8 }
#[pin_project] #[cfg_attr(all(), derive(Clone))] struct S { #[pin] b: u8 }
#[cfg_attr(all(), pin_project)] struct S { #[pin] b: u8 }
#[cfg_attr(all(), pin_project(project = P))] #[cfg_attr(all(), repr(C))] struct S { #[cfg_attr(all(), pin)] b: u8 }
#[pin_project::pin_project] struct S { #[pin] b: u8 }
#[::pin_project::pin_project] struct S { #[pin] b: u8 }
use pin_project::pin_project as pp; #[pp] struct S { #[pin] b: u8 }
macro_rules! m { ($($v:vis struct $n:ident { $(#[$m:meta])* $f:ident: $t:ty })*) => { $(#[pin_project] $v struct $n { $(#[$m])* $f: $t })* } } m! { pub struct S { #[pin] a: Vec<u8> } struct S2 { #[pin] a: dyn Send } }
macro_rules! m { ($($i:item)*) => { $(#[pin_project] $i)* } } m! { pub struct S { #[pin] a: Vec<u8> } struct S2<'a> { #[pin] a: &'a u8 } }
macro_rules! m { ($n:ident, $lt:lifetime, $t:ident, $b:path, $e:expr, $v:vis) => { #[pin_project(project = P)] $v enum $n<$lt, $t: $b + $lt> { A(#[pin] &$lt $t, [u8; $e]) } } } m! { N, 'x, Q, Copy, 1 + 2, pub(crate) }
macro_rules! m { ($t:ty) => { #[pin_project(project_replace = O)] struct S { #[pin] a: $t, b: $t } } } m! { Box<dyn Ob + Send> }
macro_rules! m { ($a:ident) => { #[pin_project($a = Foo)] struct S { #[pin] a: u8 } } } m! { project }
macro_rules! m { ($($a:tt)*) => { #[pin_project($($a)*)] struct S { #[pin] a: u8 } } } m! { project = Foo, !Unpin }
macro_rules! m { ($p:ident) => { #[pin_project(project = $p, project_ref = R)] struct S { #[pin] a: u8 } fn f(x: Pin<&mut S>) { let $p { a } = x.project(); } } } m! { Foo }
macro_rules! m { ($f:ident) => { #[pin_project(project_replace)] struct S { #[pin] a: u8, $f: u16 } fn f(x: Pin<&mut S>) { let y = x.project().$f; } } } m! { a2 }
macro_rules! m { ($f:ident) => { #[pin_project(project_replace)] struct S { #[pin] a: u8, $f: u16 } } } m! { this }
macro_rules! m { ($lt:lifetime) => { #[pin_project(project = P)] struct S<$lt> { #[pin] a: &$lt u8 } } } m! { 'pin }
macro_rules! m { () => { #[pin_project(project = P)] struct S<'pin> { #[pin] a: &'pin u8 } } } m! { }
#[pin_project] struct S<'pin, '_pin, '__pin> { #[pin] a: (&'pin u8, &'_pin u8, &'__pin u8) }
#[pin_project] struct S<T> where T: for<'pin> Fn(&'pin u8), { #[pin] a: T }
#[pin_project] struct S { #[pin] a: for<'pin> fn(&'pin u8), b: Box<dyn for<'pin> Fn(&'pin u8)> }
#[pin_project] struct S<'a, T> where 'a: 'static, T: 'a, &'a T: { #[pin] a: &'a T }
#[pin_project] struct S<T: Copy + ?Sized + 'static> { #[pin] a: &'static T }
#[pin_project] struct S<T: core::ops::Deref<Target = U> + Ob, U: ?Sized> { #[pin] a: T, b: Box<U> }
#[pin_project] struct S<T: (Copy)> { #[pin] a: T }
#[pin_project] struct S<T: (?Sized)> { #[pin] a: T }
#[pin_project] struct S<T> where T: (?Sized) { #[pin] a: T }
#[pin_project] struct S<F: AsyncFn(u8) -> u8> { #[pin] a: F }
#[pin_project] struct S<T> where T: Iterator<Item: Copy> { #[pin] a: T, b: Option<T::Item> }
#[pin_project] struct S<T: core::fmt::Debug + use_> where { #[pin] a: T } trait use_ {}
#[pin_project] struct S { #[pin] a: impl_, b: dyn_ } struct impl_; struct dyn_;
#[pin_project] struct S { #[pin] a: *const (dyn Ob + 'static) }
#[pin_project] struct S { a: [Box<dyn Ob>] }
#[pin_project] struct S { a: Box<dyn Ob>, b: Pin<&'static mut dyn Ob>, c: Option<&'static dyn Ob>, d: std::cell::Ref<'static, dyn Ob> }
#[pin_project] struct S<'a> { a: std::cell::Ref<'a, dyn Ob>, #[pin] b: &'a [&'a dyn Ob] }
#[pin_project] struct S { #[pin] a: &'static str, b: *const dyn Ob, c: *mut [u8] }
#[pin_project] struct S { a: *const u8, #[pin] b: [*const dyn Ob; 2] }
#[pin_project] struct S { a: (u8, *mut dyn Ob) }
#[pin_project] struct S { a: fn(*const dyn Ob) }
""".strip().split("\n")


def plain(t):
    return re.sub(r"#\[pin\]|#\[cfg_attr\(all\(\), pin\)\]", "", re.sub(r"#\[(pin_project|::pin_project::pin_project|pin_project::pin_project|pp)\b(\([^\]]*\))?\]|#\[cfg_attr\(all\(\), pin_project[^\]]*\]|#\[(pin_project::)?pinned_drop\].*$", "", t))


def rejected():
    """(what, program, the same without the reason to reject it)"""
    out = []
    drop = "#[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) {} }"
    for args in ("", "project_replace", "project = P, project_ref = R", "!Unpin", "UnsafeUnpin", "PinnedDrop"):
        for body in ("{ #[pin] f: u32 }", "{ f: u32 }", "{ a: u8, #[pin] b: u8, c: u64 }", "(u8, #[pin] u16);", "(u8, u16, #[pin] u8);", "(#[pin] [u32; 2]);", "{ #[pin] a: (), b: u8, c: [u8; 4], d: *const u8 }"):
            for hint, good in (("repr(packed)", "repr(C)"), ("repr(C, packed(1))", "repr(C)")) if args in ("", "project_replace") else (("repr(packed)", "repr(C)"),):
                for how in ("#[pin_project(%s)] #[grp::hide(%s)]", "#[grp::hide2(%s)] #[pin_project(%s)]", "#[pin_project(%s)] #[grp::hide2(%s)]", "#[pin_project(%s)] #[cfg_attr(all(), %s)]"):
                    def mk(h):
                        return how % ((args, h) if how.startswith("#[pin_p") else (h, args)) + " struct S " + body + " " + (drop if args == "PinnedDrop" else "")
                    out.append(("a packed type is accepted if another macro makes it packed", mk(hint), mk(good)))
    for a, b in (
        ("#[pin_project] struct S { #[cfg(any())] #[pin] f: u8 }", "#[pin_project] struct S { #[cfg(all())] #[pin] f: u8 }"),
        ("#[pin_project] struct S(#[cfg(any())] u8);", "#[pin_project] struct S(#[cfg(all())] u8);"),
        ("#[pin_project(project = P)] enum S { #[cfg(any())] A(u8) }", "#[pin_project(project = P)] enum S { #[cfg(all())] A(u8) }"),
        ("#[pin_project(project = P)] enum S { #[cfg(any())] A(u8), B }", "#[pin_project(project = P)] enum S { #[cfg(all())] A(u8), B }"),
        ("#[pin_project(project = P)] enum S { A(#[cfg(any())] u8), B }", "#[pin_project(project = P)] enum S { A(#[cfg(all())] u8), B }"),
        ("#[pin_project] #[grp::hide(pin)] struct S { #[pin] f: u8 }", "#[pin_project] #[grp::hide(allow(unused))] struct S { #[pin] f: u8 }"),
        ("#[grp::hide(pin)] #[pin_project] struct S { #[pin] f: u8 }", "#[grp::hide(allow(unused))] #[pin_project] struct S { #[pin] f: u8 }"),
        ("#[pin_project] #[grp::bare] struct S { #[pin] f: u8 }", "#[grp::bare] #[pin_project] struct S { #[pin] f: u8 }"),
        ("#[pin_project] #[grp::more(, #[pin] #[pin] g: u8)] struct S { #[pin] f: u8 }", "#[pin_project] #[grp::more(, #[pin] g: u8)] struct S { #[pin] f: u8 }"),
        ("#[pin_project] #[cfg_attr(all(), pin_project)] struct S { #[pin] f: u8 }", "#[pin_project] #[cfg_attr(any(), pin_project)] struct S { #[pin] f: u8 }"),
        ("#[pin_project] struct S { #[pin] #[cfg_attr(all(), pin)] f: u8 }", "#[pin_project] struct S { #[pin] #[cfg_attr(any(), pin)] f: u8 }"),
        ("#[pin_project] struct S { #[cfg_attr(all(), pin(x))] f: u8 }", "#[pin_project] struct S { #[cfg_attr(any(), pin(x))] f: u8 }"),
        ("#[pin_project] #[cfg_attr(all(), pin)] struct S { f: u8 }", "#[pin_project] #[cfg_attr(any(), pin)] struct S { f: u8 }"),
        ("#[pin_project(project = P)] enum S { #[cfg_attr(all(), pin)] A(u8) }", "#[pin_project(project = P)] enum S { #[cfg_attr(any(), pin)] A(u8) }"),
    ):
        out.append(("an unsupported declaration is accepted", a, b))
    return out


def reject(rep):
    from concurrent.futures import ThreadPoolExecutor
    e2e.grp()
    cases = rejected()
    rep.add("programs", 2 * len(cases))

    def one(x):
        i, (what, a, b) = x
        pre = "#![allow(warnings)]\n" + PRELUDE + "use odd::*;\n"
        tail = " unsafe impl pin_project::UnsafeUnpin for S {}" if "UnsafeUnpin" in a else ""
        return e2e.compile(pre + a + tail, f"c11r{i}")[0], e2e.compile(pre + b + tail, f"c11s{i}")
    with ThreadPoolExecutor(8) as ex:
        for (what, a, b), (bad, (ok, msg)) in zip(cases, ex.map(one, enumerate(cases))):
            if not ok:
                rep.violation(f"a supported declaration is rejected: `{b}`: {msg[:300]}", {"program": b, "rustc": msg})
            elif bad and len(rep.viol) < 12:
                rep.violation(f"{what}: rustc accepts `{a}`", {"program": a})


def program(t):
    return "#![allow(warnings)]\n" + PRELUDE + tyfam.PRELUDE + t


def module(i, t):
    return f"pub mod o{i} {{ use super::{'odd' if i < len(ODD) else 'pre'}::*;\n{t}\n}}\n"


def check(rep, ds):
    """ds: declarations of tyfam, in addition to ODD."""
    live = [(t, plain(t)) for t in ODD]
    for d in ds:
        own = "" if "pinned_drop" in d.extra or "UnsafeUnpin" in d.extra else d.extra
        live.append((d.text(), d.decl(False) + " " + own))
    batch(rep, live, list(range(len(live))), "2021")
    for ed in ("2018", "2024"):
        batch(rep, live, list(range(len(ODD))), ed)
    reject(rep)


def batch(rep, live, todo, edition):
    rep.add("programs", len(todo))
    for _ in range(6):
        text, where = program(""), []
        for i in todo:
            a = text.count("\n") + 1
            text += module(i, live[i][0])
            where.append((a, text.count("\n"), i))
        errs = e2e.errors(text, "c11all" + edition, edition)
        if not errs:
            return
        bad = {}
        for lines, msg in errs:
            for l in lines:
                for a, b, i in where:
                    if a <= l <= b:
                        bad.setdefault(i, msg)
        if not bad:
            raise C.Broken("the declarations do not compile: " + errs[0][1][:1500])
        for i in sorted(bad):
            t, p = live[i]
            ok, msg = e2e.compile(program(module(i, t)), f"c11o{i}", edition=edition)
            if ok:
                raise C.Broken(f"fails only among others: {t}: {bad[i][:500]}")
            ok, m2 = e2e.compile(program(module(i, p)), f"c11p{i}", edition=edition)
            if not ok:
                raise C.Broken(f"does not compile without the macro: {p}: {m2[:500]}")
            k = [k for k in known.findings("C11") if t in k["declarations"]]
            if k:
                if k[0]["what"] not in rep.known:
                    rep.known.append(k[0]["what"])
            elif len(rep.viol) < 12:
                rep.violation(f"a supported declaration is rejected: `{t}` does not compile (edition {edition}), though it does without the macro: {msg[:400]}", {"declaration": t, "rustc": msg})
        todo = [i for i in todo if i not in bad]
    raise C.Broken("the declarations do not compile")
