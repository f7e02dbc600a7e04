"""Bodies of pinned destructors, each run as written in an ordinary method and under #[pinned_drop]."""

COMMON = """
pub trait Tr { const K: u64; type A; fn k() -> u64; fn m(&self) -> u64 { 19 } }
pub fn helper() -> u64 { 23 }
pub const CST: u64 = 29;
pub struct Ty(pub u64);
fn idf<X>(x: X) -> X { x }
"""

S = COMMON + """
#[pin_project::pin_project(PinnedDrop)]
pub struct S<T: Copy + Into<u64>> { #[pin] pub a: T, pub b: u64, pub c: [u64; 3] }
impl<T: Copy + Into<u64>> S<T> {
    pub const C: u64 = 7;
    pub const N: usize = 3;
    pub fn assoc() -> u64 { 11 + core::mem::size_of::<T>() as u64 }
    pub fn by_ref(&self) -> u64 { self.b }
    pub fn by_pin(self: Pin<&mut Self>) -> u64 { self.b }
    pub fn mk(a: T, b: u64) -> core::mem::ManuallyDrop<Self> { core::mem::ManuallyDrop::new(S { a, b, c: [1, 2, 3] }) }
}
impl<T: Copy + Into<u64>> Tr for S<T> { const K: u64 = 13; type A = [u8; 5]; fn k() -> u64 { 17 } }
"""
S_IMPL = ("<T: Copy + Into<u64>>", "S<T>", "S<u8>", "S { a, b, c }", "v.b", "v.c[0] ^ v.c[1] ^ v.c[2]")

TU = COMMON + """
#[pin_project::pin_project(PinnedDrop)]
pub struct Tu<T>(#[pin] pub T, pub u64, pub [u64; 3]) where T: Copy + Into<u64>;
impl<T> Tu<T> where T: Copy + Into<u64> { pub fn assoc() -> u64 { 11 } }
"""
TU_IMPL = ("<T>", "Tu<T>", "Tu<u8>", "Tu(a, b, c)", "v.1", "v.2[0]", "where T: Copy + Into<u64>")

E = COMMON + """
#[pin_project::pin_project(PinnedDrop, project = EProj)]
pub enum E<T: Copy + Into<u64>> { V { #[pin] x: T, y: u64 }, W(u64, #[pin] T), U }
impl<T: Copy + Into<u64>> E<T> { pub const C: u64 = 7; pub fn assoc() -> u64 { 11 } }
"""
E_IMPL = ("<T: Copy + Into<u64>>", "E<T>", "E<u8>", "match b % 3 { 0 => E::V { x: a, y: c[0] }, 1 => E::W(c[1], a), _ => E::U }", "0u64", "match &**v { E::V { y, .. } => *y, E::W(y, _) => *y, E::U => 1 }")

L = COMMON + """
#[pin_project::pin_project(PinnedDrop)]
pub struct L<'a, 'b: 'a, T: 'b, const N: usize> where T: Copy { #[pin] pub r: &'a u64, pub b: u64, pub t: [T; N], pub s: core::marker::PhantomData<&'b T> }
impl<'a, 'b: 'a, T: 'b, const N: usize> L<'a, 'b, T, N> where T: Copy { pub const M: usize = N + 1; pub fn assoc() -> u64 { N as u64 } pub fn get(&self) -> &'a u64 { *self.as_ref_r() } fn as_ref_r(&self) -> &&'a u64 { &self.r } }
"""
L_IMPL = ("<'a, 'b: 'a, T: 'b, const N: usize>", "L<'a, 'b, T, N>", "L<'static, 'static, u64, 3>", "L { r: &LSTATIC, b, t: c, s: core::marker::PhantomData }", "v.b", "v.t[0]", "where T: Copy")
L += "static LSTATIC: u64 = 31;\n"

P = COMMON + """
pub mod inner {
    #[pin_project::pin_project(PinnedDrop)]
    pub struct Q<T> { #[pin] pub a: T, pub b: u64, pub c: [u64; 3] }
    impl<T> Q<T> { pub fn assoc() -> u64 { 11 } pub fn by_ref(&self) -> u64 { self.b } pub const C: u64 = 5; }
    pub fn helper() -> u64 { 37 }
}
"""
P_IMPL = ("<T>", "self::inner::Q<T>", "inner::Q<u8>", "inner::Q { a, b, c }", "v.b", "v.c[1]")

N = COMMON + """
#[pin_project::pin_project(PinnedDrop)]
pub struct Nn { #[pin] pub a: u8, pub b: u64, pub c: [u64; 3] }
impl Nn { pub fn assoc() -> u64 { 11 } pub fn by_ref(&self) -> u64 { self.b } pub const C: u64 = 5; }
impl Tr for Nn { const K: u64 = 13; type A = [u8; 5]; fn k() -> u64 { 17 } }
"""
N_IMPL = ("", "Nn", "Nn", "Nn { a, b, c }", "v.b", "v.c[1]")

# (name, group, parameter, return, body)
B = []


def add(group, *bodies, slf="self", ret=""):
    for b in bodies:
        B.append((f"{group.lower()}{len(B):03}", group, slf, ret, b))


# plain uses of self
add("S",
    "rec(self.b);",
    "rec(self.as_ref().get_ref().b); rec((*self).c[1]); rec(self.a.into());",
    "let x = &self; rec(x.b); let y = &*self; rec(y.by_ref());",
    "let this = self.project(); *this.b = this.b.wrapping_add(3); rec(*this.b); rec((*this.a).into());",
    "rec(self.by_pin());",
    "rec(self.c[(self.b % 3) as usize]);",
    "if self.b > 5 { rec(self.b); } else if self.b == 3 { rec(1); } else { rec(self.c[0]); }",
    "match self.b { x if x > self.c[0] => rec(x), 0 => rec(self.c[1]), _ => rec(self.c[2]) }",
    "let f = || self.b; rec(f()); let g = |x: u64| move |y: u64| x ^ y ^ self.b; rec(g(1)(2));",
    "let f = |s: Pin<&mut Self>| s.b; rec(f(self));",
    "let mut n = 0; for x in self.c.iter() { n ^= *x; } rec(n); let mut i = 0; while i < self.c.len() { rec(self.c[i]); i += 1; }",
    "let t = (self.b, [self.c[0], self.c[1]], &self.c); rec(t.0 ^ t.1[0] ^ t.1[1] ^ t.2[2]);",
    "let Some(x) = Some(&self) else { return }; rec(x.b); if let Some(y) = Some(&self.c) { rec(y[0]); }",
    "let v = unsafe { core::ptr::read(&self.b) }; rec(v); let r = &raw const self.b; rec(unsafe { *r });",
    "let r = 'l: { if self.b == 0 { break 'l self.c[0]; } self.c[1] }; rec(r);",
    "let s = &self.c[..]; rec(s.len() as u64 ^ s[self.c.len() - 1]); rec(-(self.b as i64) as u64); rec(!self.b);",
    "let _x = async { self.b }; rec(4);",
    "rec({ let self_ = self.b; self_ }); let selfish = 3; rec(selfish); let Selfish = 4u64; rec(Selfish);",
    "let x: Pin<&mut Self> = self; rec(x.b);",
    "let me = self; let he = me; rec(he.b);",
    "core::mem::drop(self); rec(6);",
    "let r: Result<u64, ()> = (|| { let x = Some(self.b).ok_or(())?; Ok(x) })(); rec(r.unwrap_or(0));",
    "{ { { rec(self.b) } } } loop { if self.b > 0 { break; } rec(2); break; }",
    "rec(if let (0, [x, ..]) = (self.b, &self.c) { *x } else { self.c[2] });",
    "let p: *const S<T> = &*self; rec(unsafe { (*p).b });",
    "rec(<u64 as From<u64>>::from(self.b)); rec(u64::max(self.b, self.c[0])); rec(Self::by_ref(&self));")
add("S", "*self.as_mut().project().b = 9; rec(self.b);", "let c = &mut self; rec(c.b); c.as_mut().project().c[0] = 8; rec(self.c[0]);", "{ let mut f = || { *self.as_mut().project().b ^= 1; }; f(); } rec(self.b);", "let mut x = self.as_mut(); rec(x.as_mut().by_pin()); self = self; rec(self.b);", slf="mut self")
add("S", "if self.b == 1 { return; } rec(self.b);", "if self.b == 1 { return (); } rec(self.b)", ret="-> ()")
# Self as a type and in paths
add("S",
    "rec(Self::assoc()); rec(<Self>::assoc()); rec(Self::C); rec(<Self>::C);",
    "rec(<Self as Tr>::K); rec(<Self as Tr>::k()); rec(Self::K); rec(Self::k()); rec(Tr::m(&*self)); rec(<Self as Tr>::m(&self));",
    "rec(core::mem::size_of::<Self>() as u64); rec(core::mem::align_of::<Option<Self>>() as u64); rec(core::mem::size_of::<(Self, [Self; 2])>() as u64);",
    "let z: <Self as Tr>::A = Default::default(); rec(core::mem::size_of_val(&z) as u64);",
    "let f: fn(&Self) -> u64 = Self::by_ref; rec(f(&self)); let g: &dyn Fn(&Self) -> u64 = &|s: &Self| s.b; rec(g(&self));",
    "let v: Vec<&Self> = vec![&*self]; rec(v[0].b); rec(Vec::<Self>::new().len() as u64); rec(Option::<Self>::None.is_none() as u64);",
    "let p = core::marker::PhantomData::<Self>; rec(core::mem::size_of_val(&p) as u64); rec(idf::<&Self>(&self).b);",
    "let p = &*self as *const Self; rec(unsafe { (*p).b }); let q: *const Self = p.cast::<Self>(); rec(unsafe { (*q).c[0] });",
    "rec([0u64; 3].len() as u64); let a = [self.b; 2]; rec(a[1]); rec(Self::N as u64);",
    "let Self { b, c, .. } = &*self; rec(*b ^ c[0]);",
    "match &*self { Self { b: 3, .. } => rec(1), Self { a: _, b, c: [x, ..] } if *b > *x => rec(2), Self { .. } => rec(3) }",
    "if let Self { b: 0..=9, c: [_, y, _], .. } = &*self { rec(*y) } else { rec(7) }",
    "let y = core::mem::ManuallyDrop::new(Self { a: self.a, b: 5, c: [self.b; 3] }); rec(y.b ^ y.c[2]);",
    "let y = core::mem::ManuallyDrop::new(Self { c: [1, 2, 3], ..Self { a: self.a, b: self.b, c: self.c } });" if False else "let y = Self::mk(self.a, 77); rec(y.b); rec(y.by_ref());",
    "let y = Some(self.b).map(|b| Self::mk(self.a, b)); rec(y.unwrap().b);",
    "fn f<X>(_: &X) -> u64 { core::mem::size_of::<X>() as u64 } rec(f::<Self>(&self)); rec(f(&*self));",
    "let f = |x: &Self| -> u64 { let y: &Self = x; y.b }; rec(f(&self)); let h = |Self { b, .. }: &Self| *b; rec(h(&self));",
    "const fn k() -> u64 { 3 } rec(k()); type Al<X> = Option<X>; let x: Al<&Self> = Some(&*self); rec(x.unwrap().b);",
    "let it: Box<dyn Iterator<Item = &Self>> = Box::new(Some(&*self).into_iter()); for s in it { rec(s.b); }",
    "rec(core::any::TypeId::of::<fn() -> u8>() == core::any::TypeId::of::<fn() -> u8>() && true) ;" if False else "rec((Self::C as usize + Self::N) as u64); rec(-(Self::C as i64) as u64);",
    "rec(<Vec<Self>>::new().capacity() as u64); rec(<Option<&Self> as Default>::default().is_none() as u64); rec(<[Self]>::len(&[]) as u64);")
# not the receiver
add("S",
    "rec(self::helper()); rec(self::CST); let t: self::Ty = self::Ty(3); rec(t.0); rec(self.b);",
    "use self::Ty as Z; let self::Ty(x) = Z(5); rec(x); let y = self::Ty { 0: 4 }; rec(y.0);",
    "struct X { b: u64 } impl X { fn get(&self) -> u64 { self.b } fn mk() -> Self { Self { b: 9 } } fn s(self) -> Self { self } } rec(X::mk().s().get()); rec(self.b);",
    "enum Y { A(u64), B } impl Y { const K: u64 = 3; fn f(&self) -> u64 { match self { Self::A(x) => *x ^ Self::K, Self::B => 1 } } } rec(Y::A(5).f()); rec(Y::B.f()); rec(Self::C);",
    "trait W { fn w(&self) -> u64 where Self: Sized { core::mem::size_of::<Self>() as u64 } } impl W for u16 {} rec(3u16.w()); rec(core::mem::size_of::<Self>() as u64);",
    "mod z { pub(super) fn f() -> u64 { self::g() } pub(self) fn g() -> u64 { super::helper_in() } } fn helper_in() -> u64 { 1 } rec(self.b);" if False else "mod z { pub fn f() -> u64 { self::g() } pub(self) fn g() -> u64 { 43 } } rec(z::f()); rec(self.b);",
    "macro_rules! im { ($n:ident) => { struct $n(u64); impl $n { fn get(&self) -> u64 { self.0 } fn mk() -> Self { Self(8) } } } } im!(Zed); rec(Zed::mk().get()); rec(self.b);")
# macros
add("S",
    "assert!(self.b == self.b); debug_assert_eq!(self.c[0], self.c[0]); rec(self.b);",
    "macro_rules! get { ($e:expr) => { $e.b } } rec(get!(self)); rec(get!((*self)));",
    "macro_rules! me { () => { self.b } } rec(me!());",
    "macro_rules! me { ($f:ident) => { self.$f } ; ($f:ident $g:tt) => { { let x = self.$f[$g]; x } } } rec(me!(b)); rec(me!(c 1));",
    "macro_rules! ty { () => { Self } } rec(core::mem::size_of::<ty!()>() as u64); rec(<ty!()>::C);",
    "macro_rules! c { () => { Self::C } ; (f) => { Self::assoc() } ; (t) => { <Self as Tr>::k() } } rec(c!()); rec(c!(f)); rec(c!(t));",
    "macro_rules! p { ($s:ident) => { $s.b } } rec(p!(self)); macro_rules! q { ($t:ty) => { <$t>::C } } rec(q!(Self)); macro_rules! r { ($t:expr) => { $t } } rec(r!(Self::C));",
    "let v = vec![Self::assoc(), self.b, Self::C]; rec(v[0]); rec(v[1]); rec(v[2]);",
    "rec(matches!(&*self, Self { b: 0, .. }) as u64); rec(matches!(self.b, 1 | 2) as u64);",
    "assert_eq!(vec![self.b][0], vec![vec![self.b]][0][0]); rec(matches!(vec![&*self][0], Self { .. }) as u64);",
    "macro_rules! two { ($($x:tt)*) => { $($x)* } } two! { rec(self.b); rec(Self::C); let x: &Self = &self; rec(x.b); let Self { b, .. } = &*self; rec(*b); }",
    "macro_rules! pat { ($p:pat => $e:expr) => { match &*self { $p => $e, _ => 0 } } } rec(pat!(Self { b: 0, c: [x, ..], .. } => *x));",
    "macro_rules! blk { ($b:block) => { $b } } rec(blk!({ let x = { self.b }; x ^ Self::C }));",
    "rec(if cfg!(any()) { 1 } else { self.b }); let _ = concat!(\"self\", \"Self\"); rec(\"self Self\".len() as u64); /* self */ rec('s' as u64);",
    "macro_rules! cl { ($f:expr) => { $f(&*self) } } rec(cl!(|s: &Self| s.b)); rec(cl!(Self::by_ref));",
    "rec(idf(vec![core::mem::size_of::<Self>(), core::mem::size_of::<Option<Self>>()])[1] as u64);")
add("S",
    "rec(idf(vec![self::helper(), self::CST])[1]); assert_eq!(self::helper(), 23); let v = vec![self::Ty(4)]; rec(v[0].0); rec(self.b);",
    "macro_rules! z { ($e:expr) => { { use self::helper as hh; hh() ^ $e } } } rec(z!(self.b)); macro_rules! w { () => { self::CST } } rec(w!());",
    "macro_rules! z { ($self:ident) => { $self.b } } rec(z!(self)); macro_rules! y { (self) => { 3 }; (Self) => { 4 } } rec(y!(self)); rec(y!(Self));",
    "assert!(self.c.iter().all(|x| { let s: &Self = &self; *x == *x && s.b == self.b }), \"self {}\", self.b); rec(self.c.iter().map(|x| x ^ self.b).fold(0, |x, y| x ^ y));",
    "pub(self) struct X(u64); mod m { pub(self) struct Y; pub(in self) fn g() {} pub fn f() -> u64 { g(); 3 } } rec(X(m::f()).0); rec(self.b);")
# tuple structs
add("Tu",
    "rec(self.1); rec(Self::assoc()); let Self(_, x, [y, ..]) = &*self; rec(*x ^ *y);",
    "match &*self { Self(_, 3, _) => rec(1), Self(.., [z, _, _]) => rec(*z) }",
    "let y = core::mem::ManuallyDrop::new(Self(self.0, 5, self.2)); rec(y.1);",
    "let f = Self; let y = core::mem::ManuallyDrop::new(f(self.0, 6, [1; 3])); rec(y.1); let y = core::mem::ManuallyDrop::new(Some(7).map(|b| Self(self.0, b, [2; 3]))); rec(y.as_ref().unwrap().1);",
    "let f: fn(T, u64, [u64; 3]) -> Self = Self; let y = core::mem::ManuallyDrop::new(f(self.0, self.1, self.2)); rec(y.1);",
    "let Self { 1: x, .. } = &*self; rec(*x); let y = core::mem::ManuallyDrop::new(Self { 0: self.0, 1: 4, 2: [0; 3] }); rec(y.1);",
    "let this = self.project(); *this.1 = 3; rec(*this.1); rec(this.2[0]);",
    "macro_rules! m { ($e:expr) => { core::mem::ManuallyDrop::new($e) } } rec(m!(Self(self.0, 9, [0; 3])).1); rec(matches!(&*self, Self(_, 0, _)) as u64);",
    "if let Self(_, x @ 1..=5, ..) = &*self { rec(*x) } let g = |Self(_, x, _): &Self| *x; rec(g(&self));")
# enums
add("E",
    "match &*self { Self::V { x, y } => { rec(1); rec(*y); rec((*x).into()) } Self::W(y, x) => { rec(2); rec(*y); rec((*x).into()) } Self::U => rec(3) }",
    "match self.project() { EProj::V { y, .. } => rec(*y), EProj::W(y, _) => { *y = 3; rec(*y) } EProj::U => rec(3) }",
    "if let Self::V { y, .. } = &*self { rec(*y) } if let Self::W(y, ..) = *self { rec(y) } if let Self::U = &*self { rec(9) }",
    "rec(matches!(*self, Self::U) as u64); rec(matches!(&*self, Self::V { y: 0, .. } | Self::V { y: 3, x: _ }) as u64);",
    "let a = core::mem::ManuallyDrop::new(Self::U); rec(matches!(*a, Self::U) as u64); if let Self::V { x, .. } = &*self { let b = core::mem::ManuallyDrop::new(Self::W(4, *x)); if let Self::W(4, _) = &*b { rec(6) } let c = core::mem::ManuallyDrop::new(Self::V { x: *x, y: 2 }); rec(matches!(&*c, Self::V { y: 2, .. }) as u64); }",
    "if let Self::W(_, x) = &*self { let f: fn(u64, T) -> Self = Self::W; let b = core::mem::ManuallyDrop::new(f(8, *x)); if let Self::W(n, _) = &*b { rec(*n) } } rec(Self::C); rec(Self::assoc());",
    "use E::*; match &*self { V { y, .. } | W(y, _) => rec(*y), U => rec(Self::C) } macro_rules! u { () => { Self::U } } if let u!() = &*self { rec(5) }",
    "let f = |s: &Self| match s { Self::V { y: n, .. } | Self::W(n, _) if *n > 3 => *n, Self::V { .. } | Self::W(..) => 1, Self::U => 0 }; rec(f(&self));")
# lifetimes, const generics, where clauses
add("L",
    "rec(*self.r); rec(self.b); rec(Self::assoc()); rec(Self::M as u64); rec(N as u64);",
    "let Self { r, b, .. } = &*self; rec(**r ^ *b); let x: &'a u64 = self.get(); rec(*x);",
    "let y = core::mem::ManuallyDrop::new(Self { r: self.r, b: 3, t: self.t, s: core::marker::PhantomData }); rec(y.b); rec(core::mem::size_of::<Self>() as u64);",
    "let v: Option<&Self> = Some(&self); rec(v.unwrap().t.len() as u64); macro_rules! m { () => { Self::M } } rec(m!() as u64); let f: fn(&Self) -> &'a u64 = Self::get; rec(*f(&self));")
# a path as the implementing type
add("P",
    "rec(self.b); rec(Self::assoc()); rec(Self::C); let Self { b, .. } = &*self; rec(*b); rec(self::helper()); rec(inner::helper());",
    "rec(Self::by_ref(&self)); let x: &Self = &self; rec(x.c[0]); rec(vec![Self::C, self.b][1]); rec(core::mem::size_of::<Self>() as u64); rec(matches!(&*self, Self { .. }) as u64);")
add("N",
    "rec(self.b); rec(Self::assoc()); rec(Self::C); let Self { b, a: _, c } = &*self; rec(*b ^ c[0]); rec(<Self as Tr>::K); rec(Self::k());",
    "let y = core::mem::ManuallyDrop::new(Self { a: 1, b: self.b, c: [3; 3] }); rec(y.b); let v = vec![Self::C, self.b, y.c[0]]; rec(v[0] ^ v[1] ^ v[2]); let a: [u8; core::mem::size_of::<Self>()] = [0; core::mem::size_of::<Self>()]; rec(a.len() as u64); rec([self.b; Self::C as usize].len() as u64);")

# nested items are left as written
add("S",
    "const K: &str = stringify!(self Self); rec(K.len() as u64); static ST: &str = stringify!(Self); rec(ST.len() as u64); fn g() -> u64 { stringify!(self Self).len() as u64 } rec(g()); rec(self.b);",
    "struct Q<'a>(&'a u64); impl<'a> core::ops::Deref for Q<'a> { type Target = u64; fn deref(&self) -> &Self::Target { self.0 } } rec(*Q(&self.b)); impl Q<'_> { const Z: u64 = 5; fn z() -> u64 { Self::Z ^ idf(vec![Self::Z])[0] ^ 1 } } rec(Q::z());",
    "#[pin_project::pin_project(PinnedDrop)] struct In(#[pin] u64); #[pin_project::pinned_drop] impl PinnedDrop for In { fn drop(self: Pin<&mut Self>) { rec(self.0); let Self(x) = &*self; rec(*x) } } drop(In(self.b));",
    "fn outer() -> u64 { struct A(u64); impl A { fn f(self) -> Self { let g = |x: Self| x; g(self) } } A(4).f().0 } rec(outer()); const B: u64 = { struct A(u64); impl A { const fn f(self) -> u64 { self.0 } const I: Self = Self(6); } A::I.f() }; rec(B);",
    "union Un { a: u64, b: u32 } impl Un { fn f(&self) -> u64 { unsafe { self.a } } fn n(a: u64) -> Self { Self { a } } } rec(Un::n(self.b).f()); trait Dn { fn d(self) -> Self where Self: Sized { self } } impl Dn for u64 {} rec(self.b.d());",
    "macro_rules! mk { ($($t:tt)*) => { $($t)* } } mk! { struct Q(u64); impl Q { fn f(&self) -> u64 { self.0 } fn n() -> Self { Self(3) } } } rec(Q::n().f());")
# types in which Self occurs
add("S",
    "let x: for<'x> fn(&'x Self) -> u64 = Self::by_ref; rec(x(&self)); let y = Self::by_ref as fn(&Self) -> u64; rec(y(&self)); let z: [Option<&Self>; 2] = [Some(&*self), None]; rec(z[0].unwrap().b);",
    "let x: Option<<Self as Tr>::A> = None; rec(x.is_none() as u64); let y: Option<Box<dyn Fn(&Self, [&Self; 1]) -> Option<Self>>> = None; rec(y.is_none() as u64); let z: Result<(), (Self, *mut Self, &mut Self)> = Ok(()); rec(z.is_ok() as u64);",
    "let x = core::ptr::null::<Self>(); rec(x.is_null() as u64); let y = x as *mut Self as usize; rec(y as u64); rec(core::mem::size_of::<core::mem::MaybeUninit<[Self; 4]>>() as u64); rec(core::mem::size_of::<<Self as Tr>::A>() as u64); let w: &dyn Tr2<Self> = &3u8; rec(w.z(&self)); trait Tr2<X> { fn z(&self, _: &X) -> u64; } impl<X> Tr2<X> for u8 { fn z(&self, _: &X) -> u64 { 41 } }",
    "let (ref x, Some(Self { b: y, .. }), &Self { b: z, .. }) = (self.b, Some(&*self), &*self) else { return }; rec(*x ^ *y); rec(z); let w @ Self { .. } = &*self; rec(w.b);",
    "#[allow(unused)] let x = self.b; #[cfg(any())] { self.nope; Self::nope() } #[cfg(all())] { rec(self.b ^ Self::C); } match x { #[cfg(any())] Self::NO => {} _ => rec(x) }",
    "let f = || format!(\"{} {:?} {x} {y:?}\", self.b, Self::C, x = self.c[0], y = Self::N); let g = || println!(\"{}\", self.b); let _ = (f, g); let _ = || panic!(\"{}\", self.b); let _ = || { write!(String::new(), \"{}\", self.b).unwrap(); use core::fmt::Write; }; rec(self.b);",
    "let _ = || todo!(); let _ = async move { core::future::ready(self.b).await }; rec(8);",
    "let r = (|| -> Option<u64> { let s: &Self = &self; Some(s.b) })(); rec(r.unwrap()); let k = (|Self { b, .. }: &Self, (x, _): (&Self, u8)| -> u64 { *b ^ x.c[0] })(&self, (&self, 1)); rec(k);",
    "let a; a = self.b; rec(a); let mut b = 0; b += self.c[0]; b ^= Self::C; (b, _) = (b ^ 1, self.b); rec(b); let c = &mut b; *c = self.b as u32 as u64; rec(*c); rec((self.b..).next().unwrap()); let d = ..Self::N; rec(d.end as u64); rec(if self.b == 0 && !(self.c[0] == 3) || false { 1 } else { 2 });")
add("N",
    "match self.b { Self::C => rec(1), 6..=9 => rec(2), _ => rec(3) } if let Self::C..=9 = self.b { rec(4) } let a: [u64; { Self::C as usize }] = [2; Self::C as usize]; rec(a[4]); const fn w<const M: usize>() -> u64 { M as u64 } rec(w::<{ Self::C as usize }>()); let Self { b: Self::C, .. } = *self else { rec(5); return }; rec(6);",
    "const K: u64 = Nn::C; rec(K); static Z: [u8; Nn::C as usize] = [0; Nn::C as usize]; rec(Z.len() as u64); let x: [[u8; Self::C as usize]; 2] = [[1; Self::C as usize]; 2]; rec(x[1][0] as u64); let y = [(); Self::C as usize].map(|_| self.b); rec(y[0]);")

GROUPS = {"S": (S, S_IMPL), "Tu": (TU, TU_IMPL), "E": (E, E_IMPL), "L": (L, L_IMPL), "P": (P, P_IMPL), "N": (N, N_IMPL)}


def ordinary(group, slf, ret, body):
    pre, im = GROUPS[group]
    gen, ty, where = im[0], im[1], (im[6] if len(im) > 6 else "")
    return f"impl{gen} {ty} {where} {{ pub fn reference({slf}: Pin<&mut Self>) {ret} {{ {body} }} }}\n"


def pinned(group, slf, ret, body):
    pre, im = GROUPS[group]
    gen, ty, where = im[0], im[1], (im[6] if len(im) > 6 else "")
    return f"#[pin_project::pinned_drop]\nimpl{gen} PinnedDrop for {ty} {where} {{ fn drop({slf}: Pin<&mut Self>) {ret} {{ {body} }} }}\n"


def module(group, slf, ret, body):
    pre, im = GROUPS[group]
    ordn = ordinary(group, slf, ret, body)
    if group == "P":
        ordn = f"pub trait Reference {{ fn reference({slf.replace('mut ', '')}: Pin<&mut Self>); }}\nimpl{im[0]} Reference for {im[1]} {{ fn reference({slf}: Pin<&mut Self>) {{ {body} }} }}\n"
    return f"""{pre}
{ordn}
{pinned(group, slf, ret, body)}
fn make(a: u8, b: u64, c: [u64; 3]) -> {im[2]} {{ {im[3]} }}
pub fn h() {{
    let (a, b, c) = (unsafe {{ sym_u8() }}, u64s(), [u64s(), u64s(), u64s()]);
    let mut v = core::mem::ManuallyDrop::new(make(a, b, c));
    let v = &mut v;
    rec_reset();
    unsafe {{ Pin::new_unchecked(&mut **v) }}.reference();
    let (n1, r1) = rec_take();
    let s1 = ({im[4]}, {im[5]});
    let mut v = core::mem::ManuallyDrop::new(make(a, b, c));
    let v = &mut v;
    unsafe {{ core::mem::ManuallyDrop::drop(v) }};
    let (n2, r2) = rec_take();
    let s2 = ({im[4]}, {im[5]});
    reach(1);
    if n1 > 0 {{ reach(2) }}
    check(n1 == n2, 1);
    let mut i = 0;
    while i < n1 {{ check(r1[i] == r2[i], 2); i += 1; }}
    check((s1.0 == s2.0) & (s1.1 == s2.1), 3);
}}
"""


def mods(tier):
    return [(k, module(g, s, r, b), f"body `{b}` of a destructor of `{GROUPS[g][1][1]}`") for k, g, s, r, b in B]


def program(group, slf, ret, body, which):
    """A complete program with the body as an ordinary method or as the pinned destructor."""
    stub = "fn u64s() -> u64 { 1 } fn rec(x: impl Into<u64>) { let _: u64 = x.into(); }\n"
    other = pinned(group, "self", "", "") if which == "ordinary" else ""
    p = ordinary(group, slf, ret, body) if which == "ordinary" else pinned(group, slf, ret, body)
    return "#![allow(warnings)]\nuse core::pin::Pin;\n" + stub + GROUPS[group][0] + p + other




def named(notes, which):
    """The program that a counterexample of mac/c15.rs describes; prints what the body records."""
    d = dict(notes)
    gen, _, ty = d["head"].partition(" PinnedDrop for ")
    ty, _, where = ty.partition(" where ")
    where = " where " + where if where else ""
    fn = "(self: Pin<&mut Self>) { %s }" % d["body"]
    if which == "ordinary":
        im = f"{gen} {ty} {where} {{ fn reference{fn} }}\n#[pin_project::pinned_drop] impl<T> PinnedDrop for S<T> {{ fn drop(self: Pin<&mut Self>) {{}} }}"
        if gen == "impl<T: Copy>":
            im = im.replace("impl<T> PinnedDrop", "impl<T: Copy> PinnedDrop")
        call = "unsafe { Pin::new_unchecked(&mut v) }.reference();"
    else:
        im = f"#[pin_project::pinned_drop] {gen} PinnedDrop for {ty} {where} {{ fn drop{fn} }}"
        call = "drop(v);"
    bound = "T: Copy" if "Copy" in gen else "T"
    if gen == "impl":
        # a destructor must be as general as its type
        s = "pub struct S<T = u8> where T: Copy { #[pin] a: T, b: u64, c: [u64; 3] }"
        im = im.replace("impl PinnedDrop for S < u8 >", "impl PinnedDrop for S").replace("S<u8>", "S")
        s = "pub struct S { #[pin] a: u8, b: u64, c: [u64; 3] }"
        im = im.replace("impl<T> PinnedDrop for S<T>", "impl PinnedDrop for S")
    else:
        s = f"pub struct S<{bound}> {{ #[pin] a: T, b: u64, c: [u64; 3] }}"
    return f"""#![allow(warnings)]
use core::pin::Pin;
fn rec(x: u64) {{ println!("{{}}", x) }}
macro_rules! idm {{ ($e:expr) => {{ $e }} }}
{d["items"]}
#[pin_project::pin_project(PinnedDrop)] {s}
{im}
fn main() {{ let mut v = S {{ a: 1u8, b: 9, c: [5, 6, 7] }}; {call} }}
"""
