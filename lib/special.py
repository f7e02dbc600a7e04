"""Hand-written harnesses over field types outside the family: unsized tails, nested annotated types, references, arrays."""

PRE = """
fn pa<T: ?Sized>(p: &T) -> usize {
    p as *const T as *const u8 as usize
}
fn f(id: u16, v: u64) -> F {
    Tv::new(id, v)
}
"""


def P(a, b, e):
    return f"check(pa({a}) == {b}, {e});"


C01 = [
    # unsized tail, pinned and not
    *[(f"sl{'p' if pin else 'u'}{st}", f"""
#[::pin_project::pin_project{'(project = PMut, project_ref = PRef)' if pin else ''}]
pub struct D<T: ?Sized>{('{ #[pin] a: F, b: u32, ' + ('#[pin] ' if pin else '') + 'c: T }') if st == 'n' else ('(#[pin] F, u32, ' + ('#[pin] ' if pin else '') + 'T);')}
pub fn h() {{
    let v = [u64s(), u64s(), u64s(), u64s()];
    let n = u64s();
    let mut b: Pin<Box<D<[F]>>> = Box::pin(D {('{ a: f(0, v[0]), b: 7, c: [f(1, v[1]), f(2, v[2]), f(3, v[3])] }') if st == 'n' else '(f(0, v[0]), 7, [f(1, v[1]), f(2, v[2]), f(3, v[3])])'});
    let (x, y, z) = (pa(&b.{fa}), pa(&b.{fb}), pa(&b.{fc}));
    reach(1);
    allow(0, 0);
    {{
        let p = b.as_mut().project();
        {P(f'&*p.{fa}', 'x', 2)} {P(f'&*p.{fb}', 'y', 2)} {P(f'&*p.{fc}', 'z', 2)}
        check(p.{fc}.len() == 3, 3);
        for i in 0..3 {{ check(p.{fc}[i].is_id(1 + i as u16) && p.{fc}[i].is_val(v[1 + i]), 4); }}
        check(p.{fa}.is_id(0) && p.{fa}.is_val(v[0]) && *p.{fb} == 7, 4);
        *p.{fb} = 9;
        {f'(unsafe {{ p.{fc}.get_unchecked_mut() }})[1].set_val(n);' if pin else f'p.{fc}[1].set_val(n);'}
    }}
    check(b.{fb} == 9 && b.{fc}[1].is_val(n) && b.{fc}[0].is_val(v[1]) && b.{fc}[2].is_val(v[3]), 7);
    {{
        let p = b.as_ref().project_ref();
        {P(f'&*p.{fa}', 'x', 12)} {P(f'&*p.{fb}', 'y', 12)} {P(f'&*p.{fc}', 'z', 12)}
        check(p.{fc}.len() == 3 && p.{fc}[1].is_val(n) && *p.{fb} == 9, 14);
    }}
    check(nlog() == 0, 30);
    allow(0, IDS as u16);
    drop(b);
    check(nlog() == 4, 31);
    reach(2);
}}
""", f"struct with an unsized slice tail ({'pinned' if pin else 'unpinned'}, {'named' if st == 'n' else 'tuple'})") for pin in (True, False) for st, fa, fb, fc in (("n", "a", "b", "c"), ("t", "0", "1", "2"))],
    ("dy", """
pub trait Ob { fn addr(&self) -> usize; fn v(&self) -> u64; fn put(self: Pin<&mut Self>, x: u64); }
impl Ob for F {
    fn addr(&self) -> usize { pa(self) }
    fn v(&self) -> u64 { self.val }
    fn put(self: Pin<&mut Self>, x: u64) { unsafe { self.get_unchecked_mut() }.val = x; }
}
#[::pin_project::pin_project]
pub struct D<T: ?Sized + Ob> { a: u8, #[pin] c: T }
pub fn h() {
    let (v, n) = (u64s(), u64s());
    let mut b: Pin<Box<D<dyn Ob>>> = Box::pin(D { a: 1, c: f(0, v) });
    let z = pa(&b.c);
    reach(1);
    allow(0, 0);
    {
        let p = b.as_mut().project();
        check(p.c.addr() == z, 2);
        check(p.c.v() == v && *p.a == 1, 4);
        p.c.put(n);
    }
    check(b.c.v() == n, 7);
    {
        let p = b.as_ref().project_ref();
        check(p.c.addr() == z && pa(&*p.c) == z, 12);
        check(p.c.v() == n && *p.a == 1, 14);
    }
    check(nlog() == 0, 30);
    allow(0, IDS as u16);
    drop(b);
    check(nlog() == 1, 31);
    reach(2);
}
""", "struct with a pinned trait object tail"),
    ("nest", """
#[::pin_project::pin_project(project = IMut, project_ref = IRef)]
pub enum I<T> { X(#[pin] T, u64), Y { k: u64, #[pin] t: T } }
#[::pin_project::pin_project]
pub struct D<T> { n: u64, #[pin] i: I<T>, #[pin] j: I<T> }
fn look(i: Pin<&mut I<F>>, a: usize, v: u64, n: u64, w: u64) {
    match i.project() {
        IMut::X(mut t, k) => { check(pa(&*t) == a, 2); check(t.is_val(v) && *k == w, 4); unsafe { t.as_mut().get_unchecked_mut() }.set_val(n); }
        IMut::Y { k, mut t } => { check(pa(&*t) == a, 2); check(t.is_val(v) && *k == w, 4); unsafe { t.as_mut().get_unchecked_mut() }.set_val(n); }
    }
}
fn at(i: &I<F>) -> (usize, u64) {
    match i { I::X(t, _) => (pa(t), t.val), I::Y { t, .. } => (pa(t), t.val) }
}
pub fn h() {
    let (v, v2, n, n2, w) = (u64s(), u64s(), u64s(), u64s(), u64s());
    let mk = |id: u16, v: u64| if flag() { I::X(f(id, v), w) } else { I::Y { k: w, t: f(id, v) } };
    let i = mk(0, v);
    let j = mk(1, v2);
    let mut b: Pin<Box<D<F>>> = Box::pin(D { n: w, i, j });
    let (a, _) = at(&b.i);
    let (c, _) = at(&b.j);
    reach(1);
    allow(0, 0);
    {
        let p = b.as_mut().project();
        check(*p.n == w, 4);
        look(p.i, a, v, n, w);
        look(p.j, c, v2, n2, w);
    }
    check(at(&b.i) == (a, n) && at(&b.j) == (c, n2) && b.n == w, 7);
    match b.as_ref().project_ref().j.project_ref() {
        IRef::X(t, _) => { check(pa(&*t) == c, 12); check(t.is_val(n2), 14) }
        IRef::Y { t, .. } => { check(pa(&*t) == c, 12); check(t.is_val(n2), 14) }
    }
    check(nlog() == 0, 30);
    allow(0, IDS as u16);
    drop(b);
    check(nlog() == 2, 31);
    reach(2);
}
""", "annotated struct with annotated enums as pinned fields"),
    ("refs", """
#[::pin_project::pin_project]
pub struct D<'a, T> { r: &'a T, #[pin] m: &'a mut u64, #[pin] p: Pin<&'a mut T>, #[pin] s: &'a T, g: fn(u64) -> u64, #[pin] z: [T; 2], y: (u64, T), #[pin] o: Option<T>, q: *const T, #[pin] e: [T; 0], ph: core::marker::PhantomData<T> }
fn inc(x: u64) -> u64 { x.wrapping_add(1) }
pub fn h() {
    let v = [u64s(), u64s(), u64s(), u64s(), u64s(), u64s(), u64s()];
    let some = flag();
    let (r0, s0) = (f(0, v[0]), f(1, v[1]));
    let mut m0 = v[2];
    let mut p0 = Box::pin(f(2, v[3]));
    let pp = pa(&*p0);
    let q0: *const F = &s0;
    let mut b = Box::pin(D { r: &r0, m: &mut m0, p: p0.as_mut(), s: &s0, g: inc, z: [f(3, v[4]), f(4, v[5])], y: (v[6], f(5, v[0])), o: if some { Some(f(6, v[1])) } else { None }, q: q0, e: [], ph: core::marker::PhantomData });
    let a = [pa(&b.r), pa(&b.m), pa(&b.p), pa(&b.s), pa(&b.g), pa(&b.z), pa(&b.y), pa(&b.o), pa(&b.q), pa(&b.e), pa(&b.ph)];
    reach(1);
    allow(0, 0);
    {
        let p = b.as_mut().project();
        let c = [pa(&*p.r), pa(&*p.m), pa(&*p.p), pa(&*p.s), pa(&*p.g), pa(&*p.z), pa(&*p.y), pa(&*p.o), pa(&*p.q), pa(&*p.e), pa(&*p.ph)];
        for i in 0..11 { check(a[i] == c[i], 2); }
        check(p.r.is_val(v[0]) && p.r.is_id(0) && p.s.is_id(1) && p.s.is_val(v[1]), 4);
        check(**p.m == v[2], 4);
        check(pa(&**p.p) == pp && p.p.is_val(v[3]), 4);
        check((*p.g)(v[2]) == v[2].wrapping_add(1), 4);
        check(p.z[0].is_val(v[4]) && p.z[1].is_val(v[5]) && p.y.0 == v[6] && p.y.1.is_val(v[0]), 4);
        check(p.o.is_some() == some && (!some || p.o.as_ref().get_ref().as_ref().unwrap().is_val(v[1])), 4);
        check(*p.q == q0, 4);
        p.y.0 = v[0];
        *p.r = &s0;
    }
    check(b.y.0 == v[0] && b.r.is_id(1), 7);
    {
        let p = b.as_ref().project_ref();
        let c = [pa(&*p.r), pa(&*p.m), pa(&*p.p), pa(&*p.s), pa(&*p.g), pa(&*p.z), pa(&*p.y), pa(&*p.o), pa(&*p.q), pa(&*p.e), pa(&*p.ph)];
        for i in 0..11 { check(a[i] == c[i], 12); }
        check(p.y.0 == v[0] && **p.m == v[2] && p.z[1].is_val(v[5]), 14);
    }
    check(nlog() == 0, 30);
    allow(0, IDS as u16);
    drop(b);
    check(nlog() == 3 + some as usize, 31);
    reach(2);
}
""", "struct with references, pinned references, arrays, tuples, functions and raw pointers"),
    ("cfgs", """
#[::pin_project::pin_project(project = PMut, project_ref = PRef)]
pub enum D {
    #[cfg(any())] Gone(#[pin] F, Missing),
    A { #[cfg(any())] #[pin] g: Missing, #[pin] a: F, #[cfg(not(all()))] h: u8, #[cfg_attr(all(), pin)] b: F, #[cfg_attr(any(), pin)] c: F },
    #[cfg(all())] B(#[cfg_attr(any(), pin)] F, #[cfg(any())] Missing, #[cfg_attr(all(), cfg(all()), pin)] F),
}
pub fn h() {
    let v = [u64s(), u64s(), u64s()];
    let w = flag();
    let mut d = Box::pin(if w { D::A { a: f(0, v[0]), b: f(1, v[1]), c: f(2, v[2]) } } else { D::B(f(0, v[0]), f(1, v[1])) });
    let at = match &*d { D::A { a, b, c } => [pa(a), pa(b), pa(c)], D::B(a, b) => [pa(a), pa(b), 0] };
    reach(1);
    allow(0, 0);
    match d.as_mut().project() {
        PMut::A { a, b, c } => { let (a, b): (Pin<&mut F>, Pin<&mut F>) = (a, b); let c: &mut F = c; check(w, 1); check([pa(&*a), pa(&*b), pa(c)] == at, 2); check(a.is_val(v[0]) && b.is_val(v[1]) && c.is_val(v[2]), 4); c.set_val(v[0]); }
        PMut::B(a, b) => { let b: Pin<&mut F> = b; let a: &mut F = a; check(!w, 1); check([pa(a), pa(&*b), 0] == at, 2); check(a.is_val(v[0]) && b.is_val(v[1]), 4); a.set_val(v[2]); }
    }
    match &*d { D::A { c, .. } => check(c.is_val(v[0]), 7), D::B(a, _) => check(a.is_val(v[2]), 7) }
    match d.as_ref().project_ref() {
        PRef::A { a, b, c } => { let (a, b): (Pin<&F>, Pin<&F>) = (a, b); let c: &F = c; check([pa(&*a), pa(&*b), pa(c)] == at, 12); }
        PRef::B(a, b) => { let b: Pin<&F> = b; let a: &F = a; check([pa(a), pa(&*b), 0] == at, 12); }
    }
    check(nlog() == 0, 30);
    allow(0, IDS as u16);
    drop(d);
    check(nlog() == 2 + w as usize, 31);
    reach(2);
}
""", "enum with fields, variants and #[pin] behind cfg and cfg_attr"),
]

# the pinned destructor logs 100 + its own number
C08 = [
    ("sl", """
#[::pin_project::pin_project(PinnedDrop)]
pub struct D<T: ?Sized> { a: F, #[pin] c: T }
static mut AT: usize = 0;
static mut PD: bool = false;
#[::pin_project::pinned_drop]
impl<T: ?Sized> PinnedDrop for D<T> {
    fn drop(self: Pin<&mut Self>) {
        check(pa(&*self) == unsafe { AT }, 1);
        check(nlog() == 0, 2);
        log(100);
        if unsafe { PD } { sym_throw(); }
    }
}
pub fn h() {
    let v = [u64s(), u64s(), u64s()];
    let arm = [flag(), flag(), flag()];
    let pd = flag();
    let mut b: Box<D<[F; 2]>> = Box::new(D { a: f(0, v[0]), c: [f(1, v[1]), f(2, v[2])] });
    b.a.arm(arm[0]); b.c[0].arm(arm[1]); b.c[1].arm(arm[2]);
    let b: Pin<Box<D<[F]>>> = Box::into_pin(b as Box<D<[F]>>);
    unsafe { AT = pa(&*b); PD = pd; }
    let nt = arm[0] as u32 + arm[1] as u32 + arm[2] as u32 + pd as u32;
    abort_ok(nt >= 2);
    reach(1);
    let panicked = catch(move || drop(b));
    abort_ok(false);
    check(panicked == (nt >= 1), 7);
    check(nlog() == 4, 8);
    check(st().log[0] == 100, 9);
    for i in 0..3 { check(st().log[1 + i] == i as u16, 10); check(st().dropped[i] == 1, 11); check(st().val[i] == v[i], 13); }
    reach(2);
}
""", "struct with an unsized slice tail and PinnedDrop"),
    ("nest", """
#[::pin_project::pin_project(PinnedDrop, project = IMut)]
pub enum I<T> { X(#[pin] T, u64), Y { k: u64, #[pin] t: T } }
#[::pin_project::pinned_drop]
impl<T> PinnedDrop for I<T> {
    fn drop(self: Pin<&mut Self>) {
        let (k, at) = match self.project() { IMut::X(t, k) => (*k, pa(&*t)), IMut::Y { k, t } => (*k, pa(&*t)) };
        check(k == 1 || k == 2, 4);
        check(unsafe { AT[k as usize] } == at, 1);
        check(st().dropped[k as usize] == 0, 2);
        log(100 + k as u16);
        if unsafe { PD[k as usize] } { sym_throw(); }
    }
}
#[::pin_project::pin_project(PinnedDrop)]
pub struct D<T> { #[pin] i: I<T>, n: F, #[pin] j: I<T> }
#[::pin_project::pinned_drop]
impl<T> PinnedDrop for D<T> {
    fn drop(self: Pin<&mut Self>) {
        check(unsafe { AT[0] } == pa(&*self), 1);
        check(nlog() == 0, 2);
        let p = self.project();
        check(p.n.is_id(0), 4);
        log(100);
        if unsafe { PD[0] } { sym_throw(); }
    }
}
static mut AT: [usize; 3] = [0; 3];
static mut PD: [bool; 3] = [false; 3];
fn at(i: &I<F>) -> usize {
    match i { I::X(t, _) => pa(t), I::Y { t, .. } => pa(t) }
}
pub fn h() {
    let v = [u64s(), u64s(), u64s()];
    let mk = |id: u16, v: u64, a: bool| { let mut t = f(id, v); t.arm(a); if flag() { I::X(t, id as u64) } else { I::Y { k: id as u64, t } } };
    let arm = [flag(), flag(), flag()];
    let pd = [flag(), flag(), flag()];
    let i = mk(1, v[1], arm[1]);
    let j = mk(2, v[2], arm[2]);
    let mut n = f(0, v[0]);
    n.arm(arm[0]);
    let b = Box::pin(D { i, n, j });
    unsafe { AT = [pa(&*b), at(&b.i), at(&b.j)]; PD = pd; }
    let mut nt = 0;
    for i in 0..3 { nt += arm[i] as u32 + pd[i] as u32; }
    abort_ok(nt >= 2);
    reach(1);
    let panicked = catch(move || drop(b));
    abort_ok(false);
    check(panicked == (nt >= 1), 7);
    check(nlog() == 6, 8);
    check(st().log[0] == 100, 9);
    let want = [100u16, 101, 1, 0, 102, 2];
    for i in 0..6 { check(st().log[i] == want[i], 10); }
    for i in 0..3 { check(st().dropped[i] == 1, 11); check(st().val[i] == v[i], 13); }
    check(st().at[1] == unsafe { AT[1] } && st().at[2] == unsafe { AT[2] }, 12);
    reach(2);
}
""", "annotated struct with PinnedDrop whose pinned fields are annotated enums with PinnedDrop"),
    ("loc", """
#[::pin_project::pin_project(PinnedDrop)]
pub struct D<'a>(#[pin] F, &'a core::cell::Cell<u64>);
#[::pin_project::pinned_drop]
impl PinnedDrop for D<'_> {
    fn drop(self: Pin<&mut Self>) {
        check(nlog() == 0 || st().n == 2, 2);
        let p = self.project();
        p.1.set(p.1.get().wrapping_add(p.0.val));
        log(100);
    }
}
pub fn h() {
    let v = [u64s(), u64s()];
    let c = core::cell::Cell::new(0);
    reach(1);
    {
        // plain locals, never pinned: the destructor still runs exactly once for each, in reverse order
        let _x = D(f(0, v[0]), &c);
        let _y = D(f(1, v[1]), &c);
        check(nlog() == 0, 6);
    }
    check(nlog() == 4, 8);
    let want = [100u16, 1, 100, 0];
    for i in 0..4 { check(st().log[i] == want[i], 10); }
    check(c.get() == v[0].wrapping_add(v[1]), 13);
    reach(2);
}
""", "locals of an annotated tuple struct with PinnedDrop and a borrowed cell"),
]


def mods(l):
    return [("x_" + k, PRE + t, d) for k, t, d in l]
