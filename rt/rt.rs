// Run-time support shared by all harnesses that are compiled with the real macros.
#![allow(dead_code)]
use core::marker::PhantomData;
use core::pin::Pin;

extern "C" {
    pub fn sym_u8() -> u8;
    pub fn sym_u32() -> u32;
    pub fn sym_u64() -> u64;
    pub fn sym_bool() -> bool;
    pub fn sym_choice(n: u32) -> u32;
    pub fn sym_assume(c: bool);
    pub fn sym_assert(c: bool, id: u32);
    pub fn sym_note(p: *const u8, n: u64);
    pub fn sym_reach(id: u32);
    pub fn sym_abort_ok(c: bool);
}
pub fn u64s() -> u64 {
    unsafe { sym_u64() }
}
pub fn flag() -> bool {
    unsafe { sym_bool() }
}
pub fn choice(n: u32) -> u32 {
    unsafe { sym_choice(n) }
}
pub fn check(c: bool, id: u32) {
    unsafe { sym_assert(c, id) }
}
pub fn reach(id: u32) {
    unsafe { sym_reach(id) }
}
pub fn abort_ok(c: bool) {
    unsafe { sym_abort_ok(c) }
}

#[no_mangle]
#[inline(never)]
pub fn sym_throw() {
    std::panic::resume_unwind(Box::new(0u8))
}
#[no_mangle]
#[inline(never)]
pub fn sym_catch(f: fn(*mut u8), p: *mut u8) -> u8 {
    std::panic::catch_unwind(core::panic::AssertUnwindSafe(|| f(p))).is_err() as u8
}
/// Runs `f`; true if it panicked.
pub fn catch<G: FnOnce()>(f: G) -> bool {
    fn tramp<G: FnOnce()>(p: *mut u8) {
        let f = unsafe { (*(p as *mut Option<G>)).take() };
        match f {
            Some(f) => f(),
            None => {}
        }
    }
    let mut o = Some(f);
    sym_catch(tramp::<G>, &mut o as *mut Option<G> as *mut u8) != 0
}

pub const IDS: usize = 64;
pub struct St {
    pub dropped: [u8; IDS],
    pub at: [usize; IDS],
    pub val: [u64; IDS],
    pub pinned_at: [usize; IDS],
    pub log: [u16; 256],
    pub n: usize,
    pub lo: u16,
    pub hi: u16,
    pub next: u16,
}
pub static mut ST: St = St {
    dropped: [0; IDS],
    at: [0; IDS],
    val: [0; IDS],
    pinned_at: [0; IDS],
    log: [0; 256],
    n: 0,
    lo: 0,
    hi: IDS as u16,
    next: 0,
};
#[allow(static_mut_refs)]
pub fn st() -> &'static mut St {
    unsafe { &mut *core::ptr::addr_of_mut!(ST) }
}
/// Only values with lo <= id < hi may be dropped now.
pub fn allow(lo: u16, hi: u16) {
    st().lo = lo;
    st().hi = hi;
}
pub fn log(x: u16) {
    let s = st();
    s.log[s.n] = x;
    s.n += 1;
}
pub fn nlog() -> usize {
    st().n
}

/// A tracked value. Its destructor records where it ran and may panic.
pub struct F {
    pub id: u16,
    pub armed: bool,
    pub val: u64,
}
pub trait Tr {}
impl Tr for F {}
pub trait Tl {
    type T;
}
impl<'a> Tl for &'a () {
    type T = F;
}
pub trait Tl2<X> {
    type T;
}
impl<'a, X> Tl2<X> for &'a () {
    type T = X;
}
impl Drop for F {
    fn drop(&mut self) {
        let s = st();
        let i = self.id as usize;
        // A valid value is being dropped, for the first time.
        check(i < IDS, 200);
        check(s.dropped[i] == 0, 201);
        check(self.id >= s.lo && self.id < s.hi, 202);
        let here = self as *const F as usize;
        check(s.pinned_at[i] == 0 || s.pinned_at[i] == here, 203);
        s.dropped[i] += 1;
        s.at[i] = here;
        s.val[i] = self.val;
        log(self.id);
        if self.armed {
            sym_throw();
        }
    }
}

/// A field value: F is dropped observably; Np has no destructor; Z has no size; W is 16-aligned and odd-sized inside.
pub trait Tv: Sized {
    fn new(id: u16, val: u64) -> Self;
    fn is_id(&self, id: u16) -> bool;
    fn is_val(&self, val: u64) -> bool;
    fn set_val(&mut self, val: u64);
    fn arm(&mut self, a: bool);
    fn here(&self) -> usize {
        self as *const Self as usize
    }
}
impl Tv for F {
    fn new(id: u16, val: u64) -> F {
        F { id, armed: false, val }
    }
    fn is_id(&self, id: u16) -> bool {
        self.id == id
    }
    fn is_val(&self, val: u64) -> bool {
        self.val == val
    }
    fn set_val(&mut self, val: u64) {
        self.val = val;
    }
    fn arm(&mut self, a: bool) {
        self.armed = a;
    }
}
#[derive(Clone, Copy)]
pub struct Np {
    pub val: u64,
    pub id: u16,
}
impl Tv for Np {
    fn new(id: u16, val: u64) -> Np {
        Np { id, val }
    }
    fn is_id(&self, id: u16) -> bool {
        self.id == id
    }
    fn is_val(&self, val: u64) -> bool {
        self.val == val
    }
    fn set_val(&mut self, val: u64) {
        self.val = val;
    }
    fn arm(&mut self, _: bool) {}
}
/// Align 1, nine bytes.
#[derive(Clone, Copy)]
pub struct Bt {
    pub id: u8,
    pub val: [u8; 8],
}
impl Tv for Bt {
    fn new(id: u16, val: u64) -> Bt {
        Bt { id: id as u8, val: val.to_le_bytes() }
    }
    fn is_id(&self, id: u16) -> bool {
        self.id == id as u8
    }
    fn is_val(&self, val: u64) -> bool {
        u64::from_le_bytes(self.val) == val
    }
    fn set_val(&mut self, val: u64) {
        self.val = val.to_le_bytes();
    }
    fn arm(&mut self, _: bool) {}
}
pub struct Z;
impl Tv for Z {
    fn new(_: u16, _: u64) -> Z {
        Z
    }
    fn is_id(&self, _: u16) -> bool {
        true
    }
    fn is_val(&self, _: u64) -> bool {
        true
    }
    fn set_val(&mut self, _: u64) {}
    fn arm(&mut self, _: bool) {}
}
#[repr(align(16))]
pub struct W {
    pub b: u8,
    pub f: F,
}
impl Tv for W {
    fn new(id: u16, val: u64) -> W {
        W { b: id as u8, f: Tv::new(id, val) }
    }
    fn is_id(&self, id: u16) -> bool {
        self.b == id as u8 && self.f.id == id
    }
    fn is_val(&self, val: u64) -> bool {
        self.f.val == val
    }
    fn set_val(&mut self, val: u64) {
        self.f.val = val;
    }
    fn arm(&mut self, a: bool) {
        self.f.armed = a;
    }
    /// Where its tracked part is dropped.
    fn here(&self) -> usize {
        &self.f as *const F as usize
    }
}

/// Types of other forms around a tracked value.
pub struct Gw<T>(pub u8, pub T);
pub type Al = F;
pub type Id<T> = T;
pub trait Same {
    type S;
}
impl<T> Same for T {
    type S = T;
}
#[macro_export]
macro_rules! ty {
    ($t:ty) => {
        $t
    };
}
macro_rules! around {
    ($t:ty, $x:ident => $mk:expr, $s:ident => $i:expr, $m:expr) => {
        impl<T: Tv> Tv for $t {
            fn new(id: u16, val: u64) -> Self {
                let $x: T = Tv::new(id, val);
                $mk
            }
            fn is_id(&self, id: u16) -> bool {
                let $s = self;
                $i.is_id(id)
            }
            fn is_val(&self, val: u64) -> bool {
                let $s = self;
                $i.is_val(val)
            }
            fn set_val(&mut self, val: u64) {
                let $s = self;
                $m.set_val(val)
            }
            fn arm(&mut self, a: bool) {
                let $s = self;
                $m.arm(a)
            }
            fn here(&self) -> usize {
                let $s = self;
                $i.here()
            }
        }
    };
}
around!([T; 1], x => [x], s => s[0], s[0]);
around!((T,), x => (x,), s => s.0, s.0);
around!((u8, T), x => (7, x), s => s.1, s.1);
around!(Gw<T>, x => Gw(7, x), s => s.1, s.1);
around!(Option<T>, x => Some(x), s => s.as_ref().unwrap(), s.as_mut().unwrap());
around!(core::mem::ManuallyDrop<T>, x => core::mem::ManuallyDrop::new(x), s => (**s), (**s));
around!(core::num::Wrapping<T>, x => core::num::Wrapping(x), s => s.0, s.0);
/// References and pointers: the value lies elsewhere, the field itself is here.
macro_rules! elsewhere {
    ($t:ty, $s:ident => $r:expr) => {
        impl Tv for $t {
            fn new(id: u16, val: u64) -> Self {
                Box::leak(Box::new(Np { id, val }))
            }
            fn is_id(&self, id: u16) -> bool {
                let $s = self;
                $r.id == id
            }
            fn is_val(&self, val: u64) -> bool {
                let $s = self;
                $r.val == val
            }
            fn set_val(&mut self, val: u64) {
                let id = {
                    let $s = &*self;
                    $r.id
                };
                *self = Tv::new(id, val);
            }
            fn arm(&mut self, _: bool) {}
        }
    };
}
elsewhere!(&'static Np, s => s);
elsewhere!(&'static mut Np, s => s);
elsewhere!(*const Np, s => (unsafe { &**s }));
elsewhere!(*mut Np, s => (unsafe { &**s }));
impl Tv for fn(u16) -> u16 {
    fn new(id: u16, _: u64) -> Self {
        fn even(x: u16) -> u16 {
            x & 0xfe
        }
        fn odd(x: u16) -> u16 {
            x | 1
        }
        if id % 2 == 0 {
            even
        } else {
            odd
        }
    }
    fn is_id(&self, id: u16) -> bool {
        self(id) == id
    }
    fn is_val(&self, _: u64) -> bool {
        true
    }
    fn set_val(&mut self, _: u64) {}
    fn arm(&mut self, _: bool) {}
}

/// Uniform access to a field through whatever reference a projection hands out.
pub trait Get {
    fn addr(&self) -> usize;
    fn has_id(&self, id: u16) -> bool;
    fn has_val(&self, val: u64) -> bool;
}
pub trait Set: Get {
    fn set(&mut self, v: u64);
}
macro_rules! get {
    ($t:ty) => {
        impl<T: Tv> Get for $t {
            fn addr(&self) -> usize {
                (**self).here()
            }
            fn has_id(&self, id: u16) -> bool {
                (**self).is_id(id)
            }
            fn has_val(&self, val: u64) -> bool {
                (**self).is_val(val)
            }
        }
    };
}
get!(&T);
get!(&mut T);
get!(Pin<&T>);
get!(Pin<&mut T>);
impl<T: Tv> Set for &mut T {
    fn set(&mut self, v: u64) {
        (**self).set_val(v);
    }
}
impl<T: Tv> Set for Pin<&mut T> {
    fn set(&mut self, v: u64) {
        unsafe { self.as_mut().get_unchecked_mut() }.set_val(v);
    }
}
/// What an owned projection holds for a field.
pub trait Own {
    type O: Tv;
    fn take(self) -> Option<Self::O>;
}
impl<T: Tv> Own for T {
    type O = T;
    fn take(self) -> Option<T> {
        Some(self)
    }
}
impl<T: Tv> Own for PhantomData<T> {
    type O = T;
    fn take(self) -> Option<T> {
        None
    }
}

// What a destructor body records, for comparison with the same body in an ordinary method.
pub static mut REC: ([u64; 24], usize) = ([0; 24], 0);
#[allow(static_mut_refs)]
pub fn rec(x: u64) {
    unsafe {
        REC.0[REC.1] = x;
        REC.1 += 1;
    }
}
#[allow(static_mut_refs)]
pub fn rec_reset() {
    unsafe { REC.1 = 0 }
}
#[allow(static_mut_refs)]
pub fn rec_take() -> (usize, [u64; 24]) {
    unsafe {
        let r = (REC.1, REC.0);
        REC.1 = 0;
        r
    }
}
