// The body of a pinned destructor with an identifier of the user's that is symbolic.
use crate::sup::*;

// Q0: the identifier; Q9: the receiver
const BODY: &[(&str, &str, &str)] = &[
    ("", "", "let Q0: u64 = 5; rec(Q0); rec(Q9.b);"),
    ("", "", "let Q0 = 5u64; rec(idm!(Q0)); rec(idm!((Q0, Q9.b).1)); rec(idm!{ idm!([Q0][0]) });"),
    ("", "", "let f = |Q0: u64| Q0 ^ Q9.b; rec(f(2)); rec(idm!(|Q0: u64| Q0 ^ 1)(3));"),
    ("struct X1 { Q0: u64 }", "", "let v1 = X1 { Q0: 3 }; rec(v1.Q0); let X1 { Q0: v2 } = v1; rec(v2); rec(idm!(X1 { Q0: 4 }.Q0)); rec(Q9.b);"),
    ("mod Q0 { pub fn f1() -> u64 { 3 } pub struct T1(pub u64); }", "", "rec(Q0::f1()); rec(idm!(Q0::f1())); rec(self::Q0::f1()); rec(idm!(self::Q0::f1())); let Q0::T1(v1) = Q0::T1(4); rec(v1); let v2: Q0::T1 = Q0::T1 { 0: 5 }; rec(v2.0 ^ Q9.b);"),
    ("trait Q0 { fn m1(&self) -> u64 { 3 } const K1: u64 = 4; type A1; } impl Q0 for u64 { type A1 = u8; }", "", "rec(<u64 as Q0>::m1(&1)); rec(<u64 as Q0>::K1); let v1: <u64 as Q0>::A1 = 3; rec(v1 as u64); rec(idm!(<u64 as Q0>::K1));"),
    ("macro_rules! Q0 { ($($t:tt)*) => { 7 } }", "", "rec(Q0!()); rec(Q0![a b] ^ Q9.b); rec(idm!(Q0!{}));"),
    ("", "", "'Q0: loop { if Q9.b > 3 { break 'Q0; } let v1 = 'Q0: { break 'Q0 4u64 }; rec(v1); break; } rec(idm!('Q0: { break 'Q0 Q9.b }));"),
    ("struct Q0(u64); impl Q0 { fn m1(&self) -> u64 { self.0 } const K1: u64 = 3; }", "", "let v1: Q0 = Q0(3); rec(v1.0); rec(idm!(Q0(4).m1())); rec(Q0::K1); rec(core::mem::size_of::<Q0>() as u64); let Q0(v2) = v1; rec(v2); rec(Q0::m1(&Q0(6)));"),
    ("trait Tm { fn Q0(&self) -> u64 { 4 } } impl Tm for u64 {}", "", "rec(Q9.b.Q0()); rec(idm!(2u64.Q0())); rec(Tm::Q0(&1u64)); rec(<u64 as Tm>::Q0(&Q9.b));"),
    ("", "", "rec(stringify!(Q0).len() as u64); rec(concat!(stringify!(x Q0 y), \"Q0\").len() as u64);"),
    ("", "", "fn Q0() -> u64 { 3 } rec(Q0()); const Y1: u64 = 4; rec(Y1 ^ Q9.b);"),
    ("", "", "macro_rules! z1 { ($Q0:expr) => { $Q0 } ; ($Q0:ident $x:expr) => { $x } } rec(z1!(Q9.b)); rec(z1!(Q0 3));"),
    ("", "", "fn g1<Q0: Copy>(x: Q0) -> Q0 { x } rec(g1(Q9.b)); const Q0: u64 = 3; rec(Q0); type Q0 = u8; rec(3 as Q0 as u64);"),
    ("enum En { Q0 }", "", "let En::Q0 = En::Q0; if let En::Q0 = idm!(En::Q0) { rec(Q9.b) } match En::Q0 { En::Q0 => rec(4) }"),
    ("", "", "#[cfg(Q0)] rec(3); #[allow(Q0)] let v1 = 3; rec(v1); #[cfg(not(Q0))] { rec(Q9.b) }"),
    ("mod m1 { pub fn Q0() -> u64 { 3 } }", "", "use self::m1::Q0 as zz; rec(zz()); use m1::{self, Q0}; rec(m1::Q0()); rec(Q0());"),
    ("struct X1 { Q0: u64 }", "", "match (X1 { Q0: 4 }) { X1 { Q0 } if Q0 > 3 => rec(Q0), X1 { Q0 } => rec(Q0) } let Q0 = 3; let v1 = X1 { Q0 }; rec(v1.Q0); let _f = async move { Q0 };"),
    ("", "", "struct Q0 { v: u64 } impl Q0 { fn mk() -> Self { Self { v: 3 } } fn m(self) -> u64 { self.v } fn r(&mut self) -> u64 { let Self { v } = self; *v } } rec(Q0::mk().m()); rec(Q0::mk().r()); rec(Q9.b);"),
    ("", "", "trait Q0 { type A; const K: u64 = 3; fn m(&self) -> u64 where Self: Sized { Self::K } } impl Q0 for u8 { type A = Self; } rec(Q0::m(&1u8)); let v1: <u8 as Q0>::A = 4; rec(v1 as u64);"),
    ("", "", "rec(\"Q0 self Self\".len() as u64); rec('s' as u64); rec(idm!(\"self Self\").len() as u64); rec(b\"self\".len() as u64); let Q0 = 1u64; rec(Q9.c[Q0 as usize]); rec(-(Q9.b as i64) as u64 ^ Q0);"),
];

/// Does `t` end with `want`, Q9 standing for one identifier (the same throughout)?
fn matches(t: &[TokenTree], want: &[TokenTree], p: &mut Option<String>) -> bool {
    if t.len() != want.len() {
        return false;
    }
    for i in 0..t.len() {
        match (&t[i], &want[i]) {
            (TokenTree::Ident(a), TokenTree::Ident(b)) => {
                let (a, b) = (a.to_string(), b.to_string());
                if eq(&b, "Q9") {
                    match p {
                        Some(q) => {
                            if !eq(q, &a) {
                                return false;
                            }
                        }
                        None => *p = Some(a),
                    }
                } else if !eq(&a, &b) {
                    return false;
                }
            }
            (TokenTree::Punct(a), TokenTree::Punct(b)) => {
                if a.as_char() != b.as_char() {
                    return false;
                }
            }
            (TokenTree::Literal(a), TokenTree::Literal(b)) => {
                if !eq(&a.to_string(), &b.to_string()) {
                    return false;
                }
            }
            (TokenTree::Group(a), TokenTree::Group(b)) => {
                let x: Vec<TokenTree> = a.stream().into_iter().collect();
                let y: Vec<TokenTree> = b.stream().into_iter().collect();
                if a.delimiter() != b.delimiter() || !matches(&x, &y, p) {
                    return false;
                }
            }
            _ => return false,
        }
    }
    true
}
fn ends(t: &[TokenTree], want: &[TokenTree]) -> bool {
    if t.len() >= want.len() {
        let mut p = None;
        if matches(&t[t.len() - want.len()..], want, &mut p) {
            return true;
        }
    }
    t.iter().any(|tt| match tt {
        TokenTree::Group(g) => {
            let x: Vec<TokenTree> = g.stream().into_iter().collect();
            ends(&x, want)
        }
        _ => false,
    })
}
fn slf(t: TokenStream) -> TokenStream {
    t.into_iter()
        .map(|tt| match tt {
            TokenTree::Ident(i) if i == "Q9" => TokenTree::Ident(id("self")),
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), slf(g.stream()))),
            o => o,
        })
        .collect()
}
/// Like subst, leaving Q9.
fn put(t: TokenStream, name: &str) -> TokenStream {
    t.into_iter()
        .map(|tt| match tt {
            TokenTree::Ident(i) if i == "Q0" => TokenTree::Ident(id(name)),
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), put(g.stream(), name))),
            o => o,
        })
        .collect()
}

fn one(name: &str, head: &str) {
    let (before, _, body) = pick(BODY);
    let want = put(ts(body), name);
    let body = slf(want.clone());
    tell("items", &put(ts(before), name));
    tell("body", &body);
    tell("head", &head);
    let mut item = ts(head);
    item.extend(subst(ts("{ fn drop(self: Pin<&mut Self>) { Q0 } }"), &[body]));
    let (o, rejected) = expand_drop(TokenStream::new(), item);
    check(!rejected, 1);
    let o: Vec<TokenTree> = o.into_iter().collect();
    let w: Vec<TokenTree> = want.into_iter().collect();
    check(ends(&o, &w), 2);
    reach(1);
}
fn name(len: usize) -> String {
    let n = sym_str(len);
    assume(!keyword(&n));
    assume(!eq(&n, "Q0") & !eq(&n, "Q9"));
    // names with two leading underscores are the expansion's own
    if len > 1 {
        assume((n.as_bytes()[0] != b'_') | (n.as_bytes()[1] != b'_'));
    }
    n
}
pub fn h_name_short() {
    let n = name(choice(4) + 1);
    one(&n, "impl PinnedDrop for S<u8>");
}
pub fn h_name_mid() {
    let n = name(choice(4) + 5);
    one(&n, "impl<T> PinnedDrop for S<T>");
}
pub fn h_name_long() {
    let n = name(choice(3) + 9);
    one(&n, "impl<T: Copy> PinnedDrop for self::S<T> where T: Sized");
}
