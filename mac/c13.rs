use crate::sup::*;
use syn::{ImplItem, Item};

/// `'r#a` and `'a` are the same lifetime.
fn bare(i: &Ident) -> String {
    let s = i.to_string();
    match s.strip_prefix("r#") {
        Some(r) => r.to_string(),
        None => s,
    }
}
fn life(n: &str, r: bool) -> TokenStream {
    if !r {
        return lifetime(n);
    }
    cat(&[TokenTree::Punct(Punct::new('\'', Spacing::Joint)).into(), tid(raw(n))])
}
fn lts(g: &syn::Generics, out: &mut Vec<String>) {
    for l in g.lifetimes() {
        out.push(bare(&l.lifetime.ident));
    }
}
fn scan(items: &[Item], names: &[&str], out: &mut Vec<String>, first: &mut u32) {
    for it in items {
        match it {
            Item::Struct(s) if names.iter().any(|n| s.ident == n) => {
                *first += 1;
                if let Some(l) = s.generics.lifetimes().next() {
                    out.push(bare(&l.lifetime.ident));
                }
            }
            Item::Enum(s) if names.iter().any(|n| s.ident == n) => {
                *first += 1;
                if let Some(l) = s.generics.lifetimes().next() {
                    out.push(bare(&l.lifetime.ident));
                }
            }
            Item::Impl(i) if i.trait_.is_none() => {
                for m in &i.items {
                    if let ImplItem::Fn(f) = m {
                        lts(&f.sig.generics, out);
                    }
                }
            }
            Item::Const(c) => {
                if let syn::Expr::Block(b) = &*c.expr {
                    let v: Vec<Item> = b
                        .block
                        .stmts
                        .iter()
                        .filter_map(|s| match s {
                            syn::Stmt::Item(i) => Some(i.clone()),
                            _ => None,
                        })
                        .collect();
                    scan(&v, names, out, first);
                }
            }
            _ => {}
        }
    }
}

fn go(item: TokenStream, used: &[&str]) {
    tell("valid", &true);
    let e = expand(ts("project = Pp, project_ref = Rr, project_replace = Oo"), item);
    check(!e.rejected, 1);
    if e.rejected {
        return;
    }
    let Ok(f) = syn::parse2::<syn::File>(e.gen) else { return };
    let mut out = vec![];
    let mut first = 0;
    scan(&f.items, &["Pp", "Rr"], &mut out, &mut first);
    reach(1);
    if !out.is_empty() {
        reach(2);
    }
    for o in &out {
        for u in used {
            check(!eq(o, u), 2);
        }
    }
}

const ONE: &[&str] = &[
    "struct S<Q0, T> { #[pin] a: &Q0 T, b: T }",
    "struct S<Q0: 'static, T>(#[pin] T, &Q0 u8);",
    "struct S<T: for<Q0> Fn(&Q0 u8)> { #[pin] a: T }",
    "struct S<T> where T: for<Q0> Fn(&Q0 u8) { #[pin] a: T }",
    "struct S<T> where for<Q0> T: Fn(&Q0 u8), { #[pin] a: T }",
    "struct S<T>(#[pin] T) where for<Q0> &Q0 T: Copy;",
    "struct S<T, U = for<Q0> fn(&Q0 u8)> { #[pin] a: T, b: U }",
    "struct S { #[pin] a: for<Q0> fn(&Q0 u8) }",
    "struct S { a: u8, b: for<Q0> fn(&Q0 u8) -> &Q0 u8 }",
    "struct S(u8, #[pin] Box<dyn for<Q0> Fn(&Q0 u8) + Send>);",
    "struct S { a: [Option<(u8, Box<dyn for<Q0> Fn(&Q0 u8)>)>; 3] }",
    "struct S { a: core::marker::PhantomData<fn(for<Q0> fn(&Q0 u8))> }",
    "struct S { a: &'static dyn for<Q0> Fn(&Q0 u8) }",
    "struct S<T: ?Sized>(u8, T) where T: for<Q0> Tr<Q0>;",
    "enum S<Q0> { A(#[pin] &Q0 u8), B }",
    "enum S { A(u8), B { a: u8, #[pin] b: for<Q0> fn(&Q0 u8) }, C }",
    "enum S { A, B(for<Q0> fn(&Q0 u8), u8) }",
    "enum S<T> where T: for<Q0> Fn(&Q0 u8) { A(T) }",
    "enum S<T: for<Q0> Tr<Q0> + Sized> { A(#[pin] T), B(u8) }",
    "struct S<const N: usize, T: Iterator<Item = for<Q0> fn(&Q0 u8)>> { a: T, b: [u8; N] }",
    "struct S { #[pin] a: <for<Q0> fn(&Q0 u8) as Tr2>::A }",
];
const BEFORE: &str = "pub trait Tr<'a> {} pub trait Tr2 { type A; } impl<T> Tr2 for T { type A = T; }";

/// One lifetime of three to six symbolic characters in every place.
pub fn h_one() {
    let n = sym_str(choice(4) + 3);
    assume(!keyword(&n));
    assume(!eq(&n, "static"));
    tell("before", &BEFORE);
    go(subst(ts(pick(ONE)), &[lifetime(&n)]), &[&n]);
}

const TWO: &[&str] = &[
    "struct S<Q0, Q1> { #[pin] a: &Q0 u8, b: &Q1 u8 }",
    "struct S<Q0, Q1: Q0>(&Q0 u8, #[pin] &Q1 u8);",
    "struct S<Q0, T: for<Q1> Fn(&Q1 u8, &Q0 u8)> { #[pin] a: T, b: &Q0 u8 }",
    "struct S<Q0> { a: &Q0 u8, b: for<Q1> fn(&Q1 u8) }",
    "struct S<T> where T: for<Q0> Fn(&Q0 u8) { a: T, #[pin] b: for<Q1> fn(&Q1 u8) }",
    "struct S { a: for<Q0> fn(&Q0 u8), b: for<Q1> fn(&Q1 u8) }",
    "struct S { a: for<Q0, Q1> fn(&Q0 u8, &Q1 u8) }",
    "enum S<Q0> { A(&Q0 u8), B(Box<dyn for<Q1> Fn(&Q1 u8)>) }",
    "enum S { A { a: for<Q0> fn(&Q0 u8) }, B(#[pin] for<Q1> fn(&Q1 u8)) }",
    "struct S<T> where T: for<Q0> Fn(&Q0 u8), T: for<Q1> Tr<Q1> { a: T }",
];
/// Two lifetimes, so that the generated name has to avoid both.
pub fn h_two() {
    let a = sym_str(choice(3) + 3);
    let b = sym_str(choice(3) + 3);
    assume(!keyword(&a) & !keyword(&b) & !eq(&a, &b));
    tell("before", &BEFORE);
    go(subst(ts(pick(TWO)), &[lifetime(&a), lifetime(&b)]), &[&a, &b]);
}
/// Longer names, up to sixteen characters, also written raw.
pub fn h_long() {
    let n = sym_str(choice(16) + 1);
    let r = flag();
    assume(!keyword(&n));
    tell("before", &BEFORE);
    let k = pick(&[0usize, 3, 7, 9, 15]);
    go(subst(ts(ONE[k]), &[life(&n, r)]), &[&n]);
}
/// Raw names: `'r#pin` is `'pin`.
pub fn h_raw() {
    let n = sym_str(choice(4) + 3);
    assume(!keyword(&n) & !eq(&n, "static"));
    tell("before", &BEFORE);
    go(subst(ts(pick(ONE)), &[life(&n, true)]), &[&n]);
}
pub fn h_raw_two() {
    let a = sym_str(choice(2) + 3);
    let b = sym_str(choice(3) + 3);
    let (x, y) = pick(&[(true, false), (false, true), (true, true)]);
    assume(!keyword(&a) & !keyword(&b) & !eq(&a, &b));
    tell("before", &BEFORE);
    go(subst(ts(TWO[choice(4) * 2]), &[life(&a, x), life(&b, y)]), &[&a, &b]);
}
/// All of `'pin`, `'pin_`, ... up to a number of underscores, as parameters or bound in field types.
pub fn h_run() {
    let k = 1 + choice(24);
    let (r, bound) = (flag(), flag());
    let mut used = vec![];
    let mut g = TokenStream::new();
    let mut f = TokenStream::new();
    for i in 0..k {
        let n = format!("pin{}", "_".repeat(i));
        let l = life(&n, r & (i % 2 == 0));
        g.extend(if bound { ts("") } else { cat(&[l.clone(), ts(",")]) });
        f.extend(subst(ts(if bound { "Q0: for<Q1> fn(&Q1 u8)," } else { "Q0: &Q1 u8," }), &[tid(id(&format!("f{}", i))), l]));
        used.push(n);
    }
    let used: Vec<&str> = used.iter().map(|s| s.as_str()).collect();
    go(subst(ts("struct S<Q0> { #[pin] x: u8, Q1 }"), &[g, f]), &used);
}
/// Many lifetimes at once.
pub fn h_chain() {
    let base = ["pin", "pin_", "pin__", "pin___", "pin____", "p", "pinn"];
    let mut used = vec![];
    let mut g = TokenStream::new();
    let mut f = TokenStream::new();
    for (i, n) in base.iter().enumerate() {
        if flag() {
            used.push(*n);
            g.extend(lifetime(n));
            g.extend(ts(","));
            f.extend(subst(ts("Q0: &Q1 u8,"), &[tid(id(["a", "b", "c", "d", "e", "f", "g"][i])), lifetime(n)]));
        }
    }
    go(subst(ts("struct S<Q0> { #[pin] x: u8, Q1 }"), &[g, f]), &used);
}
