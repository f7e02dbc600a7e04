use crate::sup::*;
use syn::{Expr, GenericParam, ImplItem, Item, Stmt, Type, UseTree};

#[derive(Default)]
struct Found {
    /// names in the module the type is in, with the kinds of their generic parameters
    types: Vec<(String, Vec<u8>)>,
    methods: Vec<String>,
}
fn kinds(g: &syn::Generics) -> Vec<u8> {
    g.params.iter().map(|p| match p {
        GenericParam::Lifetime(_) => b'l',
        GenericParam::Type(_) => b't',
        GenericParam::Const(_) => b'c',
    }).collect()
}
fn uses(t: &UseTree, f: &mut Found) {
    match t {
        UseTree::Path(p) => uses(&p.tree, f),
        UseTree::Name(n) => f.types.push((n.ident.to_string(), vec![])),
        UseTree::Rename(r) => f.types.push((r.rename.to_string(), vec![])),
        UseTree::Glob(_) => f.types.push(("*".to_string(), vec![])),
        UseTree::Group(g) => g.items.iter().for_each(|x| uses(x, f)),
    }
}
fn walk(i: &Item, top: bool, name: &str, f: &mut Found) {
    match i {
        Item::Struct(s) if top => f.types.push((s.ident.to_string(), kinds(&s.generics))),
        Item::Enum(s) if top => f.types.push((s.ident.to_string(), kinds(&s.generics))),
        Item::Union(s) if top => f.types.push((s.ident.to_string(), kinds(&s.generics))),
        Item::Type(s) if top => f.types.push((s.ident.to_string(), kinds(&s.generics))),
        Item::Trait(s) if top => f.types.push((s.ident.to_string(), kinds(&s.generics))),
        Item::Mod(s) if top => f.types.push((s.ident.to_string(), vec![])),
        Item::Use(u) if top => uses(&u.tree, f),
        Item::Const(c) => {
            if let Expr::Block(b) = &*c.expr {
                for s in &b.block.stmts {
                    if let Stmt::Item(i) = s {
                        walk(i, false, name, f);
                    }
                }
            }
        }
        Item::Impl(m) if m.trait_.is_none() => {
            if let Type::Path(p) = &*m.self_ty {
                if p.qself.is_none() && p.path.segments.last().map_or(false, |s| eq(&s.ident.to_string(), name)) {
                    for x in &m.items {
                        if let ImplItem::Fn(x) = x {
                            f.methods.push(x.sig.ident.to_string());
                        }
                    }
                }
            }
        }
        _ => {}
    }
}
struct Want {
    pm: Option<String>,
    pr: Option<String>,
    po: Option<Option<String>>,
}
fn decide(args: TokenStream, item: TokenStream, is_enum: bool, name: &str, gen: &[u8], w: &Want) {
    let e = expand(args, item);
    reach(1);
    if e.rejected {
        return;
    }
    reach(2);
    tell("name", &name);
    tell("enum", &is_enum);
    let mut f = Found::default();
    for t in [&e.attr, &e.gen] {
        match syn::parse2::<syn::File>(t.clone()) {
            Ok(x) => x.items.iter().for_each(|i| walk(i, true, name, &mut f)),
            Err(_) => {
                check(false, 9);
                return;
            }
        }
    }
    let mut all = String::new();
    for (t, _) in &f.types {
        all.push_str(t);
        all.push(' ');
    }
    tell("types", &all);
    let has = |m: &str| f.methods.iter().filter(|x| *x == m).count();
    check(has("project") == if !is_enum || w.pm.is_some() { 1 } else { 0 }, 1);
    check(has("project_ref") == if !is_enum || w.pr.is_some() { 1 } else { 0 }, 2);
    check(has("project_replace") == if w.po.is_some() { 1 } else { 0 }, 3);
    let mut names: Vec<(&str, bool)> = vec![];
    if let Some(n) = &w.pm {
        names.push((n, true));
    }
    if let Some(n) = &w.pr {
        names.push((n, true));
    }
    if let Some(Some(n)) = &w.po {
        names.push((n, false));
    }
    for (n, lt) in &names {
        let mut c = 0;
        for (t, k) in &f.types {
            if eq(t, n) {
                c += 1;
                let mut want = gen.to_vec();
                if *lt {
                    want.insert(0, b'l');
                }
                check(*k == want, 5);
            }
        }
        check(c == 1, 4);
    }
    check(f.types.len() == names.len() + 1, 6);
}
fn arg(out: &mut TokenStream, t: TokenStream) {
    if !out.is_empty() {
        out.extend(ts(","));
    }
    out.extend(t);
}
fn named(k: &str, n: &str) -> TokenStream {
    subst(ts("Q0 = Q1"), &[tid(id(k)), tid(id(n))])
}
const BODY: &[(&str, bool)] = &[
    ("Q2 struct Q0 Q1 { #[pin] a: u8, b: Q0 }", false),
    ("#[doc = \"d\"] Q2 struct Q0 Q1 (u8, #[pin] u8);", false),
    ("Q2 enum Q0 Q1 { A(#[pin] u8), B { x: u8 }, C }", true),
    ("#[derive(Clone)] Q2 enum Q0 Q1 { A { a: u8 } }", true),
];
const GENS: &[(&str, &[u8])] = &[("", b""), ("<T>", b"t"), ("<'a, T: 'a, const N: usize>", b"ltc"), ("<'a, 'b: 'a, T: Tr<'a> = u8, U: ?Sized>", b"lltt"), ("<const N: usize, T>", b"ct")];

/// Every set of arguments, every order of the named ones, every kind of item.
pub fn h_sets() {
    let (body, is_enum) = pick(BODY);
    let (g, k) = pick(GENS);
    let mut a = TokenStream::new();
    let mut w = Want { pm: None, pr: None, po: None };
    let order = choice(3);
    for i in 0..3 {
        match (i + order) % 3 {
            0 => {
                if choice(2) == 1 {
                    arg(&mut a, ts("project = Pm"));
                    w.pm = Some("Pm".to_string());
                }
            }
            1 => {
                if choice(2) == 1 {
                    arg(&mut a, ts("project_ref = Pr"));
                    w.pr = Some("Pr".to_string());
                }
            }
            _ => match choice(3) {
                1 => {
                    arg(&mut a, ts("project_replace = Po"));
                    w.po = Some(Some("Po".to_string()));
                }
                2 => {
                    arg(&mut a, ts("project_replace"));
                    w.po = Some(None);
                }
                _ => {}
            },
        }
    }
    match choice(4) {
        1 => arg(&mut a, ts("PinnedDrop")),
        2 => arg(&mut a, ts("!Unpin")),
        3 => a = if a.is_empty() { ts("UnsafeUnpin") } else { cat(&[ts("UnsafeUnpin,"), a, ts(",")]) },
        _ => {}
    }
    let t = subst(ts(body), &[ts("S"), ts(g), ts("pub")]);
    decide(a, t, is_enum, "S", k, &w);
}
/// Any names.
pub fn h_names() {
    let (body, is_enum) = pick(&[BODY[0], BODY[2]]);
    let name = sym_str(1 + choice(3));
    assume(!keyword(&name));
    let mut a = TokenStream::new();
    let mut w = Want { pm: None, pr: None, po: None };
    let len = 1 + choice(2);
    let which = choice(5);
    let fresh = |other: &[&str]| {
        let s = sym_str(len);
        assume(!keyword(&s));
        for o in other {
            assume(!eq(&s, o));
        }
        s
    };
    if which == 0 || which == 3 || which == 4 {
        let s = fresh(&[&name]);
        arg(&mut a, named("project", &s));
        w.pm = Some(s);
    }
    if which == 1 || which == 3 {
        let s = fresh(&[&name, w.pm.as_deref().unwrap_or("")]);
        arg(&mut a, named("project_ref", &s));
        w.pr = Some(s);
    }
    if which == 2 || which == 4 {
        let s = fresh(&[&name, w.pm.as_deref().unwrap_or("")]);
        arg(&mut a, named("project_replace", &s));
        w.po = Some(Some(s));
    }
    let t = subst(ts(body), &[tid(id(&name)), ts("<T>"), ts(pick(&["", "pub", "pub(crate)"]))]);
    decide(a, t, is_enum, &name, b"t", &w);
}
/// Any field, variant and parameter names.
pub fn h_fields() {
    let s = sym_str(1 + choice(8));
    assume(!keyword(&s));
    assume(!s.starts_with("__") && s != "S" && s != "Pm" && s != "Pr");
    let n = tid(id(&s));
    let pos = choice(5);
    let (t, is_enum, g): (&str, bool, &[u8]) = [
        ("struct S<T> { #[pin] Q0: T, b: u8 }", false, &b"t"[..]),
        ("enum S<T> { Q0(#[pin] T), B { b: u8 } }", true, b"t"),
        ("enum S<T> { A { Q0: T }, B(#[pin] u8) }", true, b"t"),
        ("struct S<Q0: Copy>(#[pin] Q0) where Q0: Tr;", false, b"t"),
        ("struct S<const Q0: usize> { #[pin] a: [u8; Q0] }", false, b"c"),
    ][pos];
    let w = Want { pm: Some("Pm".to_string()), pr: if flag() { Some("Pr".to_string()) } else { None }, po: None };
    let mut a = ts("project = Pm");
    if w.pr.is_some() {
        arg(&mut a, ts("project_ref = Pr"));
    }
    decide(a, subst(ts(t), &[n]), is_enum, "S", g, &w);
}
