use crate::sup::*;

/// The leading outer attributes and what follows them.
fn split(t: &TokenStream) -> (Vec<TokenStream>, Vec<TokenTree>) {
    let v: Vec<TokenTree> = t.clone().into_iter().collect();
    let mut a = vec![];
    let mut i = 0;
    while is_punct(v.get(i), '#') {
        match v.get(i + 1) {
            Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Bracket => a.push(g.stream()),
            _ => break,
        }
        i += 2;
    }
    (a, v[i..].to_vec())
}
fn idents(t: &TokenStream) -> Vec<String> {
    t.clone().into_iter().filter_map(|x| match x {
        TokenTree::Ident(i) => Some(i.to_string()),
        _ => None,
    }).collect()
}
/// `derive(..)` of the macro's own derive and nothing else, or its helper attribute.
fn helper(a: &TokenStream) -> bool {
    let v: Vec<TokenTree> = a.clone().into_iter().collect();
    match (v.get(0), v.get(1)) {
        (Some(TokenTree::Ident(n)), Some(TokenTree::Group(g))) if v.len() == 2 => {
            if n == "pin" {
                return true;
            }
            let w = idents(&g.stream());
            let commas = g.stream().into_iter().filter(|x| is_punct(Some(x), ',')).count();
            n == "derive" && w.last().map_or(false, |l| l == DERIVE) && commas <= 1 && w.len() <= 3
        }
        _ => false,
    }
}
fn items(v: &[TokenTree]) -> TokenStream {
    v.iter().cloned().collect()
}
/// The output is the item as written: same tokens, and in front of them the same attributes in the same order and the macro's own.
fn unchanged(args: &str, item: TokenStream) {
    let e = expand(ts(args), item.clone());
    reach(1);
    if e.rejected {
        return;
    }
    reach(2);
    tell_tokens("output", &e.attr);
    let (want, rest) = split(&item);
    let rest_t = items(&rest);
    let (mut got, mut out) = split(&e.attr);
    if !(out.len() >= rest.len() && same(&items(&out[..rest.len()]), &rest_t)) {
        // items may have been put in front of it
        let v: Vec<TokenTree> = e.attr.clone().into_iter().collect();
        let mut found = false;
        for p in 0..v.len() {
            if !is_punct(v.get(p), '#') || (p > 1 && is_punct(v.get(p - 2), '#')) {
                continue;
            }
            let (g, o) = split(&items(&v[p..]));
            if o.len() >= rest.len() && same(&items(&o[..rest.len()]), &rest_t) {
                got = g;
                out = o;
                found = true;
                break;
            }
        }
        check(found, 1);
    } else {
        check(true, 1);
    }
    let mut i = 0;
    for a in &got {
        if i < want.len() && same(a, &want[i]) {
            i += 1;
        } else if !helper(a) {
            check(false, 2);
        }
    }
    check(i == want.len(), 3);
}
const ATTRS: &[&str] = &[
    "",
    "#[doc = \" text \"]",
    "#[derive(Debug)]",
    "#[repr(C)]",
    "#[repr(align(8))]",
    "#[non_exhaustive]",
    "#[must_use]",
    "#[allow(dead_code, clippy::all)]",
    "#[cfg_attr(feature = \"x\", derive(Clone))]",
    "#[cfg(not(x))]",
    "#[deprecated(note = \"n\")]",
    "#[rustfmt::skip]",
    "#[doc(hidden)]",
    "#[derive(Clone)] #[derive(Default, Debug)]",
    "#[doc = \"a\"] #[allow(unused)] #[doc = \"b\"]",
];
const VIS: &[&str] = &["", "pub", "pub(crate)", "pub(self)", "pub(super)", "pub(in crate)", "pub(in super::m)"];
const GEN: &[&str] = &["", "<>", "<T>", "<T,>", "<'a, T: 'a + ?Sized + Tr<A = u8> = dyn Tr<A = u8>>", "<'a: 'static, 'b: 'a, T, const N: usize = 3>", "<#[cfg(x)] T, #[doc = \"\"] U: for<'x> Fn(&'x T) -> u8>", "<const B: bool = { 1 > 0 }, const M: u8 = b'x'>"];
const WHERE: &[&str] = &["", "where", "where T: Copy", "where T: Copy,", "where Self: Sized, T: 'static, for<'x> &'x T: Tr, [u8; { 1 + 1 }]: Tr", "where <T as Tr>::A: ?Sized + Tr,"];
const TY: &[&str] = &["T", "u8", "&'a mut T", "Self", "*const Self", "[Self::X; N]", "Box<Option<Self>>", "for<'x> fn(&'x u8, _: ...) -> !", "m!{x => y}", "dyn Tr + 'a", "<Self as Tr>::A", "(u8,)", "::core::pin::Pin<Box<dyn Tr>>", "[u8; { let x = 1; x }]", "impl Tr", "_", "r#type", "self::T"];
const FATTRS: &[&str] = &["", "#[pin]", "#[doc = \"f\"] #[pin]", "#[pin] #[allow(dead_code)]", "#[cfg(x)]", "#[cfg_attr(x, pin)]", "#[cfg(not(x))] #[pin] #[doc = \"a\"]", "#[serde(default)]"];

fn generics() -> (TokenStream, TokenStream) {
    (ts(pick(GEN)), ts(pick(WHERE)))
}
fn decl(attrs: TokenStream, vis: TokenStream, name: TokenStream, g: TokenStream, w: TokenStream, kind: usize, f: &[TokenStream]) -> TokenStream {
    let t = match kind {
        0 => "Q0 Q1 struct Q2 Q3 Q4 { Q5 a: Q6, b: u8 }",
        1 => "Q0 Q1 struct Q2 Q3 (Q5 pub(in super) Q6, u8,) Q4;",
        2 => "Q0 Q1 enum Q2 Q3 Q4 { #[doc = \"v\"] A { Q5 a: Q6 }, B(u8), C }",
        _ => "Q0 Q1 enum Q2 Q3 Q4 { A, B(u8, Q5 Q6), #[cfg(x)] C(), }",
    };
    subst(ts(t), &[attrs, vis, name, g, w, f[0].clone(), f[1].clone()])
}
/// Attributes and visibility on every kind of item.
pub fn h_head() {
    let a = ts(pick(ATTRS));
    let v = match choice(VIS.len() + 1) {
        0 => TokenTree::Group(Group::new(Delimiter::None, ts("pub"))).into(),
        k => ts(VIS[k - 1]),
    };
    let k = choice(4);
    unchanged(if k < 2 { "" } else { "project = P" }, decl(a, v, ts("S"), ts("<T>"), TokenStream::new(), k, &[ts("#[pin]"), ts("T")]));
}
/// Attributes in any order, repeated or not.
pub fn h_attrs() {
    let mut t = TokenStream::new();
    for _ in 0..2 + choice(2) {
        t.extend(ts(pick(&["#[doc = \"x\"]", "#[repr(C)]", "#[derive(Debug)]", "#[must_use]", "#[allow(unused)]", "#[cfg_attr(x, derive(Clone))]", "#[a::b(c)]", "#[doc(hidden)]"])));
    }
    let k = 3 * choice(2);
    unchanged("project = P", decl(t, ts("pub"), ts("S"), ts("<T>"), TokenStream::new(), k, &[ts("#[pin]"), ts("T")]));
}
/// Long declarations.
pub fn h_long() {
    let n = 1 + choice(16);
    let k = choice(3);
    let mut b = String::new();
    for i in 0..n {
        b.push_str(&match k {
            0 => format!("{} pub f{}: [u8; {}], ", if i % 3 == 0 { "#[pin]" } else { "" }, i, i),
            1 => format!("{} [u8; {}], ", if i % 2 == 0 { "#[pin]" } else { "#[doc = \"x\"] pub" }, i),
            _ => format!("V{} {}, ", i, ["{ a: u8 }", "(u8, #[pin] u8)", "", "()", "{}"][i % 5]),
        });
    }
    unchanged("", ts(&match k {
        0 => format!("struct S {{ {} }}", b),
        1 => format!("struct S({});", b),
        _ => format!("enum S {{ {} }}", b),
    }));
}
/// Generics and where clauses.
pub fn h_gen() {
    let (g, w) = generics();
    unchanged(pick(&["", "!Unpin", "PinnedDrop, project_ref = R"]), decl(ts("#[doc = \"d\"]"), ts("pub"), ts("S"), g, w, choice(4), &[ts("#[pin]"), ts("T")]));
}
/// Field attributes and types.
pub fn h_field() {
    let f = ts(pick(FATTRS));
    let t = match choice(TY.len() + 1) {
        0 => TokenTree::Group(Group::new(Delimiter::None, ts("Vec<Self>"))).into(),
        k => ts(TY[k - 1]),
    };
    unchanged("UnsafeUnpin", decl(TokenStream::new(), ts("pub"), ts("S"), ts("<'a, T>"), ts("where T: Tr"), choice(4), &[f, t]));
}
/// Any name in any place.
pub fn h_name() {
    let pos = choice(12);
    let len = 1 + choice(if pos == 0 || pos == 10 { 11 } else { 4 });
    let s = sym_str(len);
    let n = if pos != 0 && pos != 10 {
        assume(!keyword(&s));
        if flag() { tid(raw(&s)) } else { tid(id(&s)) }
    } else {
        assume(!keyword(&s));
        tid(id(&s))
    };
    let t = ts([
        "#[Q0(x)] pub struct S { #[pin] a: u8 }",
        "pub struct Q0 { #[pin] a: u8 }",
        "struct S<T: Q0> where T: Q0<T> { Q0: T, #[pin] b: Q0<T> }",
        "struct S<Q0: Copy = u8> where Q0: Tr (#[pin] Q0, Q0) ;",
        "struct S<Q0>(#[pin] Q0, Q0) where Q0: Tr;",
        "pub(in crate::Q0) enum E { Q0 { a: u8 }, B { #[pin] Q0: u8 } }",
        "enum Q0<T> { A(#[pin] T), B(Q0::A) }",
        "struct S<const Q0: usize> { #[pin] a: [u8; Q0], b: Q0!(Q0) }",
        "#[doc = \"d\"] struct S { a: dyn Q0<Q0 = Q0>, pub(in Q0) b: Q0::Q0 }",
        "enum E<T> where T: Q0 { #[Q0] A(#[Q0] T) }",
        "struct S { #[Q0 = 1] #[pin] a: u8, #[pin] #[Q0 {}] b: u8 }",
        "#[Q0::x] #[derive(Q0)] #[x::Q0(Q0)] #[allow(Q0)] struct S { a: u8 }",
    ][pos]);
    unchanged(pick(&["", "project = P"]), subst(t, &[n]));
}
/// Any lifetime name and any text of a doc comment.
pub fn h_lit() {
    let l = 1 + choice(4);
    let s = sym_str(l);
    if flag() {
        assume(!keyword(&s));
        unchanged("", subst(ts("#[doc = \"d\"] struct S<Q0, T: Q0> where T: for<Q1> Tr<Q1> { #[pin] a: &Q0 T }"), &[lifetime(&s), lifetime("x")]));
    } else {
        let lit: TokenStream = TokenTree::Literal(Literal::string(&s)).into();
        unchanged("", subst(ts("#[doc = Q0] #[cfg_attr(feature = Q0, deprecated(note = Q0))] struct S { #[doc = Q0] #[pin] a: u8, #[doc(alias = Q0)] b: u8 }"), &[lit]));
    }
}
/// Everything at once.
pub fn h_all_deep() {
    let a = ts(pick(&ATTRS[..6]));
    let v = ts(pick(&["", "pub", "pub(in super::m)"]));
    let g = ts(pick(&[GEN[0], GEN[1], GEN[4], GEN[6]]));
    let w = ts(pick(&[WHERE[0], WHERE[1], WHERE[4]]));
    let f = ts(pick(&FATTRS[..4]));
    let t = ts(pick(&[TY[0], TY[5], TY[8]]));
    unchanged(pick(&["", "project = P, project_replace = Q", "!Unpin"]), decl(a, v, ts("S"), g, w, choice(4), &[f, t]));
}
