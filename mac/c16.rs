use crate::sup::*;

fn parses(t: &TokenStream) -> bool {
    syn::parse2::<syn::File>(t.clone()).is_ok()
}
fn word(t: &TokenStream, w: &[&str]) -> bool {
    t.clone().into_iter().any(|tt| match tt {
        TokenTree::Ident(i) => w.iter().any(|x| i == *x),
        TokenTree::Group(g) if g.delimiter() == Delimiter::None => word(&g.stream(), w),
        _ => false,
    })
}
/// An operator character, all of them at once.
fn sym_punct() -> TokenTree {
    let b = sym_byte();
    let mut ok = false;
    for c in b"!#$%&*+,-./:;<=>?@^|~" {
        ok |= b == *c;
    }
    assume(ok);
    let s = if flag() { Spacing::Joint } else { Spacing::Alone };
    TokenTree::Punct(Punct::new(b as char, s))
}
fn group(d: Delimiter, t: TokenStream) -> TokenTree {
    TokenTree::Group(Group::new(d, t))
}
const DELIMS: [Delimiter; 4] = [Delimiter::Parenthesis, Delimiter::Brace, Delimiter::Bracket, Delimiter::None];
/// A token from the words the macros know and everything else a token can be.
fn tok(words: &[&str]) -> TokenStream {
    let k = choice(words.len() + 9);
    if k < words.len() {
        return tid(id(words[k]));
    }
    match k - words.len() {
        0 => {
            let s = sym_str(3);
            tid(id(&s))
        }
        1 => sym_punct().into(),
        2 => ts(pick(&["1", "\"s\"", "'c'", "0x1u8", "b\"x\""])),
        3 => lifetime("a"),
        4 => group(pick(&DELIMS), TokenStream::new()).into(),
        5 => group(pick(&DELIMS), tid(id(pick(&["x", "__private", "pin"])))).into(),
        6 => match choice(3) {
            0 => tid(raw("type")),
            1 => tid(id("\u{e9}")),
            _ => tid(id("\u{65e5}\u{672c}")),
        },
        7 => ts(pick(&["#[pin]", "#[pin()]", "#[pin = 1]", "#[pin(__private())]", "#[pin_project]"])),
        _ => tid(id("_")),
    }
}
fn size(t: &TokenStream) -> usize {
    t.clone().into_iter().map(|x| match x {
        TokenTree::Group(g) => 1 + size(&g.stream()),
        _ => 1,
    }).sum()
}
/// Applies f to the token number *at.
fn edit(t: TokenStream, at: &mut isize, f: &mut dyn FnMut(TokenTree, Option<TokenTree>) -> (TokenStream, bool)) -> TokenStream {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        if *at == 0 {
            *at -= 1;
            let (r, skip) = f(v[i].clone(), v.get(i + 1).cloned());
            out.extend(r);
            i += if skip { 2 } else { 1 };
            continue;
        }
        *at -= 1;
        match &v[i] {
            TokenTree::Group(g) => {
                let n = size(&g.stream()) as isize;
                if *at < n && *at >= 0 {
                    out.extend(Some(group(g.delimiter(), edit(g.stream(), at, f))));
                } else {
                    *at -= n;
                    out.extend(Some(v[i].clone()));
                }
            }
            x => out.extend(Some(x.clone())),
        }
        i += 1;
    }
    out
}
fn mutate(t: TokenStream, words: &[&str]) -> TokenStream {
    let n = size(&t);
    let mut at = choice(n) as isize;
    let op = choice(7);
    let new = if op >= 5 { tok(words) } else { TokenStream::new() };
    edit(t, &mut at, &mut |x, next| match op {
        0 => (TokenStream::new(), false),
        1 => (cat(&[x.clone().into(), x.into()]), false),
        2 => (group(Delimiter::None, x.into()).into(), false),
        3 => match next {
            Some(y) => (cat(&[y.into(), x.into()]), true),
            None => (x.into(), false),
        },
        4 => match x {
            TokenTree::Group(g) => (group(Delimiter::Parenthesis, g.stream()).into(), false),
            _ => match next {
                // group two neighbours, as `$t:ty` does
                Some(y) => (group(Delimiter::None, cat(&[x.into(), y.into()])).into(), true),
                None => (group(Delimiter::Brace, x.into()).into(), false),
            },
        },
        5 => (new.clone(), false),
        _ => (cat(&[new.clone(), x.into()]), false),
    })
}
fn attribute(args: TokenStream, item: TokenStream) {
    let e = expand(args, item);
    reach(1);
    if e.rejected {
        reach(2);
        return;
    }
    reach(3);
    check(word(&e.attr, &["struct", "enum"]), 1);
    check(parses(&e.attr), 2);
    check(parses(&e.gen), 2);
}
const ARGS: &[&str] = &["PinnedDrop", "UnsafeUnpin", "Unpin", "project", "project_ref", "project_replace", "Replace", "crate", "Self", "self"];
const ITEMS: &[&str] = &[
    "pub struct S<'a, T: Tr = u8, const N: usize> where T: 'a { #[pin] pub(crate) a: &'a T, b: [T; N] }",
    "struct S<T>(#[pin] T, pub u8) where T: Copy;",
    "#[repr(C, align(8))] enum E<T> { #[doc = \"d\"] A { #[pin] x: T }, B(u8, #[pin] Self), C }",
    "pub(in crate::m) struct S { r#type: for<'x> fn(&'x dyn Tr<A = u8>) -> <u8 as Tr>::A, #[pin] b: m!(x) }",
    "enum E { A(), B = 1 }",
];
const WORDS: &[&str] = &["struct", "pin", "repr", "packed", "Self", "where", "pub", "T"];

/// Any attribute arguments of up to n tokens.
fn args(n: usize) {
    let n = choice(n + 1);
    let mut a = TokenStream::new();
    for _ in 0..n {
        a.extend(tok(ARGS));
    }
    attribute(a, ts(if n < 2 && flag() { "enum E { A(u8) }" } else { "struct S { a: u8 }" }));
}
pub fn h_args() {
    args(2)
}
pub fn h_args_deep() {
    args(3)
}
/// One edit of a declaration.
pub fn h_item() {
    let t = mutate(ts(pick(ITEMS)), WORDS);
    attribute(TokenStream::new(), t);
}
pub fn h_item_deep() {
    let t = mutate(mutate(ts(pick(&ITEMS[1..])), &["pin"]), &[]);
    attribute(ts("project = P, project_replace = Q"), t);
}
/// One edit of what the derive is given: users can name the derive and its helper attribute themselves.
pub fn h_derive() {
    let (args, item) = pick(&[("project = P, !Unpin", "struct S<T> { #[pin] a: T, b: u8 }"), ("PinnedDrop, project_ref = R", "pub enum E { A(#[pin] u8), B { x: Self } }"), ("UnsafeUnpin, project_replace", "struct S(#[pin] u8);")]);
    let o = ppi::__entry::attribute(ts(args), ts(item));
    let i = match strip_derive(&o) {
        Some(i) => i,
        None => return,
    };
    let i = mutate(i, &["pin", "__private", "project", "PinnedDrop", "struct", "Self", "where"]);
    tell_tokens("derive-item", &i);
    let g = ppi::__entry::derive(i);
    reach(1);
    if has_error(&g) {
        reach(2);
        return;
    }
    reach(3);
    check(parses(&g), 2);
}
/// Any item of up to n tokens, and any derive input.
fn short(n: usize) {
    let n = choice(n + 1);
    let mut a = TokenStream::new();
    for _ in 0..n {
        a.extend(tok(&["struct", "enum", "S", "pub", "unsafe", "union"]));
    }
    if flag() {
        a.extend(ts("{ a: u8 }"));
    }
    match choice(3) {
        0 => {
            let e = expand(TokenStream::new(), a);
            reach(1);
            check(e.rejected || word(&e.attr, &["struct", "enum"]), 1);
        }
        1 => {
            tell_tokens("derive-item", &a);
            let g = ppi::__entry::derive(a);
            reach(1);
            check(has_error(&g) || parses(&g), 2);
        }
        _ => {
            let (o, r) = expand_drop(TokenStream::new(), a);
            reach(1);
            check(r || word(&o, &["impl"]), 1);
        }
    }
}
pub fn h_short() {
    short(2)
}
pub fn h_short_deep() {
    short(3)
}
const IMPLS: &[&str] = &[
    "impl<'a, T: 'a> PinnedDrop for m::S<'a, T> where T: Copy { #[inline] fn drop(mut self: Pin<&mut Self>) { let x = Self::f::<T>(&*self, m!(self, Self::X { a: 1 })); if let Self { a, .. } = *self { } } }",
    "impl PinnedDrop for S { fn drop(self: ::core::pin::Pin<&mut Self>) -> () { vec![self]; macro_rules! k { ($Self:ty) => { Self } } k!(Self::A { }) } }",
    "impl<T> PinnedDrop for (S<T>) { fn drop(self: Pin<&mut Self>) { Self::<T>::g(|_: Self| <Self as Tr<Self>>::N); const { Self }; match *self { Self(..) => (), Self::<T> { ref a } => () } } }",
];
/// One edit of a pinned destructor.
pub fn h_drop() {
    let (a, t) = match choice(2) {
        0 => (tok(&["x"]), ts(IMPLS[1])),
        _ => (TokenStream::new(), mutate(ts(pick(IMPLS)), &["Self", "self", "fn", "unsafe", "drop"])),
    };
    let (o, r) = expand_drop(a, t);
    reach(1);
    if r {
        reach(2);
        return;
    }
    reach(3);
    check(word(&o, &["impl"]), 1);
    check(parses(&o), 2);
}
/// `Self` and `self` next to anything inside macro arguments of a destructor.
fn macro_args(n: usize) {
    let n = choice(n + 1);
    let mut a = TokenStream::new();
    for _ in 0..n {
        a.extend(match choice(3) {
            0 => ts(pick(&["Self", "self", "::", ":"])),
            1 => sym_punct().into(),
            _ => tok(&["fn"]),
        });
    }
    let t = subst(ts(pick(&["impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) { m!(Q0); } }", "impl<T> PinnedDrop for S<T> { fn drop(self: Pin<&mut Self>) { m!({ Q0 } x); } }"])), &[a]);
    let (o, r) = expand_drop(TokenStream::new(), t);
    reach(1);
    check(!r, 3);
    check(parses(&o), 2);
}
pub fn h_macro() {
    macro_args(2)
}
pub fn h_macro_deep() {
    macro_args(3)
}
