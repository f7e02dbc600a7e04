// Support for harnesses that run the macros' own code on token streams with symbolic parts.
#![allow(dead_code)]
pub use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::str::FromStr;

extern "C" {
    fn sym_u8() -> u8;
    fn sym_bool() -> bool;
    fn sym_fork(n: u32) -> u32;
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, id: u32);
    fn sym_note(p: *const u8, n: u64);
    fn sym_reach(id: u32);
    fn sym_is_engine() -> bool;
}
pub fn flag() -> bool {
    unsafe { sym_bool() }
}
pub fn sym_byte() -> u8 {
    unsafe { sym_u8() }
}
pub fn choice(n: usize) -> usize {
    unsafe { sym_fork(n as u32) as usize }
}
pub fn pick<T: Copy>(xs: &[T]) -> T {
    xs[choice(xs.len())]
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
pub fn check(c: bool, id: u32) {
    unsafe { sym_assert(c, id) }
}
pub fn reach(id: u32) {
    unsafe { sym_reach(id) }
}
/// Delimiters that cannot be seen are shown as `__N [ ]`.
pub fn shown(t: &TokenStream) -> TokenStream {
    t.clone().into_iter().flat_map(|x| match x {
        TokenTree::Group(g) => {
            let s = shown(&g.stream());
            if g.delimiter() == Delimiter::None {
                cat(&[tid(id("__N")), TokenTree::Group(Group::new(Delimiter::Bracket, s)).into()])
            } else {
                TokenTree::Group(Group::new(g.delimiter(), s)).into()
            }
        }
        x => x.into(),
    }).collect()
}
pub fn tell_tokens(what: &str, t: &TokenStream) {
    if unsafe { !sym_is_engine() } {
        tell(what, &shown(t));
    }
}
/// In a native run only: what the input was, for the end-to-end replay.
pub fn tell(what: &str, t: &dyn std::fmt::Display) {
    if unsafe { !sym_is_engine() } {
        let s = format!("{}={}", what, t).replace('\n', " ");
        unsafe { sym_note(s.as_ptr(), s.len() as u64) }
    }
}

/// A symbolic ASCII identifier of the given length.
pub fn sym_str(len: usize) -> String {
    let mut v = Vec::with_capacity(len);
    for i in 0..len {
        let b = unsafe { sym_u8() };
        let alpha = (b.wrapping_sub(b'a') < 26) | (b.wrapping_sub(b'A') < 26) | (b == b'_');
        let digit = b.wrapping_sub(b'0') < 10;
        assume(alpha | (digit & (i > 0)));
        v.push(b);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}
pub fn raw(s: &str) -> Ident {
    Ident::new_raw(s, Span::call_site())
}
/// Equality without branching on the bytes.
pub fn eq(a: &str, b: &str) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let (a, b) = (a.as_bytes(), b.as_bytes());
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
/// Reserved words.
pub fn keyword(s: &str) -> bool {
    const K: &[&str] = &[
        "as", "do", "fn", "if", "in", "box", "dyn", "for", "let", "mod", "mut", "pub", "ref", "try", "use", "else", "enum", "impl", "loop", "move", "priv", "Self", "self", "true", "type", "async", "await", "break", "const", "crate", "false", "final", "macro", "match", "super", "trait", "where", "while", "yield", "extern", "return",
        "static", "struct", "typeof", "unsafe", "unsized", "virtual", "become", "abstract", "override", "continue", "_",
    ];
    let mut r = false;
    for k in K {
        r |= eq(s, k);
    }
    r
}
pub fn ts(s: &str) -> TokenStream {
    match TokenStream::from_str(s) {
        Ok(t) => t,
        Err(_) => {
            check(false, 999);
            TokenStream::new()
        }
    }
}
/// Replaces the identifiers Q0, Q1, ... by the given token streams.
pub fn subst(t: TokenStream, by: &[TokenStream]) -> TokenStream {
    let mut out = TokenStream::new();
    for tt in t {
        match tt {
            TokenTree::Ident(i) => {
                let s = i.to_string();
                let b = s.as_bytes();
                if b.len() == 2 && b[0] == b'Q' && b[1].wrapping_sub(b'0') < 10 {
                    out.extend(by[(b[1] - b'0') as usize].clone());
                } else {
                    out.extend(Some(TokenTree::Ident(i)));
                }
            }
            TokenTree::Group(g) => {
                out.extend(Some(TokenTree::Group(Group::new(g.delimiter(), subst(g.stream(), by)))));
            }
            o => out.extend(Some(o)),
        }
    }
    out
}
pub fn tid(i: Ident) -> TokenStream {
    TokenTree::Ident(i).into()
}
/// 'name
pub fn lifetime(name: &str) -> TokenStream {
    let mut t = TokenStream::new();
    t.extend(Some(TokenTree::Punct(Punct::new('\'', Spacing::Joint))));
    t.extend(Some(TokenTree::Ident(id(name))));
    t
}
pub fn cat(parts: &[TokenStream]) -> TokenStream {
    let mut t = TokenStream::new();
    for p in parts {
        t.extend(p.clone());
    }
    t
}
/// `compile_error` followed by `!`
pub fn has_error(t: &TokenStream) -> bool {
    let mut prev = false;
    for tt in t.clone() {
        match tt {
            TokenTree::Ident(i) => prev = i == "compile_error",
            TokenTree::Punct(p) => {
                if prev && p.as_char() == '!' {
                    return true;
                }
                prev = false;
            }
            TokenTree::Group(g) => {
                prev = false;
                if has_error(&g.stream()) {
                    return true;
                }
            }
            TokenTree::Literal(_) => prev = false,
        }
    }
    false
}
/// Token-wise equality (spacing of punctuation disregarded except in multi-character operators it cannot change).
pub fn same(a: &TokenStream, b: &TokenStream) -> bool {
    let mut x = a.clone().into_iter();
    let mut y = b.clone().into_iter();
    loop {
        match (x.next(), y.next()) {
            (None, None) => return true,
            (Some(TokenTree::Ident(p)), Some(TokenTree::Ident(q))) => {
                if !eq(&p.to_string(), &q.to_string()) {
                    return false;
                }
            }
            (Some(TokenTree::Punct(p)), Some(TokenTree::Punct(q))) => {
                if p.as_char() != q.as_char() {
                    return false;
                }
            }
            (Some(TokenTree::Literal(p)), Some(TokenTree::Literal(q))) => {
                if !eq(&p.to_string(), &q.to_string()) {
                    return false;
                }
            }
            (Some(TokenTree::Group(p)), Some(TokenTree::Group(q))) => {
                if p.delimiter() != q.delimiter() || !same(&p.stream(), &q.stream()) {
                    return false;
                }
            }
            _ => return false,
        }
    }
}
fn mentions(t: &TokenStream, w: &str) -> bool {
    t.clone().into_iter().any(|tt| match tt {
        TokenTree::Ident(i) => i == w,
        TokenTree::Group(g) => mentions(&g.stream(), w),
        _ => false,
    })
}
pub fn is_punct(t: Option<&TokenTree>, c: char) -> bool {
    match t {
        Some(TokenTree::Punct(p)) => p.as_char() == c,
        _ => false,
    }
}
/// The name under which the derive is registered.
pub const DERIVE: &str = ppi::__entry::DERIVE_NAME;
/// Removes the `#[derive(..)]` that invokes the macro's derive; None if there is none.
pub fn strip_derive(t: &TokenStream) -> Option<TokenStream> {
    let v: Vec<TokenTree> = t.clone().into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    let mut found = false;
    while i < v.len() {
        if is_punct(v.get(i), '#') {
            if let Some(TokenTree::Group(g)) = v.get(i + 1) {
                let first = g.stream().into_iter().next();
                let der = match first {
                    Some(TokenTree::Ident(ref d)) => *d == "derive",
                    _ => false,
                };
                if der && mentions(&g.stream(), DERIVE) {
                    found = true;
                    i += 2;
                    continue;
                }
            }
        }
        out.extend(Some(v[i].clone()));
        i += 1;
    }
    if found {
        Some(out)
    } else {
        None
    }
}
/// In a native run only: the message of the first compile_error.
fn tell_error(t: &TokenStream) {
    fn find(t: &TokenStream) -> Option<String> {
        let v: Vec<TokenTree> = t.clone().into_iter().collect();
        for i in 0..v.len() {
            match &v[i] {
                TokenTree::Ident(x) if *x == "compile_error" => {
                    if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                        if let Some(TokenTree::Literal(l)) = g.stream().into_iter().next() {
                            return Some(l.to_string());
                        }
                    }
                }
                TokenTree::Group(g) => {
                    if let Some(s) = find(&g.stream()) {
                        return Some(s);
                    }
                }
                _ => {}
            }
        }
        None
    }
    if unsafe { !sym_is_engine() } {
        if let Some(s) = find(t) {
            tell("error", &s);
        }
    }
}
pub struct Exp {
    /// output of the attribute
    pub attr: TokenStream,
    /// output of the derive it invokes
    pub gen: TokenStream,
    pub rejected: bool,
}
pub fn expand(args: TokenStream, item: TokenStream) -> Exp {
    tell_tokens("args", &args);
    tell_tokens("item", &item);
    let attr = ppi::__entry::attribute(args, item);
    if has_error(&attr) {
        tell("rejected-by", &"attribute");
        tell_error(&attr);
        return Exp { attr, gen: TokenStream::new(), rejected: true };
    }
    match strip_derive(&attr) {
        None => Exp { attr, gen: TokenStream::new(), rejected: false },
        Some(s) => {
            let gen = ppi::__entry::derive(s);
            let rejected = has_error(&gen);
            if rejected {
                tell("rejected-by", &"derive");
        tell_error(&gen);
            }
            Exp { attr, gen, rejected }
        }
    }
}
pub fn expand_drop(args: TokenStream, item: TokenStream) -> (TokenStream, bool) {
    tell_tokens("drop-args", &args);
    tell_tokens("impl", &item);
    let o = ppi::__entry::pinned_drop(args, item);
    let r = has_error(&o);
    if r {
        tell("rejected-by", &"pinned_drop");
        tell_error(&o);
    }
    (o, r)
}
