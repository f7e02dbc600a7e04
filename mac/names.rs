use crate::sup::*;

// Does the expansion depend on a name? Each declaration is expanded with a symbolic name and with a fixed one, and the
// second expansion, renamed, must be the first.
const CANON: &str = "kzvq";

/// `s` with CANON replaced by `by`
fn renamed(s: &str, by: &str) -> String {
    match s.find(CANON) {
        None => s.to_string(),
        Some(at) => {
            let mut v: Vec<u8> = s.as_bytes()[..at].to_vec();
            v.extend_from_slice(by.as_bytes());
            v.extend_from_slice(renamed(&s[at + CANON.len()..], by).as_bytes());
            unsafe { String::from_utf8_unchecked(v) }
        }
    }
}
fn same_renamed(a: &TokenStream, b: &TokenStream, by: &str) -> bool {
    let mut x = a.clone().into_iter();
    let mut y = b.clone().into_iter();
    let mut ok = true;
    loop {
        match (x.next(), y.next()) {
            (None, None) => return ok,
            (Some(TokenTree::Ident(p)), Some(TokenTree::Ident(q))) => ok &= eq(&p.to_string(), &renamed(&q.to_string(), by)),
            (Some(TokenTree::Punct(p)), Some(TokenTree::Punct(q))) => {
                if p.as_char() != q.as_char() {
                    return false;
                }
            }
            (Some(TokenTree::Literal(p)), Some(TokenTree::Literal(q))) => ok &= eq(&p.to_string(), &renamed(&q.to_string(), by)),
            (Some(TokenTree::Group(p)), Some(TokenTree::Group(q))) => {
                if p.delimiter() != q.delimiter() {
                    return false;
                }
                ok &= same_renamed(&p.stream(), &q.stream(), by);
            }
            _ => return false,
        }
    }
}
fn is_raw_only(s: &str) -> bool {
    !(eq(s, "self") | eq(s, "Self") | eq(s, "super") | eq(s, "crate") | eq(s, "_"))
}
fn with(args: &str, item: &str, name: &Ident) -> Exp {
    let by = [tid(name.clone())];
    expand(subst(ts(args), &by), subst(ts(item), &by))
}
/// Q0 is the name.
fn compare(args: &str, item: &str, len: usize, rawid: bool) {
    let s = sym_str(len);
    tell("name", &s);
    tell("raw", &rawid);
    let (a, b) = if rawid {
        assume(is_raw_only(&s));
        (raw(&s), raw(CANON))
    } else {
        assume(!keyword(&s));
        (id(&s), id(CANON))
    };
    // names of the template itself are other names
    for w in ["zq0", "zq1", "Zq0", "Zq1", "Zm", "Zr", "Zo", "pin", "cfg", "cfg_attr", "repr", "pin_project", "derive", DERIVE, "project", "project_ref", "project_replace", "PinnedDrop", "UnsafeUnpin", "Unpin"] {
        assume(!eq(&s, w));
    }
    let x = with(args, item, &a);
    let y = with(args, item, &b);
    reach(1);
    check(x.rejected == y.rejected, 1);
    if !x.rejected && !y.rejected {
        reach(2);
        check(same_renamed(&x.attr, &y.attr, &s), 2);
        check(same_renamed(&x.gen, &y.gen, &s), 3);
    }
}
const ARGS: &[&str] = &["project = Zm, project_ref = Zr, project_replace = Zo", "PinnedDrop, project = Zm, project_ref = Zr", "UnsafeUnpin, project = Zm", "!Unpin, project_replace = Zo, project = Zm"];
fn run(k: usize, pos: &str, items: &[&str], max: usize, raws: bool) {
    tell("pos", &pos);
    let i = choice(items.len());
    tell("form", &i);
    let args = ARGS[k];
    let r = raws && choice(2) == 1;
    let len = 1 + choice(max);
    compare(args, items[i], len, r);
}
fn p_field(k: usize) {
    run(k, "field", &["struct Zq0 { #[pin] Q0: u8, zq1: u16 }", "struct Zq0 { zq1: u16, Q0: u8, #[pin] zq0: u32 }", "enum Zq0 { Zq1 { zq0: u16, #[pin] Q0: u8 } }", "enum Zq0 { Zq1 { Q0: u16, #[pin] zq0: u8 } }"], 10, true)
}
fn p_type(k: usize) {
    run(k, "type", &["struct Q0 { #[pin] zq0: u8, zq1: u16 }", "struct Q0<Zq0>(#[pin] Zq0, u8);", "enum Q0<Zq0> { Zq1(#[pin] Zq0, u8) }"], 10, true)
}
fn p_variant(k: usize) {
    run(k, "variant", &["enum Zq0 { Q0 { #[pin] zq0: u8, zq1: u16 } }", "enum Zq0 { Q0(u16, #[pin] u8), Zq1 }", "enum Zq0 { Zq1(#[pin] u8), Q0 }"], 10, true)
}
fn p_param(k: usize) {
    run(k, "param", &["struct Zq0<Q0> { #[pin] zq0: Q0, zq1: u16 }", "struct Zq0<'a, Q0: 'a>(&'a Q0, #[pin] Option<Q0>) where Q0: Tr;", "enum Zq0<Q0> { Zq1(Q0, #[pin] u8) }"], 10, true)
}
fn p_const(k: usize) {
    run(k, "const", &["struct Zq0<const Q0: usize> { #[pin] zq0: [u8; Q0], zq1: u16 }", "enum Zq0<Zq1, const Q0: usize> { Zq1(#[pin] [Zq1; Q0], u8) }"], 8, true)
}
/// The name of a field's type.
fn p_ftype(k: usize) {
    run(k, "ftype", &["struct Zq0 { #[pin] zq0: Q0, zq1: u16 }", "struct Zq0 { zq1: Q0, #[pin] zq0: u8 }", "struct Zq0(#[pin] u8, Q0);", "enum Zq0 { Zq1(#[pin] Q0, u8) }", "enum Zq0 { Zq1 { zq0: Q0, #[pin] zq1: u8 } }"], 14, true)
}
fn p_fwrap(k: usize) {
    run(k, "fwrap", &["struct Zq0<Zq1> { #[pin] zq0: Q0<Zq1>, zq1: u16 }", "struct Zq0<Zq1> { zq1: Q0<Zq1>, #[pin] zq0: u8 }", "struct Zq0<Zq1>(#[pin] u8, Q0<Zq1>);", "enum Zq0<Zq1> { Zq1(#[pin] Q0<Zq1>, u8) }", "enum Zq0<Zq1> { Zq1 { zq0: Q0<Zq1>, #[pin] zq1: u8 } }"], 14, true)
}
fn p_fpath(k: usize) {
    run(k, "fpath", &["struct Zq0 { #[pin] zq0: crate::rt::Q0, zq1: u16 }", "struct Zq0<Zq1> { zq1: crate::rt::Q0<Zq1>, #[pin] zq0: u8 }", "struct Zq0<Zq1> { zq1: u8, #[pin] zq0: crate::rt::Q0<Zq1> }", "struct Zq0 { #[pin] zq0: Q0::zq0, zq1: u16 }", "enum Zq0 { Zq1(#[pin] u8, crate::rt::Q0) }"], 14, false)
}
/// An attribute beside #[pin].
fn p_attr(k: usize) {
    run(k, "attr", &["struct Zq0 { #[pin] #[Q0] zq0: u8, zq1: u16 }", "struct Zq0 { #[Q0] zq1: u16, #[pin] zq0: u8 }", "struct Zq0(#[Q0(dead_code)] u8, #[Q0 = \"x\"] #[pin] u16);", "#[Q0] struct Zq0 { #[pin] zq0: u8, zq1: u16 }", "#[Q0(dead_code)] struct Zq0 { #[pin] zq0: u8, zq1: u16 }", "#[Q0 = \"x\"] enum Zq0 { #[Q0] Zq1(#[pin] u8, u16) }", "enum Zq0 { #[Q0(dead_code)] Zq1 { #[pin] zq0: u8, zq1: u16 } }", "enum Zq0 { Zq1 { #[pin] #[Q0(dead_code)] zq0: u8, #[Q0 = \"x\"] zq1: u16 } }"], 12, false)
}
/// Names of projection types.
fn p_proj(k: usize) {
    tell("pos", &"proj");
    let args = pick([
        &["project = Q0, project_ref = Zr, project_replace = Zo", "project_ref = Q0, project = Zm, project_replace = Zo", "project_replace = Q0, project = Zm, project_ref = Zr"][..],
        &["PinnedDrop, project = Q0, project_ref = Zr", "project_ref = Q0, project = Zm, PinnedDrop"],
        &["UnsafeUnpin, project = Q0, project_ref = Zr", "project_ref = Q0, UnsafeUnpin, project = Zm"],
        &["!Unpin, project = Q0, project_ref = Zr", "project_ref = Q0, !Unpin, project = Zm"],
    ][k]);
    let item = pick(&["struct Zq0 { #[pin] zq0: u8, zq1: u16 }", "enum Zq0<Zq1> { Zq1(#[pin] Zq1, u8) }"]);
    let len = 1 + choice(10);
    compare(args, item, len, choice(2) == 1);
}
// one harness for each position and argument list
pub fn h_field_0() {
    p_field(0)
}
pub fn h_type_0() {
    p_type(0)
}
pub fn h_variant_0() {
    p_variant(0)
}
pub fn h_param_0() {
    p_param(0)
}
pub fn h_const_0() {
    p_const(0)
}
pub fn h_ftype_0() {
    p_ftype(0)
}
pub fn h_fwrap_0() {
    p_fwrap(0)
}
pub fn h_fpath_0() {
    p_fpath(0)
}
pub fn h_attr_0() {
    p_attr(0)
}
pub fn h_proj_0() {
    p_proj(0)
}
pub fn h_field_1() {
    p_field(1)
}
pub fn h_type_1() {
    p_type(1)
}
pub fn h_variant_1() {
    p_variant(1)
}
pub fn h_param_1() {
    p_param(1)
}
pub fn h_const_1() {
    p_const(1)
}
pub fn h_ftype_1() {
    p_ftype(1)
}
pub fn h_fwrap_1() {
    p_fwrap(1)
}
pub fn h_fpath_1() {
    p_fpath(1)
}
pub fn h_attr_1() {
    p_attr(1)
}
pub fn h_proj_1() {
    p_proj(1)
}
pub fn h_field_2() {
    p_field(2)
}
pub fn h_type_2() {
    p_type(2)
}
pub fn h_variant_2() {
    p_variant(2)
}
pub fn h_param_2() {
    p_param(2)
}
pub fn h_const_2() {
    p_const(2)
}
pub fn h_ftype_2() {
    p_ftype(2)
}
pub fn h_fwrap_2() {
    p_fwrap(2)
}
pub fn h_fpath_2() {
    p_fpath(2)
}
pub fn h_attr_2() {
    p_attr(2)
}
pub fn h_proj_2() {
    p_proj(2)
}
pub fn h_field_3() {
    p_field(3)
}
pub fn h_type_3() {
    p_type(3)
}
pub fn h_variant_3() {
    p_variant(3)
}
pub fn h_param_3() {
    p_param(3)
}
pub fn h_const_3() {
    p_const(3)
}
pub fn h_ftype_3() {
    p_ftype(3)
}
pub fn h_fwrap_3() {
    p_fwrap(3)
}
pub fn h_fpath_3() {
    p_fpath(3)
}
pub fn h_attr_3() {
    p_attr(3)
}
pub fn h_proj_3() {
    p_proj(3)
}
