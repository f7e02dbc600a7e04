use crate::sup::*;

fn verdict(args: &str, item: TokenStream, valid: bool) {
    let e = expand(ts(args), item);
    tell("valid", &valid);
    reach(1);
    if valid {
        reach(2);
        check(!e.rejected, 1);
    } else {
        reach(3);
        check(e.rejected, 2);
    }
}

const FIELD: &[(&str, bool)] = &[
    ("", true),
    ("#[pin]", true),
    ("#[doc = \"d\"] #[pin]", true),
    ("#[pin] #[doc = \"d\"]", true),
    ("#[pin] #[pin]", false),
    ("#[r#pin]", true),
    ("#[r#pin] #[pin]", false),
    ("#[r#pin()]", false),
    ("#[pin] #[doc = \"d\"] #[pin]", false),
    ("#[pin()]", false),
    ("#[pin(x)]", false),
    ("#[pin(__private())]", false),
    ("#[pin = \"x\"]", false),
    ("#[pin {}]", false),
    ("#[pin []]", false),
    ("#[pin] #[pin(x)]", false),
    ("#[doc(hidden)]", true),
];

/// Structs of every style with up to three fields.
pub fn h_struct() {
    let style = choice(3);
    let n = if style == 0 { 0 } else { choice(4) };
    let mut valid = n > 0;
    let mut body = TokenStream::new();
    for i in 0..n {
        let (a, ok) = if i < 2 { pick(FIELD) } else { pick(&FIELD[..6]) };
        valid &= ok;
        body.extend(ts(a));
        if style == 2 {
            body.extend(ts(["a :", "b :", "c :"][i]));
        }
        body.extend(ts(["u8", "pub_t", "[u8; 2]"][i].replace("pub_t", "(u8, u8)").as_str()));
        if i + 1 < n || flag() {
            body.extend(ts(","));
        }
    }
    let item = match style {
        0 => ts("struct S;"),
        1 => subst(ts("struct S(Q0);"), &[body]),
        _ => subst(ts("struct S { Q0 }"), &[body]),
    };
    verdict("", item, valid);
}

const VARIANT: &[(&str, bool, bool)] = &[
    // tokens, well placed, has a field
    ("Q0", true, false),
    ("Q0()", true, false),
    ("Q0 {}", true, false),
    ("Q0(u8)", true, true),
    ("Q0 { a: u8 }", true, true),
    ("Q0(#[pin] u8, u8)", true, true),
    ("#[doc = \"d\"] Q0 { #[pin] a: u8, b: u8 }", true, true),
    ("Q0 = Q1", false, false),
    ("Q0(u8) = Q1", false, true),
    ("Q0 { a: u8 } = Q1", false, true),
    ("#[pin] Q0(u8)", false, true),
    ("#[pin] Q0", false, false),
    ("#[doc = \"d\"] #[pin] Q0 { a: u8 }", false, true),
    ("Q0(#[pin] #[pin] u8)", false, true),
    ("Q0 { a: u8, #[pin(x)] b: u8 }", false, true),
    ("#[pin(x)] Q0(u8)", false, true),
];
/// Enums with up to three variants.
pub fn h_enum() {
    let n = choice(4);
    let (mut ok, mut field) = (n > 0, false);
    let mut body = TokenStream::new();
    for i in 0..n {
        let (t, o, f) = pick(VARIANT);
        ok &= o;
        field |= f;
        body.extend(subst(ts(t), &[ts(["A", "B", "C"][i]), ts(["10", "20", "30"][i])]));
        if i + 1 < n || i == 1 {
            body.extend(ts(","));
        }
    }
    let item = if n == 0 { ts("enum E {}") } else { subst(ts("#[repr(u8)] enum E { Q0 }"), &[body]) };
    verdict("project = P, project_ref = R", item, ok & field);
}

/// Any attribute name of three or eleven characters on the item, a variant or a field, also written raw.
pub fn h_attr_name() {
    let len = if flag() { 3 } else { 11 };
    let name = sym_str(len);
    assume(!keyword(&name));
    let n = tid(if flag() { raw(&name) } else { id(&name) });
    let is_pin = eq(&name, "pin");
    let is_pp = eq(&name, "pin_project");
    let with = choice(3);
    let a = match with {
        0 => subst(ts("#[Q0]"), &[n]),
        1 => subst(ts("#[Q0(x)]"), &[n]),
        _ => subst(ts("#[Q0 = \"x\"]"), &[n]),
    };
    let (item, valid) = match choice(5) {
        0 => (subst(ts("Q0 struct S { a: u8 }"), &[a]), !is_pin & !is_pp),
        1 => (subst(ts("#[doc = \"x\"] Q0 #[repr(C)] pub struct S { a: u8 }"), &[a]), !is_pin & !is_pp),
        2 => (subst(ts("enum S { Q0 A(u8), B }"), &[a]), !is_pin),
        3 => (subst(ts("enum S { B, Q0 A(u8) }"), &[a]), !is_pin),
        _ => (subst(ts("struct S { b: u8, Q0 a: u8 }"), &[a]), !is_pin | (with == 0)),
    };
    verdict("", item, valid);
}

const HINT: &[(&str, bool)] = &[
    ("C", true),
    ("packed", false),
    ("packed(1)", false),
    ("packed(2)", false),
    ("packed = \"1\"", false),
    ("align(8)", true),
    ("Q0", true),
    ("transparent", true),
    ("Rust", true),
    ("r#packed", false),
    ("r#packed(2)", false),
    ("r#align(2)", true),
];
/// Representation hints in any order, over one or two attributes.
pub fn h_repr() {
    let is_enum = flag();
    let sym = sym_str(6);
    assume(!keyword(&sym));
    let q = [tid(if flag() { raw(&sym) } else { id(&sym) })];
    let mut valid = true;
    let mut attrs = TokenStream::new();
    let mut hint = |k: usize| {
        let (h, ok) = pick(&HINT[..k]);
        let mut o = ok;
        if eq(h, "Q0") {
            o = !eq(&sym, "packed");
        }
        valid &= o;
        subst(ts(h), &q)
    };
    match choice(8) {
        0 => attrs.extend(subst(ts("#[repr(Q0)]"), &[hint(12)])),
        1 => attrs.extend(subst(ts("#[repr(Q0,)]"), &[hint(12)])),
        6 => attrs.extend(subst(ts("#[r#repr(Q0)]"), &[hint(12)])),
        7 => attrs.extend(subst(ts("#[r#repr(C)] #[r#repr(align(4), Q0)]"), &[hint(12)])),
        2 => attrs.extend(subst(ts("#[repr(Q0, Q1)]"), &[hint(8), hint(8)])),
        3 => attrs.extend(subst(ts("#[repr(Q0)] #[doc = \"x\"] #[repr(Q1)]"), &[hint(8), hint(8)])),
        4 => attrs.extend(subst(ts("#[repr(Q0, Q1, Q2)]"), &[hint(7), hint(7), hint(7)])),
        _ => attrs.extend(subst(ts("#[repr()] #[repr(Q0)]"), &[hint(9)])),
    }
    let item = if is_enum {
        subst(ts("Q0 enum S { A { #[pin] a: u8 }, B }"), &[attrs])
    } else {
        subst(ts("Q0 struct S { #[pin] a: u8 }"), &[attrs])
    };
    verdict("", item, valid);
}

/// A rejected attribute anywhere among up to six.
pub fn h_attr_place() {
    let is_enum = flag();
    let n = 1 + choice(6);
    let at = choice(n);
    let bad = pick(&["#[repr(packed)]", "#[repr(C, packed(2))]", "#[repr(r#packed)]", "#[r#repr(packed)]", "#[pin]", "#[r#pin]", "#[pin_project]", "#[r#pin_project]"]);
    let mut attrs = TokenStream::new();
    for i in 0..n {
        attrs.extend(ts(if i == at { bad } else { ["#[doc = \"x\"]", "#[allow(unused)]", "#[repr(C)]", "#[must_use]", "#[derive(Debug)]", "#[cfg(all())]"][(i + n) % 6] }));
    }
    let item = if is_enum {
        subst(ts("Q0 enum S { A { #[pin] a: u8 }, B }"), &[attrs])
    } else {
        subst(ts("Q0 struct S { #[pin] a: u8 }"), &[attrs])
    };
    verdict("", item, false);
}
/// A rejected attribute or variant at the end of a long declaration.
pub fn h_long() {
    let n = 1 + choice(16);
    let what = choice(6);
    let valid = what == 0;
    let mut b = String::new();
    for i in 0..n {
        if i > 0 {
            b.push(',');
        }
        let last = i + 1 == n;
        match (what, last) {
            (1, true) => b.push_str("#[pin] #[doc = \"x\"] #[pin] f: u8"),
            (2, true) => b.push_str("#[doc = \"x\"] #[doc = \"y\"] #[allow(unused)] #[pin(x)] f: u8"),
            (3, true) => b.push_str("#[pin] V(u8)"),
            (4, true) => b.push_str("V(u8) = 3"),
            (5, true) => b.push_str("V(u8, #[pin] #[pin] u8)"),
            (1, _) | (2, _) => b.push_str(&format!("#[pin] f{}: u8", i)),
            (0, true) => b.push_str("#[pin] f: u8"),
            (0, _) => b.push_str(&format!("f{}: u8", i)),
            (_, _) => b.push_str(&format!("W{}(#[pin] u8)", i)),
        }
    }
    let item = ts(&if what < 3 { format!("struct S {{ {} }}", b) } else { format!("#[repr(u8)] enum S {{ {} }}", b) });
    verdict("", item, valid);
}
/// Items of every other kind.
pub fn h_kind() {
    const K: &[&str] = &[
        "fn f() {}",
        "async fn f() {}",
        "unsafe fn f() {}",
        "const fn f() {}",
        "extern \"C\" fn f() {}",
        "union U { #[pin] a: u8, b: u8 }",
        "union U { a: u8 }",
        "trait T {}",
        "unsafe trait T {}",
        "mod m {}",
        "mod m { struct S { a: u8 } }",
        "type A = u8;",
        "const A: u8 = 1;",
        "static A: u8 = 1;",
        "static mut A: u8 = 1;",
        "impl X {}",
        "unsafe impl Send for X {}",
        "use core::mem;",
        "extern crate core;",
        "macro_rules! m { () => {} }",
        "extern \"C\" {}",
        "trait S = Copy;",
        "m! {}",
        "struct! {}",
    ];
    let k = pick(K);
    let vis = pick(&["", "pub", "pub(crate)", "pub(in crate)", "#[doc = \"d\"]", "#[doc = \"d\"] pub"]);
    let args = pick(&["", "project = P", "!Unpin"]);
    tell("before", &"struct X; macro_rules! m { () => {} }");
    let mut t = ts(vis);
    t.extend(ts(k));
    verdict(args, t, false);
}

const GENERICS: &[(&str, &str)] = &[
    ("", ""),
    ("<T>", ""),
    ("<'a, T: 'a + ?Sized, const N: usize>", ""),
    ("<T: Clone = u8>", "where T: Copy, u8: Copy,"),
    ("<'a, 'b: 'a, T>", "where T: for<'c> Fn(&'c u8) -> &'c u8 + 'a"),
    ("<#[cfg(all())] T, U = T>", "where"),
    ("<const N: usize = 3>", "where [u8; N]: Sized"),
];
const TYPE: &[&str] = &[
    "u8",
    "Option<Box<Self>>",
    "core::marker::PhantomData<fn() -> u8>",
    "&'static mut [u8; 3]",
    "Box<dyn for<'x> Fn(&'x u8) + Send>",
    "(u8, (u8,), ())",
    "<u8 as core::ops::Add<u8>>::Output",
    "*const u8",
    "[core::pin::Pin<Box<u8>>; { 1 + 2 }]",
    "for<'q> unsafe extern \"C\" fn(&'q u8, ...) -> !",
];
const VIS: &[&str] = &["", "pub", "pub(crate)", "pub(in crate)", "pub(self)", "pub(in self)"];
/// Whatever the generics, types, visibilities and attributes: accepted.
fn accept(g: (&str, &str), t1: &str, t2: &str, vis: &str, fv: &str, attr: &str, p: &str) {
    let q = [ts(attr), ts(vis), ts(g.0), ts(g.1), ts(p), ts(fv), ts(t1), ts(t2)];
    let (item, args) = match choice(3) {
        0 => (subst(ts("Q0 Q1 struct S Q2 Q3 { Q5 a: Q6, Q4 Q5 b: Q7 }"), &q), "project_replace"),
        1 => (subst(ts("Q0 Q1 struct S Q2 (Q4 Q5 Q6, Q5 Q7) Q3;"), &q), "PinnedDrop, project = P"),
        _ => (subst(ts("Q0 Q1 enum S Q2 Q3 { A(Q6, Q4 Q7), B, C { Q4 x: Q6 } }"), &q), "!Unpin, project = P, project_ref = R, project_replace = O"),
    };
    tell("valid", &true);
    tell("sketch", &"");
    let e = expand(ts(args), item);
    reach(1);
    check(!e.rejected, 3);
}
pub fn h_accept_types() {
    accept(pick(GENERICS), pick(TYPE), "u8", "", "", "", pick(&["", "#[pin]"]));
}
pub fn h_accept_vis() {
    accept(GENERICS[0], "u8", pick(TYPE), pick(VIS), pick(&VIS[..5]), pick(&["", "#[derive(Debug)] #[allow(dead_code)]"]), "#[pin]");
}

fn named(name: TokenStream) -> (TokenStream, &'static str) {
    let q = [name];
    match choice(3) {
        0 => (subst(ts("struct S { #[pin] Q0: u8, #[pin] zzz: u16 }"), &q), "project_replace"),
        1 => (subst(ts("struct S { zzz: u8, Q0: u16, #[pin] www: u32 }"), &q), "project_replace"),
        _ => (subst(ts("enum S { A { #[pin] Q0: u8, #[pin] zzz: u16, vvv: u32 }, B }"), &q), "project = P, project_ref = R, project_replace = O"),
    }
}
/// Field names of 1 to 13 characters, whatever they are, are accepted.
pub fn h_field_name() {
    let name = sym_str(choice(13) + 1);
    assume(!keyword(&name) & !eq(&name, "zzz") & !eq(&name, "www") & !eq(&name, "vvv"));
    let (item, args) = named(tid(id(&name)));
    tell("valid", &true);
    let e = expand(ts(args), item);
    reach(1);
    check(!e.rejected, 1);
}
/// A field name that the generated code also binds; whether that is a clash is for rustc to say.
pub fn h_field_clash() {
    let (item, args) = named(ts("uuu"));
    let e = ppi::__entry::derive(strip_derive(&ppi::__entry::attribute(ts(args), item.clone())).unwrap_or_default());
    let mut names = vec![];
    collect(&e, &mut names);
    let name = sym_str(choice(13) + 1);
    assume(!keyword(&name) & !eq(&name, "zzz") & !eq(&name, "www") & !eq(&name, "vvv") & !eq(&name, "uuu"));
    tell("valid", &true);
    tell("args", &args);
    tell("item", &rename(item, &name));
    reach(1);
    let mut i = 0;
    for b in names {
        check(!eq(&b, &name), 100 + i);
        i += 1;
    }
}
fn rename(t: TokenStream, to: &str) -> TokenStream {
    t.into_iter()
        .map(|tt| match tt {
            TokenTree::Ident(i) if i == "uuu" => TokenTree::Ident(id(to)),
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), rename(g.stream(), to))),
            o => o,
        })
        .collect()
}
fn collect(t: &TokenStream, out: &mut Vec<String>) {
    let v: Vec<TokenTree> = t.clone().into_iter().collect();
    for i in 0..v.len() {
        if let TokenTree::Group(g) = &v[i] {
            collect(&g.stream(), out);
        }
        if let TokenTree::Ident(x) = &v[i] {
            if *x == "let" {
                let mut j = i + 1;
                if let Some(TokenTree::Ident(m)) = v.get(j) {
                    if *m == "mut" {
                        j += 1;
                    }
                }
                if let (Some(TokenTree::Ident(n)), true) = (v.get(j), is_punct(v.get(j + 1), '=') || is_punct(v.get(j + 1), ':')) {
                    let s = n.to_string();
                    if !out.contains(&s) {
                        out.push(s);
                    }
                }
            } else if i + 1 < v.len() && is_punct(v.get(i + 1), ':') && !is_punct(v.get(i + 2), ':') && x.to_string().starts_with("__") {
                let s = x.to_string();
                if !out.contains(&s) {
                    out.push(s);
                }
            }
        }
    }
}
