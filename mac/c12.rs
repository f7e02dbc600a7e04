use crate::sup::*;

const ITEM: &str = "#[pin_project(PinnedDrop)] struct S { #[pin] a: u8 } #[pin_project(PinnedDrop)] struct G<T> { #[pin] a: T } pub mod m { #[pin_project::pin_project(PinnedDrop)] pub struct S { #[pin] a: u8 } } use core::pin; pub trait Tr {} pub struct D; macro_rules! mm { () => {} } trait Other {} \
    #[pinned_drop] impl<T> PinnedDrop for G<T> { fn drop(self: Pin<&mut Self>) {} } #[pinned_drop] impl PinnedDrop for m::S { fn drop(self: Pin<&mut Self>) {} } #[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) {} }";
/// The companions without the impl for the type in question.
fn before(of: &str, more: &str) {
    let mut s = ITEM.to_string();
    let i = match of {
        "G" => "#[pinned_drop] impl<T> PinnedDrop for G<T> { fn drop(self: Pin<&mut Self>) {} }",
        "m" => "#[pinned_drop] impl PinnedDrop for m::S { fn drop(self: Pin<&mut Self>) {} }",
        "S" => "#[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) {} }",
        _ => "",
    };
    if !i.is_empty() {
        s = s.replace(i, "");
    }
    s.push_str(more);
    tell("before", &s);
}
fn verdict(args: TokenStream, item: TokenStream, valid: bool) -> TokenStream {
    let (o, rejected) = expand_drop(args, item);
    tell("valid", &valid);
    tell("sketch", &"");
    reach(1);
    if valid {
        reach(2);
        check(!rejected, 1);
    } else {
        reach(3);
        check(rejected, 2);
    }
    o
}
const GOOD: &str = "fn drop(self: Pin<&mut Self>) {}";

/// The impl: trait, unsafety, self type, attributes, items.
pub fn h_impl() {
    let (tr, t_ok) = pick(&[
        ("PinnedDrop for", true),
        ("", false),
        ("pin_project::PinnedDrop for", false),
        ("PinnedDrop<u8> for", false),
        ("Drop for", false),
        ("Other for", false),
        ("pinned_drop for", false),
        ("UnsafeUnpin for", false),
    ]);
    let (uns, u_ok) = pick(&[("", true), ("unsafe", false)]);
    let (ty, of, ty_ok) = pick(&[
        ("S", "S", true),
        ("<T> G<T>", "G", true),
        ("m::S", "m", true),
        ("self::S", "S", true),
        ("crate::S", "S", true),
        ("&S", "", false),
        ("&mut S", "", false),
        ("(S,)", "", false),
        ("[S]", "", false),
        ("dyn Tr", "", false),
        ("*const S", "", false),
        ("fn(S)", "", false),
        ("()", "", false),
        ("!", "", false),
    ]);
    let (attr, a_ok) = pick(&[("", true), ("#[doc = \"d\"]", true), ("#[pinned_drop]", false), ("#[doc = \"d\"] #[pinned_drop]", false)]);
    let (items, i_ok) = if flag() { (GOOD, true) } else {
        pick(&[
            ("", false),
            ("fn drop(self: Pin<&mut Self>) {} fn drop(self: Pin<&mut Self>) {}", false),
            ("const A: u8 = 1; fn drop(self: Pin<&mut Self>) {}", false),
            ("fn drop(self: Pin<&mut Self>) {} const A: u8 = 1;", false),
            ("type A = u8; fn drop(self: Pin<&mut Self>) {}", false),
            ("fn drop(self: Pin<&mut Self>) {} type A = u8;", false),
            ("mm!(); fn drop(self: Pin<&mut Self>) {}", false),
            ("fn drop(self: Pin<&mut Self>) {} mm!();", false),
            ("fn drop(self: Pin<&mut Self>) {} mm! {}", false),
            ("mm!();", false),
            ("fn other(self: Pin<&mut Self>) {}", false),
            ("fn drop(self: Pin<&mut Self>) {} fn other(self: Pin<&mut Self>) {}", false),
            ("fn other() {} fn drop(self: Pin<&mut Self>) {}", false),
            ("const A: u8 = 1;", false),
            ("type A = u8;", false),
            ("fn drop(self: Pin<&mut Self>) {} fn drop(self: Pin<&mut Self>) {} fn drop(self: Pin<&mut Self>) {}", false),
        ])
    };
    before(of, "");
    let mut t = ts(attr);
    t.extend(ts(uns));
    t.extend(ts("impl"));
    let ty = match ty.strip_prefix("<T> ") {
        Some(r) => {
            t.extend(ts("<T>"));
            r
        }
        None => ty,
    };
    t.extend(ts(tr));
    t.extend(ts(ty));
    t.extend(subst(ts("{ Q0 }"), &[ts(items)]));
    verdict(TokenStream::new(), t, t_ok & u_ok & ty_ok & a_ok & i_ok);
}

/// The method: name, qualifiers, parameters, return type.
pub fn h_sig() {
    let (name, n_ok) = match choice(3) {
        0 => (id("drop"), true),
        1 => {
            let s = sym_str(4);
            assume(!keyword(&s));
            (id(&s), eq(&s, "drop"))
        }
        _ => (raw("drop"), true),
    };
    assume(name != "r#drop");
    let (q, q_ok) = pick(&[("", true), ("unsafe", false)]);
    let pin = sym_str(3);
    assume(!keyword(&pin));
    let slf = sym_str(4);
    assume(!keyword(&slf) | eq(&slf, "Self"));
    let (params, p_ok) = pick(&[
        ("self: Pin<&mut Self>", true),
        ("mut self: Pin<&mut Self>", true),
        ("self: Pin<&mut Self>,", true),
        ("self: ::core::pin::Pin<&mut Self>", true),
        ("self: pin::Pin<&mut Self>", true),
        ("self: Q0<&mut Self>", true),
        ("self: ::core::pin::Q0<&mut Self>", true),
        ("self: al::Q0<&mut Self>", true),
        ("self: al::am::an::Q0<&mut Self>", true),
        ("self: crate::al::am::Q0<&mut Self>", true),
        ("self: Pin<&mut Q1>", true),
        ("", false),
        ("self", false),
        ("mut self", false),
        ("&self", false),
        ("&mut self", false),
        ("self: Self", false),
        ("self: &mut Self", false),
        ("self: Pin<&Self>", false),
        ("self: Pin<Self>", false),
        ("self: Pin<Box<Self>>", false),
        ("self: Box<Self>", false),
        ("self: Pin<&mut S>", false),
        ("self: Pin<&mut &mut Self>", false),
        ("self: Pin<&mut [Self]>", false),
        ("self: Pin<*mut Self>", false),
        ("self: Pin<&mut self::Self>", false),
        ("self: Pin<&mut Self::A>", false),
        ("self: Pin<&mut Self, u8>", false),
        ("self: Pin", false),
        ("self: Pin<>", false),
        ("self: Pin<'static>", false),
        ("self: Pin<3>", false),
        ("self: Pin(&mut Self)", false),
        ("self: <u8 as Tr>::Pin<&mut Self>", false),
        ("self: &Pin<&mut Self>", false),
        ("self: (Pin<&mut Self>,)", false),
        ("self: Pin<&mut Self>, x: u8", false),
        ("self: Pin<&mut Self>, _: ()", false),
        ("x: u8", false),
        ("this: Pin<&mut Self>", false),
        ("_: Pin<&mut Self>", false),
        ("x: u8, y: u8", false),
        ("this: Pin<&mut Self>, x: u8", false),
    ]);
    let mut p_ok = p_ok;
    if params.contains("Q0") {
        p_ok = eq(&pin, "Pin");
    }
    if params.contains("Q1") {
        p_ok = eq(&slf, "Self");
    }
    let (ret, r_ok) = pick(&[("", true), ("-> ()", true), ("-> u8", false), ("-> Self", false), ("-> ((),)", false), ("-> impl Sized", false), ("-> !", false)]);
    // A type of that name exists and is the same as `Pin` or `Self`.
    let mut alias = String::new();
    if params.contains("Q0") {
        let u = if eq(&pin, "Pin") { "pub use core::pin::Pin;".to_string() } else { format!("pub use core::pin::Pin as {};", pin) };
        alias = format!("pub mod al {{ {u} pub mod am {{ {u} pub mod an {{ {u} }} }} }} {}", if eq(&pin, "Pin") { "" } else { &u });
    }
    if params.contains("Q1") && !eq(&slf, "Self") {
        alias = format!("type {} = S;", slf);
    }
    before("S", &alias);
    let q = [ts(q), tid(name), subst(ts(params), &[tid(id(&pin)), tid(id(&slf))]), ts(ret)];
    let t = subst(ts("impl PinnedDrop for S { Q0 fn Q1(Q2) Q3 { loop {} } }"), &q);
    verdict(TokenStream::new(), t, n_ok & q_ok & p_ok & r_ok);
}

/// The trait's name and the attribute's argument, symbolic.
pub fn h_word() {
    let tr = sym_str(10);
    assume(!keyword(&tr));
    let (args, a_ok) = match choice(4) {
        0 => (TokenStream::new(), true),
        1 => {
            let w = sym_str(choice(4) + 1);
            assume(!eq(&w, "_") & !keyword(&w));
            (tid(id(&w)), false)
        }
        _ => (ts(pick(&["()", ",", "PinnedDrop", "1", "= x", "unsafe"])), false),
    };
    before("S", "");
    let t = subst(ts("impl Q0 for S { fn drop(self: Pin<&mut Self>) {} }"), &[tid(id(&tr))]);
    verdict(args, t, a_ok & eq(&tr, "PinnedDrop"));
}

/// Whether `zz_mark` is in an unsafe block or function, if it is there at all.
fn context(t: TokenStream, now: bool) -> Option<bool> {
    let mut next = now;
    let mut was_unsafe = false;
    for x in t {
        match x {
            TokenTree::Ident(i) => {
                if i == "zz_mark" {
                    return Some(now);
                }
                if i == "unsafe" {
                    was_unsafe = true;
                    next = true;
                } else if i == "fn" {
                    next = was_unsafe;
                    was_unsafe = false;
                } else if i == "impl" {
                    next = now;
                    was_unsafe = false;
                }
            }
            TokenTree::Group(g) => {
                let brace = g.delimiter() == Delimiter::Brace;
                let r = context(g.stream(), if brace { next } else { now });
                if r.is_some() {
                    return r;
                }
                if brace {
                    next = now;
                    was_unsafe = false;
                }
            }
            TokenTree::Punct(p) if p.as_char() == ';' => {
                next = now;
                was_unsafe = false;
            }
            _ => {}
        }
    }
    None
}

/// What is generated: one unsafe method, and no way to name the user's function from its own body.
pub fn h_unsafe() {
    let (head, of) = pick(&[("impl PinnedDrop for S", "S"), ("impl<T> PinnedDrop for G<T>", "G"), ("impl PinnedDrop for m::S", "m")]);
    let slf = pick(&["self", "mut self"]);
    let body = match choice(2) {
        0 => pick(&["", "let _ = 1;", "fn f() {} f();", "drop(self);", "return;", "struct X; impl X { fn drop(self) {} } X.drop()", "use core::mem; mem::drop(self); mem::drop(1)", "if true { return; } loop {}", "()"]).to_string(),
        _ => {
            let mut b = String::new();
            for _ in 0..choice(10) + 1 {
                b.push_str("();");
            }
            b
        }
    };
    let body = &*body;
    let ret = pick(&["", "-> ()"]);
    let mk = |body: TokenStream| {
        let mut t = ts(head);
        t.extend(subst(ts("{ fn drop(Q0: Pin<&mut Self>) Q1 { Q2 } }"), &[ts(slf), ts(ret), body]));
        t
    };
    before(of, "");
    {
        // the body must not become part of an unsafe context
        let (o, rejected) = expand_drop(TokenStream::new(), mk(ts(&format!("{} zz_mark();", body))));
        let found = context(o, false);
        check(rejected | found.is_some(), 7);
        if found == Some(true) {
            tell("impl", &mk(ts(&format!("{} evil_call();", body))));
            tell("evil", &"unsafe fn evil_call() {}");
        }
        check(found != Some(true), 6);
    }
    let (o, rejected) = expand_drop(TokenStream::new(), mk(ts(body)));
    check(!rejected, 1);
    let f = syn::parse2::<syn::File>(o.clone());
    let Ok(f) = f else { return };
    for it in &f.items {
        match it {
            syn::Item::Impl(i) => {
                for m in &i.items {
                    if let syn::ImplItem::Fn(m) = m {
                        if m.sig.unsafety.is_none() {
                            tell("evil", &"fn evil(x: Pin<&mut S>, y: Pin<&mut G<u8>>, z: Pin<&mut m::S>) { use pin_project::__private::PinnedDrop as Q; Q::drop(x); Q::drop(y); Q::drop(z); }");
                        }
                        check(m.sig.unsafety.is_some(), 3);
                        for s in &m.block.stmts {
                            if let syn::Stmt::Item(syn::Item::Fn(inner)) = s {
                                reach(4);
                                let n = inner.sig.ident.to_string();
                                let shadowed = inner.block.stmts.iter().any(|s| match s {
                                    syn::Stmt::Item(syn::Item::Fn(x)) => x.sig.ident == n,
                                    _ => false,
                                });
                                let len = syn::parse2::<syn::Block>(TokenTree::Group(Group::new(Delimiter::Brace, ts(body))).into()).map_or(0, |b| b.stmts.len());
                                if !shadowed && len > 0 {
                                    // as many statements, one of which is the call
                                    let mut b = String::new();
                                    for _ in 1..len {
                                        b.push_str("();");
                                    }
                                    tell("impl", &mk(ts(&format!("{}{}(self);", b, n))));
                                }
                                check(shadowed | (len == 0), 4);
                            }
                        }
                    }
                }
            }
            syn::Item::Fn(x) => {
                // a free function would be callable
                tell("evil", &format!("fn evil(x: Pin<&mut S>) {{ {}(x); }}", x.sig.ident));
                check(x.sig.unsafety.is_some(), 5);
            }
            _ => {}
        }
    }
    reach(1);
}
