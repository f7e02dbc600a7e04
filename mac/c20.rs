use crate::sup::*;

fn own(t: &TokenStream, out: &mut Vec<String>) {
    for x in t.clone() {
        match x {
            TokenTree::Ident(i) => out.push(i.to_string()),
            TokenTree::Group(g) => own(&g.stream(), out),
            _ => {}
        }
    }
}
/// The identifiers that stand at the beginning of a path (or could), other than those of the input.
fn roots(t: &TokenStream, mine: &[String], out: &mut Vec<String>) {
    let v: Vec<TokenTree> = t.clone().into_iter().collect();
    for i in 0..v.len() {
        match &v[i] {
            TokenTree::Ident(x) => {
                let s = x.to_string();
                let after = |c: char| i > 0 && is_punct(v.get(i - 1), c);
                let path = after(':') && i > 1 && is_punct(v.get(i - 2), ':') && !(i > 2 && is_punct(v.get(i - 3), ':'));
                if path || after('.') || after('\'') || keyword(&s) || s.starts_with("__") {
                    continue;
                }
                let b = s.as_bytes();
                if b.len() > 1 && b[0] == b'_' && b[1].wrapping_sub(b'0') < 10 {
                    continue;
                }
                if !mine.contains(&s) && !out.contains(&s) {
                    out.push(s);
                }
            }
            TokenTree::Group(g) => {
                if i > 0 && is_punct(v.get(i - 1), '#') {
                    continue;
                }
                roots(&g.stream(), mine, out);
            }
            _ => {}
        }
    }
}
fn judge(outs: &[&TokenStream], ins: &[&TokenStream]) {
    reach(1);
    let mut mine = vec![];
    for t in ins {
        own(t, &mut mine);
    }
    let mut r = vec![];
    for t in outs {
        roots(t, &mine, &mut r);
    }
    let s = sym_str(1 + choice(18));
    assume(!keyword(&s));
    tell("scope", &s);
    reach(2);
    for x in &r {
        // Recorded in known_findings.json; in_scope settles that name on its own.
        if x == "this" {
            continue;
        }
        check(!eq(&s, x), 1);
    }
}
const ARGS: &[&str] = &["", "project = Pm, project_ref = Pr, project_replace = Po", "!Unpin, project = Pm", "UnsafeUnpin, project_ref = Pr", "PinnedDrop, project = Pm", "project_replace"];
/// Any name in scope of the declaration.
pub fn h_item() {
    let k = choice(4);
    let a = ts(ARGS[choice(if k == 2 { 5 } else { 6 })]);
    let item = ts([
        "pub struct S<'a, T: 'a, const N: usize> where T: Copy { #[pin] pub a: &'a T, b: [T; N] }",
        "struct S<T>(#[pin] T, u8);",
        "enum E<T> { A { #[pin] x: T, y: u8 }, B(#[pin] u8, T), C }",
        "#[repr(C)] struct S { #[pin] a: u8 }",
    ][k]);
    let e = expand(a.clone(), item.clone());
    if e.rejected {
        return;
    }
    judge(&[&e.gen], &[&item, &a]);
}
/// Any name in scope of the destructor.
pub fn h_drop() {
    let t = ts(pick(&["impl<T: Copy> PinnedDrop for S<T> where T: Clone { fn drop(mut self: Pin<&mut Self>) { let x = &mut self; Self::f(x); } }", "impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) { { self }; } }"]));
    let (o, r) = expand_drop(TokenStream::new(), t.clone());
    check(!r, 2);
    judge(&[&o], &[&t]);
}
