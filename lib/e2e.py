"""Compiles whole programs against the repository's pin-project with the real rustc: the final word on a counterexample."""
import glob, json, os, re, subprocess
import common as C

_ready = None


def prepare():
    global _ready
    if _ready:
        return _ready
    d = os.path.join(C.WORK, "e2e")
    C.write(os.path.join(d, "Cargo.toml"), f"""[package]
name = "e2e"
version = "0.0.0"
edition = "2021"
[workspace]
[lib]
path = "lib.rs"
[dependencies]
pin-project = {{ path = "{C.REPO}" }}
""")
    C.write(os.path.join(d, "lib.rs"), "pub use pin_project;\n")
    r = C.run(["cargo", "build", "--offline", "--message-format=json", "--target-dir", os.path.join(d, "target")], cwd=d, env=C.env(), timeout=600)
    if r.returncode != 0:
        raise C.Broken("pin-project does not build:\n" + r.stderr[-2000:])
    rlib = None
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] in ("pin_project", "pin-project"):
            rlib = [f for f in m["filenames"] if f.endswith(".rlib")][0]
    if not rlib:
        raise C.Broken("no pin-project library among cargo's artifacts")
    _ready = (rlib, os.path.join(d, "target/debug/deps"), d)
    return _ready


PRELUDE = "#![allow(warnings)]\nuse pin_project::{pin_project, pinned_drop, UnsafeUnpin};\nuse core::pin::Pin;\n"


def compile(text, name="prog", link=False, edition="2021"):
    """(accepted, messages)"""
    rlib, deps, d = prepare()
    out = os.path.join(d, "out", name)
    os.makedirs(out, exist_ok=True)
    src = os.path.join(out, "lib.rs")
    with open(src, "w") as f:
        f.write(text)
    try:
        r = C.run(["rustc", "--edition", edition, "--crate-name", "prog", "--crate-type", "bin" if link else "lib", "--emit", "link" if link else "metadata", "--extern", "pin_project=" + rlib, "-L", "dependency=" + deps, "--out-dir", out, "-Awarnings", src] + (["--extern", "grp=" + grp()] if "__N [" in text or "grp::" in text else []), env=C.env(), timeout=120, cwd=out)
    except subprocess.TimeoutExpired:
        return False, "rustc does not end within 120 s"
    if r.returncode < 0 or r.returncode > 128:
        return False, f"rustc was ended by a signal ({r.returncode}): SIGSEGV, SIGABRT or stack overflow: " + r.stderr[:300]
    if "internal compiler error" in r.stderr and "panicked at" in r.stderr and "proc" not in r.stderr:
        raise C.Broken("rustc crashed: " + r.stderr[-800:])
    return r.returncode == 0, r.stderr


def panicked(msgs):
    return bool(re.search(r"(custom attribute|proc-macro derive|proc macro|custom derive).{0,20} panicked|rustc unexpectedly overflowed its stack|SIGSEGV|SIGABRT|stack overflow|rustc does not end within", msgs))


GRP = """extern crate proc_macro;
use proc_macro::*;
fn go(t: TokenStream) -> TokenStream {
    let mut out = TokenStream::new();
    let mut it = t.into_iter();
    while let Some(x) = it.next() {
        match x {
            TokenTree::Ident(i) if i.to_string() == "__N" => {
                if let Some(TokenTree::Group(g)) = it.next() {
                    out.extend(Some(TokenTree::Group(Group::new(Delimiter::None, go(g.stream())))));
                }
            }
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), go(g.stream()));
                n.set_span(g.span());
                out.extend(Some(TokenTree::Group(n)));
            }
            x => out.extend(Some(x)),
        }
    }
    out
}
/// `__N [ .. ]` stands for a group with invisible delimiters.
#[proc_macro]
pub fn grp(t: TokenStream) -> TokenStream { go(t) }
fn attrs(t: TokenStream) -> (Vec<(TokenTree, TokenTree)>, Vec<TokenTree>) {
    let mut it = t.into_iter().peekable();
    let mut a = vec![];
    while let Some(TokenTree::Punct(p)) = it.peek() {
        assert_eq!(p.as_char(), '#');
        let x = it.next().unwrap();
        a.push((x, it.next().unwrap()));
    }
    (a, it.collect())
}
fn join(a: Vec<(TokenTree, TokenTree)>, more: TokenStream, rest: Vec<TokenTree>) -> TokenStream {
    let mut out: TokenStream = a.into_iter().flat_map(|(x, y)| [x, y]).collect();
    out.extend(more);
    out.extend(rest);
    out
}
/// Adds an attribute as the last one of the item.
#[proc_macro_attribute]
pub fn hide(args: TokenStream, item: TokenStream) -> TokenStream {
    let (a, rest) = attrs(item);
    join(a, format!("#[{}]", args).parse().unwrap(), rest)
}
/// The same in two steps.
#[proc_macro_attribute]
pub fn hide2(args: TokenStream, item: TokenStream) -> TokenStream {
    let (a, rest) = attrs(item);
    join(a, format!("#[grp::hide({})]", args).parse().unwrap(), rest)
}
/// Removes the attributes `pin(..)` of the item.
#[proc_macro_attribute]
pub fn bare(_: TokenStream, item: TokenStream) -> TokenStream {
    let (a, rest) = attrs(item);
    join(a.into_iter().filter(|(_, y)| !matches!(y, TokenTree::Group(g) if g.stream().into_iter().next().map_or(false, |i| i.to_string() == "pin"))).collect(), TokenStream::new(), rest)
}
/// Adds a field.
#[proc_macro_attribute]
pub fn more(args: TokenStream, item: TokenStream) -> TokenStream {
    item.into_iter().map(|t| match t {
        TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
            let mut s = g.stream();
            s.extend(args.clone());
            TokenTree::Group(Group::new(Delimiter::Brace, s))
        }
        t => t,
    }).collect()
}
"""
_grp = None


def grp():
    global _grp
    if not _grp:
        d = os.path.join(prepare()[2], "grp")
        C.write(os.path.join(d, "grp.rs"), GRP)
        r = C.run(["rustc", "--edition", "2021", "--crate-type", "proc-macro", "--crate-name", "grp", "--out-dir", d, os.path.join(d, "grp.rs")], env=C.env(), timeout=120)
        if r.returncode != 0:
            raise C.Broken("helper macro does not build: " + r.stderr[-500:])
        _grp = os.path.join(d, "libgrp.so")
    return _grp


def output(text, name):
    """(compiles, what running it prints)"""
    ok, msg = compile(text, name, link=True)
    if not ok:
        return False, msg
    r = C.run([os.path.join(prepare()[2], "out", name, "prog")], timeout=60)
    return True, f"{r.returncode}\n{r.stdout}"


def errors(text, name, edition="2021", krate="prog", uses=()):
    """[(lines, message)]: the errors rustc reports for the crate. uses: names of crates compiled before."""
    rlib, deps, d = prepare()
    out = os.path.join(d, "out", name)
    os.makedirs(out, exist_ok=True)
    src = os.path.join(out, "lib.rs")
    with open(src, "w") as f:
        f.write(text)
    r = C.run(["rustc", "--edition", edition, "--crate-name", krate, "--crate-type", "lib", "--emit", "metadata", "--error-format=json", "--extern", "pin_project=" + rlib, "-L", "dependency=" + deps, "--out-dir", out, "-Awarnings", src] + [x for u, n in uses for x in ("--extern", f"{u}={os.path.join(d, 'out', n, 'lib' + u + '.rmeta')}")], env=C.env(), timeout=300, cwd=out)
    errs = []
    for l in r.stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("level") == "error" and (m["spans"] or "aborting due to" not in m["message"]):
            lines = []
            for sp in m["spans"]:
                if not sp["is_primary"]:
                    continue
                while sp:
                    if sp["file_name"].endswith("lib.rs"):
                        lines.append(sp["line_start"])
                    sp = (sp.get("expansion") or {}).get("span")
            errs.append((lines, m.get("rendered") or m["message"]))
    if r.returncode != 0 and not errs:
        raise C.Broken("rustc fails without an error: " + r.stderr[-800:])
    if r.returncode == 0 and errs:
        raise C.Broken("rustc succeeds with errors: " + errs[0][1][:500])
    return errs


def pretty(text, name, mode="normal", edition="2021"):
    """rustc's own print of the crate, before (normal) or after expansion; None if it has errors."""
    rlib, deps, d = prepare()
    out = os.path.join(d, "out", name)
    os.makedirs(out, exist_ok=True)
    src = os.path.join(out, "pretty.rs")
    with open(src, "w") as f:
        f.write(text)
    e = C.env()
    e["RUSTC_BOOTSTRAP"] = "1"
    r = C.run(["rustc", "--edition", edition, "--crate-name", "prog", "--crate-type", "lib", "-Zunpretty=" + mode, "--extern", "pin_project=" + rlib, "-L", "dependency=" + deps, "-Awarnings", src], env=e, timeout=120, cwd=out)
    return r.stdout if r.returncode == 0 else None
