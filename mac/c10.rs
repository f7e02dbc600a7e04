use crate::sup::*;

/// One argument: its tokens and, for the specification, what it is.
#[derive(Clone)]
pub struct Arg {
    t: TokenStream,
    kind: Kind,
}
#[derive(Clone, PartialEq)]
pub enum Kind {
    Bad,
    PinnedDrop,
    UnsafeUnpin,
    NotUnpin,
    Project(String),
    ProjectRef(String),
    Replace(Option<String>),
}
use Kind::*;

/// The documented grammar and restrictions.
pub fn valid(args: &[Kind], is_enum: bool, name: &str) -> bool {
    let (mut pd, mut uu, mut nu) = (0, 0, 0);
    let (mut pm, mut pr, mut po) = (vec![], vec![], vec![]);
    for a in args {
        match a {
            Bad => return false,
            PinnedDrop => pd += 1,
            UnsafeUnpin => uu += 1,
            NotUnpin => nu += 1,
            Project(n) => pm.push(n),
            ProjectRef(n) => pr.push(n),
            Replace(n) => po.push(n),
        }
    }
    if pd > 1 || uu > 1 || nu > 1 || pm.len() > 1 || pr.len() > 1 || po.len() > 1 {
        return false;
    }
    if uu + nu > 1 || (pd > 0 && !po.is_empty()) {
        return false;
    }
    let mut names: Vec<&String> = vec![];
    names.extend(pm);
    names.extend(pr);
    for n in po {
        match n {
            Some(n) => names.push(n),
            None => {
                if is_enum {
                    return false;
                }
            }
        }
    }
    for i in 0..names.len() {
        if eq(names[i], name) {
            return false;
        }
        for j in 0..i {
            if eq(names[i], names[j]) {
                return false;
            }
        }
    }
    true
}

fn classify(word: &str, value: Option<&str>) -> Kind {
    match value {
        None => {
            if eq(word, "PinnedDrop") {
                PinnedDrop
            } else if eq(word, "UnsafeUnpin") {
                UnsafeUnpin
            } else if eq(word, "project_replace") {
                Replace(None)
            } else {
                Bad
            }
        }
        Some(v) => {
            if eq(word, "project") {
                Project(v.into())
            } else if eq(word, "project_ref") {
                ProjectRef(v.into())
            } else if eq(word, "project_replace") {
                Replace(Some(v.into()))
            } else {
                Bad
            }
        }
    }
}

fn item(is_enum: bool, name: &str) -> TokenStream {
    let n = tid(id(name));
    if is_enum {
        subst(ts("enum Q0 { V { #[pin] a: u8, b: u8 } }"), &[n])
    } else {
        subst(ts("struct Q0 { #[pin] a: u8, b: u8 }"), &[n])
    }
}

fn run(args: TokenStream, kinds: &[Kind], is_enum: bool, name: &str) {
    let e = expand(args, item(is_enum, name));
    let v = valid(kinds, is_enum, name);
    tell("valid", &v);
    if kinds.iter().any(|k| *k == PinnedDrop) {
        tell("companion", &format!("#[pinned_drop] impl PinnedDrop for {} {{ fn drop(self: Pin<&mut Self>) {{}} }}", name));
    }
    reach(1);
    if v {
        reach(2);
        check(!e.rejected, 1);
    } else {
        reach(3);
        check(e.rejected, 2);
    }
}

/// One argument, every identifier of 1 to 15 characters in every place.
pub fn h_one() {
    let is_enum = flag();
    let len = choice(15) + 1;
    let w = sym_str(len);
    let form = choice(5);
    let name = "T";
    let (t, k) = match form {
        0 => (tid(id(&w)), classify(&w, None)),
        1 => {
            let v = sym_str(1);
            assume(!eq(&v, "_"));
            (subst(ts("Q0 = Q1"), &[tid(id(&w)), tid(id(&v))]), classify(&w, Some(&v)))
        }
        2 => (subst(ts("! Q0"), &[tid(id(&w))]), if eq(&w, "Unpin") { NotUnpin } else { Bad }),
        3 => (subst(ts("Q0 ="), &[tid(id(&w))]), Bad),
        _ => (subst(ts("Q0,"), &[tid(id(&w))]), classify(&w, None)),
    };
    run(t, &[k], is_enum, name);
}

const FORMS: usize = 7;
fn form(i: usize, v: &str) -> (TokenStream, Kind) {
    let n = || tid(id(v));
    match i {
        0 => (ts("PinnedDrop"), PinnedDrop),
        1 => (ts("UnsafeUnpin"), UnsafeUnpin),
        2 => (ts("! Unpin"), NotUnpin),
        3 => (subst(ts("project = Q0"), &[n()]), Project(v.into())),
        4 => (subst(ts("project_ref = Q0"), &[n()]), ProjectRef(v.into())),
        5 => (subst(ts("project_replace = Q0"), &[n()]), Replace(Some(v.into()))),
        _ => (ts("project_replace"), Replace(None)),
    }
}
fn list(n: usize) {
    let is_enum = flag();
    let name = sym_str(1);
    assume(!eq(&name, "_"));
    let mut t = TokenStream::new();
    let mut ks = vec![];
    for i in 0..n {
        let f = choice(FORMS);
        let v = if f >= 3 && f < 6 { sym_str(1) } else { String::new() };
        if f >= 3 && f < 6 {
            assume(!eq(&v, "_"));
        }
        let (a, k) = form(f, &v);
        if i > 0 {
            t.extend(ts(","));
        }
        t.extend(a);
        ks.push(k);
    }
    if n > 0 && flag() {
        t.extend(ts(","));
    }
    run(t, &ks, is_enum, &name);
}
/// Up to three well-formed arguments, names symbolic.
pub fn h_list2() {
    list(choice(3))
}
pub fn h_list3() {
    list(3)
}

/// Four arguments with fixed, distinct names.
pub fn h_list4() {
    let is_enum = flag();
    let mut t = TokenStream::new();
    let mut ks = vec![];
    for i in 0..4 {
        let (a, k) = form(choice(FORMS), ["A", "B", "C", "D"][i]);
        if i > 0 {
            t.extend(ts(","));
        }
        t.extend(a);
        ks.push(k);
    }
    run(t, &ks, is_enum, "T");
}
/// Names of different lengths against each other and against the type's name.
pub fn h_names() {
    let is_enum = flag();
    let mut t = TokenStream::new();
    let mut ks = vec![];
    let (a, b) = pick(&[(3usize, 4usize), (3, 5), (4, 5), (4, 3), (5, 3), (5, 4)]);
    let n = sym_str(choice(3) + 1);
    for f in [a, b] {
        let v = sym_str(choice(3) + 1);
        assume(!eq(&v, "_"));
        let (a, k) = form(f, &v);
        t.extend(a);
        t.extend(ts(","));
        ks.push(k);
    }
    assume(!eq(&n, "_"));
    for k in &ks {
        if let Project(v) | ProjectRef(v) | Replace(Some(v)) = k {
            assume(!keyword(v));
        }
    }
    assume(!keyword(&n));
    run(t, &ks, is_enum, &n);
}

/// Forms outside the grammar.
pub fn h_bad() {
    const BAD: &[&str] = &[
        "!", "! PinnedDrop", "= A", "project", "project =", "project_ref", "project_ref =", "project_replace =", "project = fn", "project = _", "project = 1", "project = \"A\"", "project = A::B", "project(A)",
        "project_ref = Self", "project_replace = self", "PinnedDrop = A", "UnsafeUnpin = A", "!Unpin = A", "PinnedDrop PinnedDrop", "PinnedDrop; UnsafeUnpin", ",", "PinnedDrop,, UnsafeUnpin", "Unpin", "!!Unpin", "r#PinnedDrop",
        "r#project = A", "()", "(PinnedDrop)", "project: A", "\"PinnedDrop\"", "Replace", "::PinnedDrop", "project = A B", "project_replace = A B", "!Unpin !Unpin", "!UnsafeUnpin", "'a", "#[pin]", "project == A", "project => A", "pinned_drop", "unpin", "1", "!r#Unpin", "-Unpin", "not(Unpin)", "project<A>",
    ];
    let b = choice(BAD.len());
    let is_enum = flag();
    let mut t = ts(BAD[b]);
    let mut pre = TokenStream::new();
    match choice(3) {
        0 => {}
        1 => pre = ts("UnsafeUnpin,"),
        _ => t.extend(ts(", UnsafeUnpin")),
    }
    pre.extend(t);
    run(pre, &[Bad], is_enum, "T");
}

/// What a sequence of tokens means by the documented grammar.
fn parse(t: &[&str]) -> Vec<Kind> {
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        let val = |j: usize| -> Option<String> {
            match (t.get(j), t.get(j + 1)) {
                (Some(&"="), Some(v)) if !["=", "!", ",", ";", "1"].contains(v) => Some(v.to_string()),
                _ => None,
            }
        };
        let k = match t[i] {
            "PinnedDrop" => PinnedDrop,
            "UnsafeUnpin" => UnsafeUnpin,
            "!" if t.get(i + 1) == Some(&"Unpin") => {
                i += 1;
                NotUnpin
            }
            "project" | "project_ref" => match val(i + 1) {
                Some(v) if t[i] == "project" => Project(v),
                Some(v) => ProjectRef(v),
                None => return vec![Bad],
            },
            "project_replace" => match (val(i + 1), t.get(i + 1)) {
                (Some(v), _) => Replace(Some(v)),
                (None, Some(&"=")) => return vec![Bad],
                _ => Replace(None),
            },
            _ => return vec![Bad],
        };
        i += match &k {
            Project(_) | ProjectRef(_) | Replace(Some(_)) => 3,
            _ => 1,
        };
        out.push(k);
        if i < t.len() {
            if t[i] != "," {
                return vec![Bad];
            }
            i += 1;
        }
    }
    out
}
fn tokens(n: usize, alphabet: &[&'static str]) {
    let mut v = vec![];
    for _ in 0..n {
        v.push(alphabet[choice(alphabet.len())]);
    }
    let is_enum = flag();
    run(ts(&v.join(" ")), &parse(&v), is_enum, "T");
}
/// Every sequence of up to four tokens.
pub fn h_tokens() {
    tokens(choice(5), &["PinnedDrop", "!", "Unpin", "project", "project_replace", "X", "=", ","]);
}
/// Every sequence of five to seven tokens of a smaller alphabet.
pub fn h_tokens_deep() {
    tokens(5, &["PinnedDrop", "UnsafeUnpin", "!", "Unpin", "project", "project_ref", "project_replace", "X", "=", ","]);
}
pub fn h_tokens7_deep() {
    tokens(7, &["project", "project_replace", "X", "=", ","]);
}
/// Two or three arguments with anything between, before and after them.
pub fn h_separators() {
    let is_enum = flag();
    let mut t = TokenStream::new();
    let mut ks = vec![];
    let n = 2 + choice(2);
    let lead = pick(&["", ","]);
    t.extend(ts(lead));
    if !lead.is_empty() {
        ks.push(Bad);
    }
    for i in 0..n {
        let (a, k) = if i < 2 { form(choice(FORMS), ["A", "B"][i]) } else { form(pick(&[0, 5]), "C") };
        if i > 0 {
            let s = pick(&[",", "", ";", ",,"]);
            if s != "," {
                ks.push(Bad);
            }
            t.extend(ts(s));
        }
        t.extend(a);
        ks.push(k);
    }
    run(t, &ks, is_enum, "T");
}
/// Five arguments with fixed, distinct names.
pub fn h_list5_deep() {
    let is_enum = flag();
    let mut t = TokenStream::new();
    let mut ks = vec![];
    for i in 0..5 {
        let (a, k) = form(choice(FORMS), ["A", "B", "C", "D", "E"][i]);
        if i > 0 {
            t.extend(ts(","));
        }
        t.extend(a);
        ks.push(k);
    }
    run(t, &ks, is_enum, "T");
}
