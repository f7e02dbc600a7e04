"""The properties decided on the macros' own code."""
import re
import common as C
import maccheck as M
import e2e, c15, rtcheck, known, accepts, tyfam

MODEL = [
    "the macro crate is compiled as an ordinary library with proc_macro's types replaced by proc_macro2's (the library it is written against); proc_macro2, syn and quote are executed with it, not modelled",
    "spans and hygiene carry no information outside rustc; counterexamples are therefore confirmed by compiling the program they describe with rustc against /repo's pin-project",
]


def program(n, plain=False):
    """The program a counterexample describes. plain: the same without the macro."""
    d = dict(n)
    s = e2e.PRELUDE
    s += d.get("before", "") + "\n"
    if "item" in d:
        it = d["item"]
        if plain:
            it = re.sub(r"#\s*\[\s*pin\s*\]", "", it)
        else:
            s += f"#[pin_project({d.get('args', '')})]\n"
        s += it + "\n"
    if not plain:
        s += d.get("companion", "") + "\n"
        if "impl" in d:
            a = d.get("drop-args", "")
            s += "#[pinned_drop" + (f"({a})" if a else "") + "]\n" + d["impl"] + "\n"
        s += d.get("evil", "") + "\n"
    return s


def accept(notes, v, err):
    """The macro's verdict against the specification's, settled by rustc."""
    d = dict(notes)
    import hashlib
    key = hashlib.sha256(repr((notes, v["values"])).encode()).hexdigest()[:12]
    if v["kind"] != "assert":
        ok, msg = e2e.compile(program(notes), key)
        return (not ok and e2e.panicked(msg)), "rustc: " + (msg.strip()[:300] or "compiles")
    ok, msg = e2e.compile(program(notes), key)
    if d.get("valid") == "true":
        if ok:
            return False, "rustc accepts the program"
        if "sketch" in d:
            # the declaration need not be complete; the macro's own error must be among rustc's
            text = d.get("error", '""')[1:-1].replace('\\"', '"')
            return text != "" and text in msg, "must be accepted, rustc says: " + msg.strip()[:300]
        else:
            ok2, msg2 = e2e.compile(program(notes, plain=True), key + "p")
            if not ok2:
                return False, "rustc rejects the declaration itself: " + msg2.strip()[:200]
        return True, "must be accepted, rustc says: " + msg.strip()[:300]
    return ok, "must be rejected, rustc accepts it" if ok else "rustc rejects the program: " + msg.strip()[:200]


def C10(rep, tier):
    b = M.build("c10", ["c10.rs"])
    rep.ev["bounds"] = [
        "one argument: any identifier of 1 to 15 characters (all bytes symbolic), bare, after `!`, followed by `=`, by `= name`, by a comma",
        "lists of up to 3 arguments over all 7 forms in every order with symbolic one-character names and type name; lists of 4 with distinct names" + ("; lists of 5" if tier != "quick" else ""),
        "every sequence of up to 4 tokens over 8 (argument names, a name, `!`, `=`, `,`)" + ("; of 5 over 10 and of 7 over 5" if tier != "quick" else "") + "; two or three arguments with none, a wrong or a double separator between them",
        "two names and the type's name of 1 to 3 symbolic characters each",
        "48 malformed arguments, alone, after and before a valid one; struct and enum",
    ]
    rep.ev["outside"] = ["argument lists longer than that, identifiers of more than 15 characters, non-ASCII identifiers"]
    rep.ev["assumptions"] = MODEL
    M.explore(rep, b, accept, need={"*": (1,), "h_one": (2, 3), "h_list2": (2, 3), "h_list3": (2, 3), "h_names": (2, 3)}, msgs={1: "well-formed arguments are rejected", 2: "arguments outside the grammar are accepted"})


def C11(rep, tier):
    b = M.build("c11", ["c11.rs"])
    ds = tyfam.family(tier) + tyfam.extra() + tyfam.modes() + tyfam.bounded() + tyfam.argued() + tyfam.defaulted() + tyfam.selfs()
    rep.ev["bounds"] = [
        "structs of each style with up to 3 fields, 17 attribute lists per field (#[pin] absent, present, repeated, with arguments, raw, among others)",
        "enums with up to 3 variants, each of 16 forms (unit, tuple, braces, discriminants, misplaced #[pin])",
        "any attribute name of 3 or 11 characters (bytes symbolic) on the item, a variant or a field, plain or raw (r#name), with and without arguments",
        "representation hints: up to 3 in one attribute or split over two, including any 6-character word, plain or raw",
        "a rejected attribute at any place among up to 6 on the item; a misplaced or repeated attribute or a discriminant on the last of up to 16 fields or variants",
        "24 other item kinds with 6 visibilities/attributes and 3 argument lists",
        "7 generic parameter lists x 10 field types x 3 shapes; 6 x 5 visibilities x 10 field types",
        "field names of 1 to 13 characters (bytes symbolic), compared with every name the generated code binds",
        f"besides the encoding: {len(accepts.ODD) + len(ds)} declarations (unusual generics, types, names, attributes, positions, declarations made by macros; the declarations of C02, C04 and C18) which rustc must accept as expanded",
        "besides the encoding: about 210 pairs of programs in which other macros or cfg add `packed`, remove fields or bring a misplaced #[pin] after the expansion, one of each to be rejected",
    ]
    rep.ev["outside"] = ["declarations beyond these sizes; names the expansion reserves for its own items (double underscore); a constant, const parameter, unit struct or variant in scope with the name of a field"]
    rep.ev["assumptions"] = MODEL
    M.explore(rep, b, accept, need={"*": (1,), "h_struct": (2, 3), "h_enum": (2, 3), "h_attr_name": (2, 3), "h_repr": (2, 3)}, msgs={1: "a supported declaration is rejected", 2: "an unsupported declaration is accepted", 3: "a supported declaration is rejected"})
    accepts.check(rep, ds)


S12 = "#[pin_project(PinnedDrop)] pub struct S { #[pin] a: u8 }\n"
D12 = "#[pinned_drop] impl PinnedDrop for S { fn drop(%sself: Pin<&mut Self>) { %s } }\n"
# programs that would run the destructor from safe code: (with, without)
CALLS = [
    (S12 + D12 % ("", "") + "fn evil(x: Pin<&mut S>) { pin_project::__private::PinnedDrop::drop(x) }", S12 + D12 % ("", "") + "fn evil(x: Pin<&mut S>) { unsafe { pin_project::__private::PinnedDrop::drop(x) } }"),
    (S12 + D12 % ("", "") + "fn evil(x: Pin<&mut S>) { use pin_project::__private::PinnedDrop as _; x.drop() }", S12 + D12 % ("", "")),
    (S12 + D12 % ("mut ", "__drop_inner(self.as_mut())"), S12 + D12 % ("mut ", "let _ = self.as_mut();")),
    (S12 + D12 % ("mut ", "Self::drop(self.as_mut())"), S12 + D12 % ("mut ", "let _ = self.as_mut();")),
    (S12 + D12 % ("mut ", "self.project().a.get_unchecked_mut();"), S12 + D12 % ("mut ", "unsafe { self.project().a.get_unchecked_mut(); }")),
    (S12 + D12 % ("mut ", "unsafe fn z() {} z();"), S12 + D12 % ("mut ", "unsafe fn z() {} unsafe { z() }")),
    (S12 + D12 % ("mut ", "let p = &raw const *self; let _ = (|| (*p).a)();"), S12 + D12 % ("mut ", "let p = &raw const *self; let _ = (|| unsafe { (*p).a })();")),
    *[(S12 + "#[pinned_drop] impl PinnedDrop for S { " + q + "(self: Pin<&mut Self>) {} }", S12 + D12 % ("", "")) for q in ("async fn drop", "const fn drop", 'extern "C" fn drop', "fn drop<T>", "fn drop<const N: usize>")],
    (S12 + D12 % ("mut ", "super::__drop_inner(self.as_mut())"), S12 + D12 % ("mut ", "let _ = self.as_mut();")),
]


def C12(rep, tier):
    b = M.build("c12", ["c12.rs"])
    rep.ev["bounds"] = [
        "8 trait forms x unsafe x 14 self types x 4 attribute lists x 17 item lists",
        "method name of 4 symbolic characters or `drop`; 40 parameter lists (with a symbolic 3-character `Pin` and a symbolic 4-character `Self`); 7 return types; unsafe or not",
        "trait name of 10 symbolic characters; attribute arguments of up to 4 symbolic characters",
        "the generated impl for 3 types x 19 bodies of up to 10 statements: unsafe method, inner function not nameable from its body, body not in an unsafe context; 13 programs that try to call the destructor from safe code, do unsafe things in it or qualify the function",
    ]
    rep.ev["outside"] = ["impls beyond these forms; `Pin<&'a mut Self>` with an explicit lifetime, parenthesised types"]
    rep.ev["assumptions"] = MODEL
    M.explore(rep, b, accept, need={"h_impl": (2, 3), "h_sig": (2, 3), "h_word": (2, 3)}, msgs={1: "a well-formed pinned destructor is rejected", 2: "a malformed impl is accepted", 3: "the generated method is safe to call", 4: "the destructor can call itself from safe code", 5: "the destructor can be called from safe code", 6: "the destructor's body may do unsafe things without saying so", 7: "the destructor's body is lost"})
    for i, (evil, good) in enumerate(CALLS):
        ok, msg = e2e.compile(e2e.PRELUDE + good, f"c12g{i}")
        ok2, _ = e2e.compile(e2e.PRELUDE + evil, f"c12e{i}")
        if ok and ok2:
            rep.violation("the pinned destructor can be called from safe code, its body is not safe code, or the function is not a plain one: rustc accepts " + evil, {"program": evil})
        rep.add("programs", 2)


def C13(rep, tier):
    b = M.build("c13", ["c13.rs"])
    rep.ev["bounds"] = [
        "one lifetime name of 3 to 6 characters (bytes symbolic) in 21 positions: parameters, for<...> in bounds, where clauses, defaults, field types of structs and of any variant, nested types",
        "two lifetime names of 3 to 5 symbolic characters each in 10 pairs of positions",
        "every subset of 7 names around the generated one as parameters",
        "one lifetime name of 1 to 16 symbolic characters in 5 of the positions, plain and raw ('r#name); raw names of 3 to 6 characters in all 21 positions and next to a second name in 4 pairs",
        "'pin with 0, 1, ..., up to 23 underscores together, as parameters or bound in field types, plain or raw: the expansion ends",
    ]
    rep.ev["outside"] = ["lifetimes that appear only inside macro invocations in types; longer names; names that are not ASCII"]
    rep.ev["assumptions"] = MODEL
    M.explore(rep, b, accept, need={"*": (1, 2)}, msgs={1: "a declaration with these lifetimes is rejected", 2: "the generated lifetime is one of the user's"})


def same_body(notes, v, err):
    import hashlib
    key = hashlib.sha256(repr((notes, v["values"])).encode()).hexdigest()[:12]
    if v["kind"] != "assert":
        return accept(notes, v, err)
    ok, want = e2e.output(c15.named(notes, "ordinary"), key + "o")
    if not ok:
        return False, "rustc rejects the body in an ordinary method: " + want[:200]
    ok, got = e2e.output(c15.named(notes, "pinned"), key + "p")
    if not ok:
        return True, "compiles in an ordinary method, but not under #[pinned_drop]: " + got[:400]
    return got != want, f"ordinary method prints {want!r}, destructor prints {got!r}"


def C15(rep, tier):
    rep.ev["bounds"] = [
        f"{len(c15.B)} destructor bodies over 6 implementing types (generic struct, tuple struct, enum, lifetimes and const generics, path in another module, not generic), run with symbolic field values (all 64 bits) against the same body in an ordinary method: everything recorded and the fields afterwards are equal",
        "one identifier of the user's of 1 to 11 characters (bytes symbolic, two leading underscores excluded) in 21 bodies x its positions (variable, field, method, module, trait, macro, label, type, variant, attribute, macro arguments): left as written",
    ]
    rep.ev["outside"] = ["bodies outside this grammar; identifiers with two leading underscores; `stringify!(self)`"]
    rep.ev["assumptions"] = MODEL
    mods = c15.mods(tier)
    b, live, bad = rtcheck.build(rep, "c15", mods)
    by = {m[0]: m for m in c15.B}
    for key, err in bad.items():
        _, g, s, r, body = by[key]
        ok, msg = e2e.compile(c15.program(g, s, r, body, "ordinary"), "c15" + key)
        if not ok:
            raise C.Broken(f"body {key} does not compile in an ordinary method: {msg[:500]}")
        rep.violation(f"the body `{body}` compiles in an ordinary method of `{c15.GROUPS[g][1][1]}`, but not under #[pinned_drop]: {err[:600]}", {"body": body, "rustc": err})
    if b:
        rtcheck.explore(rep, b, live, need_reach=(1, 2), msgs={1: "the number of recorded values differs from the ordinary method's", 2: "a recorded value differs from the ordinary method's", 3: "the fields afterwards differ"})
    mb = M.build("c15", ["c15.rs"])
    M.explore(rep, mb, same_body, need={"*": (1,)}, msgs={1: "a well-formed pinned destructor is rejected", 2: "the body is not left as written"})
    for k in known.findings("C15"):
        ok, msg = e2e.compile(c15.program(k.get("group", "S"), "self", "", k["body"], "pinned"), "c15k")
        if not ok:
            rep.known.append(k["what"])


def survive(notes, v, err):
    """What rustc does with the input."""
    import hashlib
    key = hashlib.sha256(repr((notes, v["values"])).encode()).hexdigest()[:12]
    d = dict(notes)
    if "derive-item" in d:
        body = "#[derive(pin_project::__private::__PinProjectInternalDerive)]\n" + d["derive-item"]
        text, plain = e2e.PRELUDE + body, None
    else:
        text = program(notes)
        body = text[len(e2e.PRELUDE):]
        plain = program(notes, plain=True)
    if "__N [" in body:
        text, plain = e2e.PRELUDE + "grp::grp! {" + body + "}\n", None
        syntax = "#![allow(warnings)]\ngrp::grp! { #[cfg(any())] mod m { " + body + "\n} }\n"
    else:
        syntax = "#![allow(warnings)]\n#[cfg(any())] mod m { " + body + "\n}\n"
    ok, msg = e2e.compile(text, key)
    if v["kind"] != "assert":
        return (not ok and e2e.panicked(msg)), "rustc: " + (msg.strip()[:300] or "compiles")
    if not e2e.compile(syntax, key + "s")[0]:
        return False, "rustc: not the syntax of an item"
    if "unparsable" in msg:
        return True, "rustc: " + msg.strip()[:300]
    if v["id"] == 1:
        # neither an expansion nor an error: nothing left of the item
        return ok, "rustc accepts the program, and the item is gone" if ok else "rustc: " + msg.strip()[:300]
    if v["id"] == 3:
        text = d.get("error", '""')[1:-1].replace('\\"', '"')
        return text != "" and text in msg, "rustc: " + msg.strip()[:300]
    if ok or plain is None or "impl" in d:
        return False, "rustc: " + (msg.strip()[:200] or "compiles")
    ok2, msg2 = e2e.compile(plain, key + "p")
    return ok2, "rustc: " + msg.strip()[:300] + ("" if ok2 else " (and without the macro)")


def C16(rep, tier):
    b = M.build("c16", ["c16.rs"])
    deep = tier != "quick"
    n = 3 if deep else 2
    rep.ev["bounds"] = [
        f"attribute arguments: any {n} tokens of the arguments' own words, any 3-character word and any operator character (bytes symbolic), literals, lifetimes, raw identifiers, groups of all 4 delimiters, attributes, `_`",
        "declarations: 5 (generics with bounds, defaults, where clauses, lifetimes, const parameters, attributes, restricted visibility, raw identifiers, function pointer and macro types, discriminants) with any one edit at any token: removed, doubled, swapped with the next, put into invisible or other delimiters, replaced by or preceded by any token" + ("; 4 of them with two edits" if deep else ""),
        "what the derive is given, with any one edit (users can name the derive and its helper attribute)",
        f"items and impls of up to {n} tokens of any kind, with and without a body",
        "2 pinned destructors with any one edit, any one-token attribute argument",
        f"macro arguments in a destructor: any {n} tokens",
    ]
    rep.ev["outside"] = ["inputs further from these; where in the source an error points (spans); inputs that overflow the stack by their own nesting"]
    rep.ev["assumptions"] = MODEL
    M.explore(rep, b, survive, need={"*": (1,), "h_args": (2, 3), "h_item": (2, 3), "h_derive": (2, 3), "h_drop": (2, 3)}, msgs={1: "the macro returns neither an expansion nor an error", 2: "the expansion is not valid syntax", 3: "macro arguments in a destructor make the macro fail"})


def _item_text(t):
    """rustc's print without the macro's own attributes, white space and empty generics."""
    t = re.sub(r"#!\[.*?\]", "", t)
    t = re.sub(r"#\[pin\]|#\[pin\s*\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)\]", "", t)
    t = re.sub(r"#\[derive\(\s*[\w:\s]*__PinProjectInternalDerive\s*,?\s*\)\]", "", t)
    t = re.sub(r"\s+", "", re.sub(r"<\s*>|\bwhere\s*(?=[{;(])", "", t))
    return t.replace(",}", "}").replace(",)", ")").replace(",>", ">").replace(",{", "{")


def as_written(notes, v, err):
    """Compares rustc's print of the item with that of the macro's output."""
    import hashlib
    if v["kind"] != "assert":
        return accept(notes, v, err)
    key = hashlib.sha256(repr((notes, v["values"])).encode()).hexdigest()[:12]
    d = {k: re.sub(r"__N \[((?:[^\[\]])*)\]", r"\1", x) for k, x in notes}
    want = e2e.pretty(d["item"], key)
    if want is None:
        return False, "rustc does not read the item: " + d["item"]
    got = e2e.pretty(d["output"], key + "o")
    if got is None:
        return True, "rustc reads the item, but not what the macro returns: " + d["output"]
    a, b = _item_text(want), _item_text(got)
    if not b:
        return True, "nothing is left of the item"
    # what follows the item may be there; a #[..] directly in front of it may not
    i = b.find(a)
    ok = i >= 0 and (i == 0 or b[i - 1] in "};")
    return not ok, f"the item is {a!r}, the macro returns {b!r}"


WRITTEN = [
    ("", "#[derive(Clone, Debug)] #[allow(dead_code)] pub struct S<'a, T: 'a + Copy = u8, const N: usize = 3> where T: Clone { #[doc = \"d\"] #[pin] pub(crate) a: &'a T, b: [T; N], #[cfg(any())] c: u8 }"),
    ("PinnedDrop", "#[repr(C)] #[non_exhaustive] struct S<T: ?Sized>(#[pin] u8, pub Box<T>);"),
    ("project = P, project_ref = Q, project_replace = R", "#[derive(Clone)] #[repr(u8)] #[must_use] #[non_exhaustive] pub(crate) enum E<T> where T: Copy { #[doc = \"v\"] A { #[pin] x: T, y: u8 }, #[cfg(any())] B, C(T, #[pin] Option<Box<Self>>), D }"),
    ("!Unpin, project_replace", "#[derive(Default, PartialEq)] #[deprecated(note = \"n\")] #[doc(hidden)] pub struct r#type { r#fn: Vec<Self>, #[cfg_attr(all(), pin)] r#loop: u8 }"),
    ("UnsafeUnpin", "#[derive(Debug)] #[derive(Clone, Copy)] pub(self) struct S<T>(#[pin] T, fn(&u8) -> T) where T: Fn(u8);"),
]


def C17(rep, tier):
    b = M.build("c17", ["c17.rs"])
    deep = tier != "quick"
    rep.ev["bounds"] = [
        "2 or 3 attributes out of 8 in any order; up to 16 fields or variants",
        "15 attribute lists x 8 visibilities x 4 kinds of items",
        "8 generic parameter lists x 6 where clauses x 4 kinds x 3 arguments",
        "8 field attribute lists x 19 field types x 4 kinds",
        "any name of up to 4 characters, raw or not, in 12 positions (attribute names up to 11), any lifetime name and doc text of up to 4 characters (bytes symbolic)",
    ] + (["the product of 6 x 3 x 4 x 3 x 4 x 3 of these x 3 arguments x 4 kinds"] if deep else [])
    rep.ev["outside"] = ["tokens outside these lists; spans"]
    rep.ev["assumptions"] = MODEL
    M.explore(rep, b, as_written, need={"*": (1, 2)}, msgs={1: "the item is not among what the macro returns", 2: "the macro adds an attribute to the item", 3: "an attribute of the item is lost or moved"})
    for i, (args, item) in enumerate(WRITTEN):
        plain = e2e.pretty("#![allow(warnings)]\n" + re.sub(r"#\[pin\]|, pin\b", lambda m: ", allow(x)" if m[0] != "#[pin]" else "", item), f"c17p{i}", "expanded")
        got = e2e.pretty(e2e.PRELUDE + f"#[pin_project({args})]\n{item}", f"c17m{i}", "expanded")
        if plain is None:
            raise C.Broken(f"rustc does not expand {item}")
        rep.add("programs", 2)
        if got is None:
            rep.violation(f"rustc expands the item without the macro, but not with it: {item}", {"item": item})
            continue
        a = _item_text(plain.replace("#[allow(x)]", ""))
        head = re.sub(r"^.*?usestd::prelude::\w+::\*;", "", a).split("#[automatically_derived]")[0]
        if head not in _item_text(got):
            rep.violation(f"the item `{item}` is expanded to something else: without the macro {head!r}", {"item": item, "plain": plain, "got": got})


def _split(t):
    """Top-level commas."""
    out, depth, cur = [], 0, ""
    for c in t:
        depth += c in "<([{"
        depth -= c in ">)]}"
        if c == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    return [x.strip() for x in out + [cur] if x.strip()]


def header(item, name):
    """(parameters without defaults, arguments, where clause) of the declaration."""
    item = re.sub(r"'\s+", "'", item)
    m = re.search(r"\b(struct|enum)\s+%s\s*(<)?" % re.escape(name), item)
    if not m:
        return None
    rest, g = item[m.end():], []
    if m.group(2):
        depth, i = 1, 0
        while depth:
            depth += rest[i] == "<"
            depth -= rest[i] == ">" and rest[i - 1] != "-"
            i += 1
        g, rest = _split(rest[:i - 1]), rest[i:]
    w = re.search(r"\bwhere\b([^{;]*)", rest)
    params = [x.split("=")[0].strip() for x in g]
    args = [re.sub(r"^const\s+", "", x).split(":")[0].strip() for x in params]
    return params, args, (" where" + w.group(1)) if w else ""


def surface(notes, v, err):
    """The same question, asked by a program that uses the item."""
    import hashlib
    key = hashlib.sha256(repr((notes, v["values"])).encode()).hexdigest()[:12]
    if v["kind"] != "assert":
        return accept(notes, v, err)
    d = dict(notes)
    name = d["name"]
    h = header(d["item"], name)
    if v["id"] == 9 or h is None:
        return False, "the expansion is not valid syntax (C16)"
    params, args, where = h
    A = "<" + ", ".join(args) + ">" if args else ""
    P = "<" + ", ".join(params) + ">" if params else ""
    base = program(notes) + "trait Tr<'a> {} impl<'a, X> Tr<'a> for X {}\n"
    if "where" in d["item"]:
        base = base.replace("trait Tr<'a> {} impl<'a, X> Tr<'a> for X {}", "trait Tr {} impl<X> Tr for X {}")
    if "PinnedDrop" in d.get("args", ""):
        base += f"#[pinned_drop] impl{P} PinnedDrop for {name}{A}{where} {{ fn drop(self: Pin<&mut Self>) {{}} }}\n"
    ok, msg = e2e.compile(base, key)
    if not ok:
        return False, "rustc rejects the program: " + msg.strip()[:200]
    ex = {k: re.search(r"\b%s\s*=\s*(\w+)" % k, d["args"]) for k in ("project", "project_ref", "project_replace")}
    if v["id"] in (1, 2, 3):
        m = ("project", "project_ref", "project_replace")[v["id"] - 1]
        want = bool(ex[m]) or (d["enum"] == "false" and m != "project_replace") or (m == "project_replace" and re.search(r"\bproject_replace\b", d["args"]) is not None)
        ok, msg = e2e.compile(base + f"impl{P} {name}{A}{where} {{ fn __u() {{ let _ = Self::{m}; }} }}", key + "u")
        return ok != want, f"method {m} must {'' if want else 'not '}exist; rustc: " + (msg.strip()[:200] or "it does")
    given = {k: m.group(1) for k, m in ex.items() if m}
    for k, n in given.items():
        lt = k != "project_replace"
        ok, msg = e2e.compile(base + f"mod u {{ use super::*; type X<{', '.join((chr(39) + 'x0',) * lt + tuple(p.split(':')[0].strip() if not p.startswith('const') else p for p in params))}> = {n}<{', '.join((chr(39) + 'x0',) * lt + tuple(args))}>; }}", key + "t")
        if not ok:
            return True, f"projection type {n} of {k} cannot be named with the generics of {name}: " + msg.strip()[:300]
    for n in set(d["types"].split()) - set(given.values()) - {name, "*"}:
        ok, msg = e2e.compile(base + f"mod u {{ use super::{n} as X; }}", key + "x")
        if ok:
            return True, f"the type {n} is nameable beside {name}"
    return False, "rustc finds the items as documented"


def C18(rep, tier):
    import tychecks
    b = M.build("c18", ["c18.rs"])
    rep.ev["bounds"] = [
        "every set of named projections and the other arguments, 3 orders, 4 bodies (named and tuple structs, enums), 5 generic parameter lists",
        "any type name of 1 to 3 characters with one or two projection names of 1 or 2 characters (bytes symbolic)",
        "any field, variant or parameter name of 1 to 8 characters (bytes symbolic) in 5 positions",
    ]
    rep.ev["outside"] = ["longer names; names with two leading underscores"]
    rep.ev["assumptions"] = MODEL
    M.explore(rep, b, surface, need={"*": (1, 2)}, msgs={1: "method project", 2: "method project_ref", 3: "method project_replace", 4: "a named projection type does not exist beside the type", 5: "generics of a projection type", 6: "another type becomes nameable"})
    tychecks.existence(rep, tier)


POLLUTE = [
    ("a struct", "pub struct {s} {{}}"),
    ("a unit struct", "pub struct {s};"),
    ("a trait", "pub trait {s} {{ fn zz(); }}"),
    ("a module", "pub mod {s} {{}}"),
    ("a function", "pub fn {s}(_: Zz) {{}}"),
    ("a constant", "pub const {s}: Zz = Zz;"),
    ("a static", "pub static {s}: Zz = Zz;"),
    ("a macro", "macro_rules! {s} {{ ($($t:tt)*) => {{ zz zz }} }}"),
]


def polluted(n, scope, key):
    """[(what is in scope, rustc's complaint)]"""
    ok, msg = e2e.compile(program(n), key)
    if not ok:
        raise C.Broken("rustc rejects the program as it is: " + msg[:600])
    out = []
    for what, text in POLLUTE:
        x = n + [("before", "pub struct Zz;\n" + text.format(s=scope))]
        if not e2e.compile(program(x, plain=True), key + "p")[0]:
            continue
        ok, msg = e2e.compile(program(x), key)
        if not ok:
            out.append((what, msg.strip()[:400]))
    return out


def in_scope(notes, v, err):
    """Compiles the item next to items of that name."""
    import hashlib
    if v["kind"] != "assert" or v["id"] != 1:
        return accept(notes, v, err)
    key = hashlib.sha256(repr((notes, v["values"])).encode()).hexdigest()[:12]
    d = dict(notes)
    n = list(notes)
    if "impl" in d:
        g = "<T: Copy> where T: Clone" if "<T" in d["impl"].replace(" ", "") else ""
        n += [("item", "struct S%s { #[pin] a: u8%s }" % (g, ", b: T" if g else "")), ("args", "PinnedDrop"), ("evil", "impl%s S%s %s { fn f<X>(_: X) {} }" % ("<T: Copy>" if g else "", "<T>" if g else "", "where T: Clone" if g else ""))]
    else:
        name = re.search(r"(?:struct|enum)\s+(\w+)", d["item"]).group(1)
        h = header(d["item"], name)
        if "PinnedDrop" in d["args"]:
            P, A = ("<" + ", ".join(x) + ">" if x else "" for x in h[:2])
            n.append(("evil", f"#[pinned_drop] impl{P} PinnedDrop for {name}{A}{h[2]} {{ fn drop(self: Pin<&mut Self>) {{}} }}"))
    for what, msg in polluted(n, d["scope"], key):
        return True, f"with {what} named `{d['scope']}` in scope rustc says: " + msg
    return False, "no item of that name makes a difference to rustc"


OVER = """#![allow(warnings, hidden_glob_reexports)]
extern crate pin_project as orig;
extern crate self as pin_project;
pub use ::orig::*;
mod __private { pub use ::orig::__private::*; %s }
use core::{marker::PhantomPinned, pin::Pin};
"""
# the crate's name refers to the user's crate: (shadowed, declaration, what stays forbidden)
SHADOW = [
    ("pub trait Drop {}", "#[pin_project] struct S { #[pin] f: (u8, PhantomPinned) }", "impl Drop for S { fn drop(&mut self) {} }"),
    ("pub trait Drop {}", "#[pin_project(project = P)] enum S<T> { A(#[pin] T), B }", "impl<T> Drop for S<T> { fn drop(&mut self) {} }"),
    ("pub trait Unpin {}", "#[pin_project] struct S<T> { #[pin] f: T }", "impl<T> Unpin for S<T> {}"),
    ("pub trait Unpin {}", "#[pin_project(!Unpin)] struct S<T>(T);", "impl<T> Unpin for S<T> {}"),
    ("pub struct PhantomPinned;", "#[pin_project(!Unpin)] struct S<T>(T);", "fn is<T: Unpin>() {} fn f() { is::<S<u8>>() }"),
    ("pub struct AlwaysUnpin<'a, T>(&'a T); pub struct Wrapper<'a, T>(&'a T); pub type PinnedFieldsOf<T> = *const T;", "#[pin_project] struct S<T> { #[pin] f: T }", "fn is<T: Unpin>() {} fn f() { is::<S<PhantomPinned>>() }"),
    ("pub trait PinnedDrop { unsafe fn drop(self: ::core::pin::Pin<&mut Self>); }", "#[pin_project] struct S { #[pin] f: u8 }", "unsafe impl ::orig::UnsafeUnpin for S {}"),
]


def shadow(rep):
    for i, (over, decl, evil) in enumerate(SHADOW):
        ok, msg = e2e.compile(OVER % over + decl, f"c20s{i}")
        if not ok:
            rep.violation(f"in a crate that calls itself pin_project and has `{over}`, `{decl}` does not compile: {msg[:300]}", {"program": OVER % over + decl})
            continue
        if e2e.compile(OVER % over + decl + evil, f"c20t{i}")[0]:
            rep.violation(f"in a crate that calls itself pin_project and has `{over}`, rustc accepts `{decl} {evil}`", {"program": OVER % over + decl + evil})
        rep.add("programs", 2)


def C20(rep, tier):
    b = M.build("c20", ["c20.rs"])
    rep.ev["bounds"] = [
        "any name of 1 to 18 characters (bytes symbolic) of an item in scope: struct, unit struct, trait, module, function, constant, static, macro",
        "4 declarations (struct with lifetimes, type and const parameters, tuple struct, enum, no generics) x 6 argument lists; 2 pinned destructors",
        f"{len(SHADOW)} programs in which `pin_project` names the user's own crate, with private items of pin_project shadowed",
    ]
    rep.ev["outside"] = ["names with two leading underscores, reserved for the expansion; constants, statics and unit structs with the name of a field (or `_0`, `_1`, .. for tuple structs), which the language makes patterns"]
    rep.ev["assumptions"] = MODEL
    M.explore(rep, b, in_scope, need={"*": (1, 2)}, msgs={1: "the expansion depends on what is in scope", 2: "a well-formed pinned destructor is rejected"})
    shadow(rep)
    # The recorded finding, and the same name where it does not apply.
    for item, args in (("struct S<T> { #[pin] a: T, b: u8 }", "project_replace"), ("struct S(#[pin] u8);", "PinnedDrop"), ("enum E { A { #[pin] x: u8 }, B(u8) }", "project = Pm, project_ref = Pr, project_replace = Po")):
        n = [("item", item), ("args", args)]
        if "PinnedDrop" in args:
            n.append(("evil", "#[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) {} }"))
        for what, msg in polluted(n, "this", "this"):
            rep.add("replayed", 1)
            k = [k for k in known.findings("C20") if k["scope"] == "this" and item.startswith(k["item"]) and what in k["kinds"]]
            if k:
                if k[0]["what"] not in rep.known:
                    rep.known.append(k[0]["what"])
            else:
                rep.violation(f"`{item}` with {what} named `this` in scope: rustc says: {msg}", {"item": item, "scope": what})
