#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to review)."""
import json, os
D = "pin-project-internal/src/pin_project/derive.rs"
A = "pin-project-internal/src/pin_project/args.rs"
AT = "pin-project-internal/src/pin_project/attribute.rs"
PD = "pin-project-internal/src/pinned_drop.rs"
U = "pin-project-internal/src/utils.rs"
L = "src/lib.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None,
                  **({"state": state} if state else {})}})

p("C01", "Projection refers in place to exactly the original's fields",
  "For every value of an annotated struct or enum, `project` and `project_ref` return a projection of the same variant in which each field refers to the memory of the same-named (or same-position) field of the original. The calls move, copy, modify and drop nothing, and a write through the projection is what a later read of the original sees.",
  ["inputs", "programs"], "all field values and active variants; all placements of #[pin] over the stated family of structs, tuple structs and enums, generic or not, sized or with an unsized tail",
  "tests/pin_project.rs projects a dozen hand-written shapes with one value each; field-mapping mistakes in other shapes (many same-typed fields, later variants) pass.",
  [D], [("field patterns and constructor bodies", D + "::visit_fields"), ("enum arms", D + "::visit_variants"), ("methods", D + "::make_proj_impl")],
  ["project()", "project_ref()"])
p("C02", "#[pin] fields are reachable only pinned, all others only unpinned",
  "Through the values returned by `project` and `project_ref`, a field marked #[pin] is reachable only as a pinned mutable (respectively shared) reference to the field, so that a plain `&mut` to it can be obtained only if the field's type is Unpin; an unmarked field is reachable as a plain `&mut` (respectively `&`) reference, never as a pinned one unless its type is Unpin. The value returned by `project_replace` holds every unmarked field by value and only a zero-sized marker for each #[pin] field.",
  ["programs"], "every field type (type parameters are left symbolic), every placement of #[pin] over the stated family of declarations, named and unnamed projection types",
  "tests check the types of a few projections by ascription; a wrong type on another field position or shape still compiles there.",
  [D], [("projected field types", D + "::visit_fields"), ("projection structs and enums", D + "::parse_struct / parse_enum")],
  ["types of the projections' fields"])
p("C03", "Annotated type is Unpin exactly when all #[pin] field types are",
  "Without `!Unpin` or `UnsafeUnpin`, an annotated type implements Unpin if and only if the type of every #[pin] field, in every variant, implements Unpin. Fields without #[pin] and generic parameters that no #[pin] field uses impose no condition.",
  ["programs"], "every truth assignment of `F: Unpin` over the types involved, every placement of #[pin] over the stated family of declarations (type parameters, references, wrappers, associated types, bounds, where clauses)",
  "tests/proper_unpin.rs asserts a few instantiations of a few shapes; the condition is over all types and all #[pin] placements.",
  [D, L], [("conditional Unpin impl", D + "::make_unpin_impl"), ("collected #[pin] field types", D + "::visit_fields"), ("parameter use that is always Unpin", L + "::__private::AlwaysUnpin"), ("indirection against overlap", L + "::__private::PinnedFieldsOf")],
  ["trait solving of `Type: Unpin`"])
p("C04", "`!Unpin` makes a type never Unpin; `UnsafeUnpin` forwards exactly",
  "A type annotated with `!Unpin` implements Unpin for no choice of its generic arguments. A type annotated with `UnsafeUnpin` implements Unpin exactly for those generic arguments for which the user's own unsafe impl of the UnsafeUnpin trait applies, and never if there is no such impl.",
  ["programs"], "every truth assignment of the bounds involved and every placement of #[pin] over the stated family of declarations, with and without a user impl",
  "tests assert a handful of instantiations (tests/unsafe_unpin.rs, tests/proper_unpin.rs).",
  [D, L], [("Unpin impl per mode", D + "::make_unpin_impl"), ("forwarding wrapper", L + "::__private::Wrapper")],
  ["trait solving of `Type: Unpin`"])
p("C05", "Hand-written Unpin, Drop and private-trait impls are rejected",
  "A crate that adds its own `impl Unpin` for an annotated type (in any mode, for all or only some generic arguments), its own `impl Drop`, an UnsafeUnpin impl without the `UnsafeUnpin` argument, or a PinnedDrop impl without the `PinnedDrop` argument does not compile. The same crate without that impl compiles.",
  ["programs"], "every instantiation of the user impl's generic arguments, every mode and placement of #[pin] over the stated family of declarations",
  "Only the trybuild UI suite looks at this, for a few files and only on one nightly; it is not part of the stable tests, and no run-time test can observe a rejection.",
  [D, L], [("Unpin and dummy UnsafeUnpin impls", D + "::make_unpin_impl"), ("must-not-implement-Drop trait and dummy PinnedDrop impl", D + "::make_drop_impl"), ("upstream indirection", L + "::__private::{Wrapper, PinnedFieldsOf}")],
  ["coherence check of the expanded crate"])
p("C06", "project_replace swaps in the new value, drops pinned, returns the rest",
  "When no destructor panics, `project_replace` drops each #[pin] field of the old value exactly once, in place and in declaration order, before returning; it returns the old value's variant with every other field's old value, undropped. Afterwards the place holds exactly the replacement, and nothing has been dropped twice, leaked or dropped besides the old #[pin] fields.",
  ["inputs", "programs"], "all field values, active variants of the old and of the new value; all placements of #[pin] over the stated family of declarations",
  "tests/drop_order.rs and pin_project.rs use one value of a few two-field shapes.",
  [D, L], [("replacement protocol", D + "::proj_own_body / make_proj_impl"), ("drop guard", L + "::__private::UnsafeDropInPlaceGuard"), ("overwrite guard", L + "::__private::UnsafeOverwriteGuard")],
  ["project_replace()", "destructor log"])
p("C07", "project_replace stays exact when destructors panic",
  "Whichever destructor of a #[pin] field panics while `project_replace` runs, the panic reaches the caller, the place then holds exactly the replacement, every #[pin] field of the old value has been dropped exactly once in place, and every other field of the old value has been dropped exactly once. A second panic during that unwinding aborts, as for any Rust drop; it never leads to a double drop or to an old field remaining in the place.",
  ["fault_sequences", "inputs", "programs"], "every schedule of panics among the destructors that run, all field values and variants, all placements of #[pin] over the stated family",
  "tests/pin_project.rs::project_replace_panic tests one schedule on two shapes.",
  [D, L], [("guard order and scope", D + "::proj_own_body"), ("guards", L + "::__private::{UnsafeDropInPlaceGuard, UnsafeOverwriteGuard}")],
  ["project_replace()", "destructor log under catch_unwind"])
p("C08", "Pinned drop runs exactly once, in place, before the fields drop",
  "Dropping a value of a type with the `PinnedDrop` argument calls the user's pinned destructor exactly once, with a pinned reference to that very value while all its fields are intact, and afterwards drops every field exactly once in declaration order, also if the destructor or a field's destructor panics. Without the argument, dropping does nothing but drop the fields in declaration order.",
  ["inputs", "fault_sequences", "programs"], "all field values and variants, every schedule of panics among the destructors, all placements of #[pin] over the stated family",
  "tests/pinned_drop.rs and drop_order.rs check a few shapes, no panics.",
  [D, PD], [("Drop impl", D + "::make_drop_impl"), ("rewritten user impl", PD + "::expand_impl")],
  ["drop_in_place", "destructor log"])
p("C09", "Over any history, pinned data never moves and drops exactly once",
  "In every sequence of projections, pinned re-assignments and `project_replace` calls on a pinned value, through its final drop, with any destructors panicking, each #[pin] field value stays at one address from the moment it is pinned until its destructor runs there, and each value ever stored is dropped exactly once overall.",
  ["histories", "fault_sequences", "inputs"], "every sequence of operations up to the stated length with symbolic values, variants and panic choices",
  "tests run at most one operation per value.",
  [D, L], [("replacement protocol", D + "::proj_own_body"), ("guards", L + "::__private::{UnsafeDropInPlaceGuard, UnsafeOverwriteGuard}"), ("Drop impl", D + "::make_drop_impl")],
  ["destructor log over operation sequences"])
p("C10", "Attribute arguments are accepted exactly per the documented grammar",
  "The attribute accepts a comma-separated list (trailing comma allowed) of `PinnedDrop`, `UnsafeUnpin`, `!Unpin`, `project = name`, `project_ref = name` and `project_replace [= name]`, each at most once, and rejects everything else with a compile error: any other identifier, duplicates, missing values, `UnsafeUnpin` with `!Unpin`, `PinnedDrop` with `project_replace`, two projections with the same name, a name equal to the annotated type's, and an unnamed `project_replace` on an enum.",
  ["inputs"], "every argument list up to the stated number of arguments, every identifier up to the stated length",
  "The stable tests contain only accepted lists; rejections are only in the trybuild suite, which does not run on stable.",
  [A, D], [("argument parser", A + "::Args::parse"), ("name clash with the type", D + "::Context::new"), ("unnamed project_replace on enums", D + "::parse_enum")],
  ["#[pin_project(...)] expansion"])
p("C11", "Unsupported items and misplaced #[pin] are rejected, others accepted",
  "The attribute rejects with a compile error every item other than a struct or enum, structs without fields, enums without variants, without any field or with explicit discriminants, types declared `#[repr(packed)]` in any spelling or combination with other representation hints (also if another macro adds it after the expansion and a field could be unaligned), a second pin_project attribute, and a #[pin] that is on the item or on a variant, repeated on a field, or given arguments. It accepts every other struct and enum, whatever the names, types, attributes and positions of the fields (names with two leading underscores are reserved for the expansion).",
  ["inputs", "programs"], "every item built from the stated grammar of items (kinds, field lists, attribute placements and contents, symbolic identifiers)",
  "The stable tests hold accepted items only; the trybuild suite does not run on stable.",
  [D, AT, U], [("struct and enum validation", D + "::validate_struct / validate_enum"), ("packed check", D + "::ensure_not_packed"), ("attribute lookup", U + "::SliceExt"), ("item kind check", AT + "::Input")],
  ["#[pin_project] expansion"])
p("C12", "#[pinned_drop] accepts exactly a well-formed pinned destructor",
  "The attribute accepts only an impl of the PinnedDrop trait for a named type that consists of the single safe function `drop` taking `self: Pin<&mut Self>` (Pin through any path, optionally `mut self`) and returning unit, and rejects every other impl with a compile error. The destructor it produces cannot be called from safe code, and its body is compiled as safe code.",
  ["inputs", "programs"], "every impl built from the stated grammar of impls (trait, items, signature, receiver type, return type, symbolic identifiers)",
  "The stable tests hold accepted impls only; the trybuild suite does not run on stable.",
  [PD], [("impl validation", PD + "::validate_impl"), ("signature validation", PD + "::validate_sig"), ("unsafe outer function", PD + "::expand_impl")],
  ["#[pinned_drop] expansion"])
p("C13", "Generated lifetime never clashes with a lifetime of the user's",
  "The lifetime which the projection types carry as their additional first parameter, and which the generated methods introduce, is different from every lifetime named anywhere in the annotated declaration: its lifetime parameters and lifetimes bound by `for<...>` in bounds, where clauses and field types.",
  ["inputs"], "every combination of lifetime names up to the stated number and length, in every declaring position",
  "tests/pin_project.rs::overlapping_lifetime_names tries three fixed names.",
  [U, D], [("fresh name", U + "::determine_lifetime_name"), ("use of the name", D + "::Context::new")],
  ["generics of the projection types"])
p("C14", "Projections are as visible as the type, but at most crate-visible",
  "Each projection type and projection method is accessible from exactly those modules of the defining crate from which the annotated type is nameable by its declared visibility, and never from another crate. Each field of a projection type has the visibility declared for the original field.",
  ["programs", "configurations"], "every observer module in a module tree, every declared visibility of the type and of the fields",
  "tests/pin_project.rs::visibility covers a few positive cases; a too wide visibility cannot fail a test that compiles.",
  [U, D], [("visibility of projections", U + "::determine_visibility"), ("field visibility", D + "::visit_fields")],
  ["visibility of projection types, methods, fields"])
p("C15", "`self` and `Self` keep their meaning inside a pinned destructor",
  "In the body of a function under #[pinned_drop], `self` denotes the pinned reference passed in and `Self` the implementing type with its generic arguments, in every syntactic position: expressions, patterns, paths, types, closures, macro arguments (unless they contain the token `fn`) and locally defined macros. Everything else in the body is left as written, names with two leading underscores excepted.",
  ["inputs", "programs"], "every value of the fields, over the stated family of bodies; every identifier up to the stated length in the stated positions",
  "tests/pinned_drop.rs has a handful of bodies, most of them only compiled.",
  [PD, U], [("receiver replacement", U + "::ReplaceReceiver"), ("inner function", PD + "::expand_impl")],
  ["behaviour of the destructor", "#[pinned_drop] expansion"])
p("C16", "The macros never panic; bad input gives a compile error",
  "For every input on which the macros are invoked, they return normally: either the expansion or tokens that contain a compile_error invocation. They never panic, overflow, index out of bounds or touch memory incorrectly.",
  ["inputs"], "every argument list, item and impl built from the stated grammars",
  "The stable tests never feed invalid input to the macros.",
  [A, AT, D, PD, U], [("error propagation", "pin-project-internal/src/pin_project/mod.rs"), ("impl item kinds", PD + "::validate_impl")],
  ["macro entry points"])
p("C17", "The annotated item itself is left exactly as the user wrote it",
  "The expansion contains the user's struct or enum with the same visibility, generics, where clauses, attributes, variants, fields and field types, in the same order; the macro only adds items and helper attributes next to it.",
  ["inputs", "programs"], "every item built from the stated grammar of items, symbolic identifiers",
  "Tests use the items but compare none of them with what was written.",
  [AT], [("re-emission of the item", AT + "::parse_attribute")],
  ["#[pin_project] expansion"])
p("C18", "Methods and projection types exist exactly as documented",
  "For a struct `project` and `project_ref` are always generated and `project_replace` exactly if that argument is given; for an enum each of the three exists exactly if its projection type is named. A given name is the name of the public projection type beside the annotated type, whose generics are those of the annotated type preceded by one lifetime (no lifetime for the replaced projection), and no other type becomes nameable.",
  ["programs", "inputs"], "all argument combinations, all kinds of items and names up to the stated length",
  "Tests use existing methods; only one compile_fail doc-test checks an absence.",
  [D], [("methods", D + "::make_proj_impl"), ("projection items", D + "::parse_struct / parse_enum")],
  ["items of the expansion"])
p("C19", "Projections borrow for exactly as long as their receiver",
  "Each reference in the value returned by `project` or `project_ref` lives exactly as long as the borrow in the `Pin` it was called on: safe code can keep it for that whole lifetime, and can neither keep it for longer nor use the original while a projection is alive.",
  ["programs"], "every choice of lifetimes by the caller, every field of the stated family of declarations",
  "A run-time test cannot observe a lifetime; a projection that outlives its borrow compiles in every test.",
  [D], [("method signatures", D + "::make_proj_impl"), ("lifetime of the projected fields", D + "::visit_fields"), ("projection's generics", D + "::Context::new")],
  ["signatures of project() and project_ref()"])
p("C20", "The expansion works whatever else is in scope at the use site",
  "Whether an annotated item (or a #[pinned_drop] impl) compiles, and what its expansion refers to, does not depend on the names of other items in scope: user types, traits, modules, functions, constants, statics or macros may have any name, including those of core's and pin-project's own items, and a crate may even call itself `pin_project`. Names with two leading underscores and `_pin_project` are reserved, and so is the name of a field for constants, statics and unit structs, as in any pattern.",
  ["inputs", "programs"], "every name up to the stated length, over the stated family of declarations and arguments",
  "The tests shadow a few names in one file (tests/pin_project.rs, no_std/no_core checks); other names and positions are not tried.",
  [D, PD, U], [("absolute paths", D), ("private re-exports", L + "::__private"), ("generated identifiers", D + "::visit_fields / make_drop_impl")],
  ["#[pin_project] and #[pinned_drop] expansion"])
p("C21", "The expansion triggers no lints in the user's crate",
  "An annotated declaration compiles without warnings under any lint levels under which the declaration alone does (including forbid(unsafe_code), deny(warnings), missing_docs and clippy's groups), as far as the lints concern code the user did not write.",
  ["programs"], "every lint level and every declaration",
  "The lint tests fix one list of lints and a few dozen declarations.",
  [D, AT], [("lint attributes on generated items", D + "::global_allowed_lints / proj_allowed_lints")],
  ["#[pin_project] expansion"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
