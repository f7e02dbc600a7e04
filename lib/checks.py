import common as C
import fam, ha, names, rtcheck, special
from macchecks import *
from tychecks import *


COMMON = {
    200: "a destructor runs on memory that holds no value of the field's type",
    201: "a value is dropped twice",
    202: "a value is dropped that must not be dropped by this operation",
    203: "a pinned value is dropped at another address than the one it was pinned at",
}
M01 = {
    **COMMON,
    1: "project returns another variant", 2: "project: a field refers to other memory", 3: "project: a field is another field of the original", 4: "project: a field does not hold the original's value",
    5: "after project, the original is of another variant", 6: "after a write through project, a field is another", 7: "a write through project is not what a read of the original sees",
    11: "project_ref returns another variant", 12: "project_ref: a field refers to other memory", 13: "project_ref: a field is another field of the original", 14: "project_ref: a field does not hold the original's value",
    15: "after project_ref, the original is of another variant", 16: "project_ref changed a field", 17: "project_ref changed a value",
    21: "a second project returns another variant", 22: "a second project refers to other memory", 24: "a second project reads another value",
    30: "a projection dropped something", 31: "dropping the original does not drop its fields exactly once",
}
M06 = {
    **COMMON,
    1: "a panic of a #[pin] field's destructor is lost, or there is one without cause", 2: "a second panic during unwinding does not abort",
    3: "the place does not hold the replacement's variant", 4: "the place holds a field that is not the replacement's", 5: "the place holds a value that is not the replacement's",
    6: "a #[pin] field of the old value is not dropped exactly once", 7: "a #[pin] field of the old value is not dropped in place", 8: "a #[pin] field of the old value is changed before it is dropped",
    9: "the #[pin] fields are not dropped in declaration order", 10: "an unmarked field of the old value is not dropped exactly on panic", 11: "an unmarked field of the old value is changed before it is dropped",
    12: "something besides the #[pin] fields is dropped", 13: "a value is returned although a destructor panicked", 14: "no value is returned",
    15: "another variant is returned", 16: "a #[pin] field's place in the result has a size", 17: "a #[pin] field is returned by value", 18: "an unmarked field is not returned by value",
    19: "another field is returned", 20: "a field is returned with another value", 21: "a field of the old value is not dropped exactly once overall", 22: "a field of the replacement is not dropped exactly once overall",
}
M08 = {
    **COMMON,
    1: "the pinned destructor is not called with the value itself", 2: "a field is dropped before the pinned destructor has run", 3: "the pinned destructor sees another variant", 4: "the pinned destructor sees another field", 5: "the pinned destructor sees another value",
    6: "something is dropped early", 7: "a panic of a destructor is lost, or there is one without cause", 8: "not exactly the pinned destructor and every field's destructor have run", 9: "the pinned destructor does not run first",
    10: "the fields are not dropped in declaration order", 11: "a field is not dropped exactly once", 12: "a field is dropped at another address", 13: "a field is changed before it is dropped",
}
M09 = {
    **COMMON,
    1: "project_ref does not show the current fields in place", 2: "project does not show the current fields in place", 3: "a panic of a destructor is lost on assignment, or there is one without cause", 4: "the assigned-over value is not dropped exactly once",
    5: "a panic of a #[pin] field's destructor is lost by project_replace, or there is one without cause", 6: "project_replace does not return an unmarked field", 7: "project_replace returns a #[pin] field", 8: "project_replace returns another value",
    9: "a field of the replaced value is not dropped exactly once", 20: "the place is of another variant than was stored", 21: "the place holds another field than was stored", 22: "the place holds another value than was stored",
    30: "a panic is lost in the final drop, or there is one without cause", 31: "a value is not dropped exactly once over the history", 32: "something else is dropped over the history",
}
FAMILY = "declarations: structs with named and tuple fields, every placement of #[pin] up to {n} fields and patterned placements up to {big} fields; enums with up to {vs} variants (unit, tuple and named), every placement of #[pin] over two and three fields per variant; type, lifetime and const parameters with bounds, where clauses and defaults; raw and reserved-looking field names; repr and other attributes; field types with and without destructor, without size, of alignment 1, 8 and 16; the same type written as parenthesised, path, alias, projection, macro call or `$t:ty`; tuples, arrays, options, wrappers, references, raw and function pointers; for C01 and C08 also unsized tails (slice, trait object), nested annotated types, references, arrays, tuples, function and raw pointers, cfg and cfg_attr on fields and variants"
OUTSIDE = ["declarations beyond the family (the expansion treats fields one by one; acceptance of other field types, attributes and generics is decided by C11, their types by C02)", "field types other than the tracked ones; more than the stated number of fields or variants"]
ASSUME = ["a destructor that panics is modelled by one non-deterministic flag per field value", "allocation does not fail"]


def bounds(rep, tier, *more):
    rep.ev["bounds"] += [FAMILY.format(n=4 if tier == "quick" else 5, big=18 if tier == "quick" else 32, vs=18 if tier == "quick" else 26), "field values: all 2^64 each; variant: every one", *more]
    rep.ev["outside"] = OUTSIDE
    rep.ev["assumptions"] = ASSUME


def named(rep, pid, k, gen, reach, msgs):
    """The same on declarations with names on which the expansion turns out to depend."""
    mods = names.runtime(names.suspects(rep, k), gen)
    if not mods:
        return
    # a name that clashes with the harness tells nothing
    b, live, bad = rtcheck.build(rep, pid, mods, "nm")
    if b:
        rtcheck.explore(rep, b, live, need_reach=reach, msgs=msgs)


def C01(rep, tier):
    bounds(rep, tier, "one project, one project_ref and a second project per value, with a write of any value to every field in between")
    mods = [(d.key, ha.c01(d), d.describe()) for d in fam.family(tier)] + special.mods(special.C01)
    b, live, bad = rtcheck.build(rep, "c01", mods)
    rtcheck.report_bad(rep, bad, mods, "cannot be projected")
    if b:
        rtcheck.explore(rep, b, live, need_reach=(1, 2), msgs=M01)
    named(rep, "c01", names.DEFAULT, ha.c01, (1, 2), M01)


def C06(rep, tier):
    bounds(rep, tier, "one project_replace per value, from every variant to every variant")
    mods = [(d.key, ha.c06(d, False), d.describe()) for d in fam.family(tier)]
    b, live, bad = rtcheck.build(rep, "c06", mods)
    rtcheck.report_bad(rep, bad, mods, "cannot be replaced")
    if b:
        rtcheck.explore(rep, b, live, need_reach=(1, 3, 4), msgs=M06)
    named(rep, "c06", names.DEFAULT, lambda d: ha.c06(d, False), (1, 3, 4), M06)


def few(d, tier):
    """Declarations for checks that branch over panicking destructors as well."""
    if len(d.variants) > (7 if tier == "quick" else 12):
        return False
    return d.maxn <= 4 or (d.key.endswith(("alt", "third")) or d.key[0] == "M") and d.maxn <= (9 if tier == "quick" else 18)


def C07(rep, tier):
    bounds(rep, tier, "one project_replace per value; any set of the old value's destructors panics (above four fields: any at most two)")
    mods = [(d.key, ha.c06(d, True), d.describe()) for d in fam.family(tier) if few(d, tier)]
    b, live, bad = rtcheck.build(rep, "c07", mods)
    rtcheck.report_bad(rep, bad, mods, "cannot be replaced")
    if b:
        rtcheck.explore(rep, b, live, need_reach=(1, 3, 4), msgs=M06)
    named(rep, "c07", names.DEFAULT, lambda d: ha.c06(d, True), (1, 3, 4), M06)


def C08(rep, tier):
    bounds(rep, tier, "one drop per value; any set of its destructors panics (above four fields: any at most two, and the pinned destructor)")
    ds = [d for d in fam.family(tier) if few(d, tier)]
    for kind, pd in (("", True), ("n", False)):
        mods = [(d.key, ha.c08(d, pd), d.describe() + (" with PinnedDrop" if pd else " without PinnedDrop")) for d in ds] + (special.mods(special.C08) if pd else [])
        b, live, bad = rtcheck.build(rep, "c08", mods, kind)
        rtcheck.report_bad(rep, bad, mods, "cannot be dropped")
        if b:
            rtcheck.explore(rep, b, live, need_reach=(1, 2), msgs=M08)
    named(rep, "c08", names.DROP, lambda d: ha.c08(d, True), (1, 2), M08)


def hist(tier):
    V, S = fam.mkvar, "struct"
    T, N = True, False
    ds = [
        fam.Decl("s_pu", S, [V(None, "named", [T, N])], names=False),
        fam.Decl("s_up", S, [V(None, "tuple", [N, T])]),
        fam.Decl("s_pp", S, [V(None, "tuple", [T, T])], names=False),
        fam.Decl("s_pup", S, [V(None, "named", [T, N, T])]),
        fam.Decl("g_pu", S, [V(None, "named", [T, N], ty="T")], gen="<T>", inst="<F>"),
        fam.Decl("e_pu_u", "enum", [V("Va", "named", [T, N]), V("Vb", "tuple", [N]), fam.Variant("Vc", "unit", [])]),
        fam.Decl("e_p_up", "enum", [V("Va", "tuple", [T]), V("Vb", "tuple", [N, T])]),
    ]
    return ds


def C09(rep, tier):
    def steps(d):
        return (3 if tier == "quick" else 4) - (1 if d.maxn > 2 else 0)
    rep.ev["bounds"] += [f"histories of up to {3 if tier == 'quick' else 4} operations (one fewer for three fields) out of: looking through project and project_ref, assigning any field, writing any values through project, project_replace with any variant; then the final drop", "in each operation at most one destructor of the current value panics, any one", "declarations: seven structs and enums with up to three fields and variants, with and without PinnedDrop", "field values: all 2^64 each"]
    rep.ev["outside"] = ["longer histories; two panicking destructors in one operation (C07 and C08)", *OUTSIDE]
    rep.ev["assumptions"] = ASSUME
    for kind, pd in (("", False), ("d", True)):
        mods = [(d.key, ha.c09(d, steps(d), pd), d.describe() + f" over histories of {steps(d)} operations" + (" with PinnedDrop" if pd else "")) for d in hist(tier)]
        b, live, bad = rtcheck.build(rep, "c09", mods, kind)
        rtcheck.report_bad(rep, bad, mods, "cannot be used")
        if b:
            rtcheck.explore(rep, b, live, need_reach=(2, 10, 11, 12) + (() if pd else (13,)), msgs=M09)
    named(rep, "c09", names.DEFAULT, lambda d: ha.c09(d, 1, False), (2,), M09)


CHECKS = {k: v for k, v in globals().items() if k[:1] == "C" and k[1:].isdigit() and callable(v)}
