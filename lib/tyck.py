"""Trait obligations over rustc's facts as propositional formulas; what is not determined by the crate
(is the parameter T Unpin?) is a variable."""
import common as C
from smt import *

UNPIN, DROP = "core::marker::Unpin", "core::ops::drop::Drop"
UNSAFE_UNPIN, PINNED_DROP = "pin_project::UnsafeUnpin", "pin_project::__private::PinnedDrop"
SIZED = ("core::marker::Sized", "core::marker::MetaSized", "core::marker::PointeeSized")


def conv(t, lts=False):
    """JSON type -> hashable. Lifetimes are dropped unless lts."""
    k = t["k"]
    if k == "adt":
        return ("adt", t["id"], tuple(conv(a, lts) for a in t["args"]))
    if k == "ref":
        return ("ref", t["mut"], conv(t["ty"], lts), t["lt"] if lts else "")
    if k == "ptr":
        return ("ptr", t["mut"], conv(t["ty"], lts))
    if k == "tuple":
        return ("tuple", tuple(conv(a, lts) for a in t["tys"]))
    if k == "array":
        return ("array", conv(t["ty"], lts), t["len"])
    if k == "slice":
        return ("slice", conv(t["ty"], lts))
    if k == "param":
        return ("param", t["name"])
    if k == "lt":
        return ("lt", t["name"] if lts else "")
    if k == "const":
        return ("const", t["name"])
    if k == "prim":
        return ("prim", t["name"])
    if k == "fnptr":
        return ("fnptr", t["name"])
    if k == "dyn":
        return ("dyn", t["name"], tuple(t["autos"]) + tuple(t["supers"]))
    if k == "alias":
        return ("alias", t["trait"], t["assoc"], tuple(conv(a, lts) for a in t["args"]), t["name"])
    return ("other", t["name"])


def subst(t, s):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "param":
        return s.get(t[1], t)
    if t[0] == "const" and ("const", t[1]) in s:
        return s[("const", t[1])]
    return tuple(subst(x, s) if isinstance(x, tuple) else x for x in t)


def match(p, t, s, vs):
    """One-way matching of an impl's header p, vs being its parameters."""
    if p[0] == "param" and p[1] in vs:
        if p[1] in s:
            return s[p[1]] == t
        s[p[1]] = t
        return True
    if p[0] == "const" and p[1] in vs:
        k = ("const", p[1])
        if k in s:
            return s[k] == t
        s[k] = t
        return t[0] == "const"
    if p[0] != t[0] or len(p) != len(t):
        return False
    if p[0] in ("fnptr", "other", "dyn"):
        return p == t
    for a, b in zip(p[1:], t[1:]):
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a and isinstance(a[0], str):  # a type; otherwise a list of types
                if not match(a, b, s, vs):
                    return False
            else:
                if len(a) != len(b) or not all(match(x, y, s, vs) for x, y in zip(a, b)):
                    return False
        elif a != b:
            return False
    return True


def pretty(t):
    k = t[0]
    if k == "adt":
        n = t[1].split("::")[-1]
        a = [pretty(x) for x in t[2] if x[0] != "lt"]
        return n + ("<" + ", ".join(a) + ">" if a else "")
    if k == "ref":
        return "&" + ("mut " if t[1] else "") + pretty(t[2])
    if k == "ptr":
        return "*" + ("mut " if t[1] else "const ") + pretty(t[2])
    if k == "tuple":
        return "(" + ", ".join(pretty(x) for x in t[1]) + ")"
    if k == "array":
        return f"[{pretty(t[1])}; {t[2]}]"
    if k == "slice":
        return f"[{pretty(t[1])}]"
    if k == "alias":
        return f"<{', '.join(pretty(x) for x in t[3])}>::{t[2].split('::')[-1]}"
    return str(t[1]) if len(t) > 1 else k


class Solver:
    def __init__(self, facts, problem):
        self.p = problem
        self.adts = {a["id"]: a for a in facts["adts"]}
        self.traits = {t["id"]: t for t in facts["traits"]}
        self.impls = {}
        for i in facts["impls"]:
            i["cargs"] = tuple(conv(a) for a in i["args"])
            i["vs"] = {g[1] for g in i["generics"] if g[0] != "lt"}
            i["cpreds"] = [(q["trait"], tuple(conv(a) for a in q["args"])) for q in i["preds"] if q["k"] == "trait" and q["positive"]]
            i["cassoc"] = {k: conv(v) for k, v in i["assoc"]}
            self.impls.setdefault(i["trait"], []).append(i)
        self.fields = {}
        self.memo = {}
        self.scope = ""
        self.used = set()

    def norm(self, t):
        """Normalises associated types that an impl determines."""
        if not isinstance(t, tuple):
            return t
        t = tuple(self.norm(x) if isinstance(x, tuple) else x for x in t)
        if t and t[0] == "alias":
            for i in self.impls.get(t[1], []):
                s = {}
                if i["positive"] and len(i["cargs"]) <= len(t[3]) and all(match(a, b, s, i["vs"]) for a, b in zip(i["cargs"], t[3])) and t[2] in i["cassoc"]:
                    self.used.add(i["id"])
                    return self.norm(subst(i["cassoc"][t[2]], s))
        return t

    def fields_of(self, aid):
        if aid not in self.fields:
            a = self.adts[aid]
            self.fields[aid] = [[conv(f["ty"]) for f in v["fields"]] for v in a["variants"]]
        return self.fields[aid]

    def env(self, aid, args):
        g = self.adts[aid]["generics"]
        s = {}
        for (k, n), a in zip(g, args):
            if k == "type":
                s[n] = a
            elif k == "const":
                s[("const", n)] = a
        return s

    def atom(self, trait, args):
        return self.p.var(f"{self.scope}{trait.split('::')[-1]}: " + ", ".join(pretty(a) for a in args))

    def holds(self, trait, args, stack=()):
        if trait in SIZED:
            return T
        args = tuple(self.norm(a) for a in args)
        key = (trait, args)
        if key in stack:
            # auto traits are coinductive, all others inductive
            return T if all(self.traits.get(k[0], {}).get("auto") for k in stack[stack.index(key):]) else F
        mk = (self.scope, key)
        if mk in self.memo:
            return self.memo[mk]
        if len(stack) > 40:
            raise C.Broken(f"obligation too deep: {trait} {args}")
        st = stack + (key,)
        self.cyc = getattr(self, "cyc", 0)
        before = self.cyc
        r = self.compute(trait, args, st)
        if not stack:
            self.memo[mk] = r
        return r

    def compute(self, trait, args, st):
        t = args[0]
        if t[0] in ("param", "alias", "other") and t[0] != "adt":
            extra = [self.by_impl(i, args, st) for i in self.impls.get(trait, []) if i["positive"] and i["cargs"][0][0] == "param"]
            if t[0] == "other":
                return self.atom(trait, args)
            return Or(self.atom(trait, args), *extra)
        if trait not in self.traits:
            return self.atom(trait, args)
        auto = self.traits[trait]["auto"]
        alts, head = [], False
        for i in self.impls.get(trait, []):
            h = i["cargs"][0]
            if h[0] == t[0] and (h[0] != "adt" or h[1] == t[1]):
                head = True
            if i["positive"]:
                alts.append(self.by_impl(i, args, st))
        if auto and not head:
            alts.append(self.structural(trait, t, st))
        return Or(*alts)

    def by_impl(self, i, args, st):
        s = {}
        if not all(match(a, b, s, i["vs"]) for a, b in zip(i["cargs"], args)):
            return F
        self.used.add(i["id"])
        return And(*[self.holds(tr, tuple(subst(a, s) for a in ar), st) for tr, ar in i["cpreds"]])

    def structural(self, trait, t, st):
        k = t[0]
        if k in ("prim", "fnptr", "ref", "ptr"):
            return T
        if k == "tuple":
            return And(*[self.holds(trait, (x,), st) for x in t[1]])
        if k in ("array", "slice"):
            return self.holds(trait, (t[1],), st)
        if k == "dyn":
            return T if trait in t[2] else F
        if k == "adt":
            a = self.adts.get(t[1])
            if a is None:
                raise C.Broken("unknown type " + t[1])
            e = self.env(t[1], t[2])
            if a["phantom"]:
                return And(*[self.holds(trait, (x,), st) for x in t[2] if x[0] not in ("lt", "const")])
            return And(*[self.holds(trait, (subst(f, e),), st) for v in self.fields_of(t[1]) for f in v])
        return self.atom(trait, (t,))

    def assume_wf(self, aid):
        """The type's own bounds hold of its parameters."""
        out = []
        for q in self.adts[aid]["preds"]:
            if q["k"] == "trait" and q["positive"] and q["trait"] not in SIZED:
                out.append(self.holds(q["trait"], tuple(conv(a) for a in q["args"])))
        return And(*out)
