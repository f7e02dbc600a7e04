"""Impl overlap as rustc decides it: two impls conflict unless a bound of theirs is known to fail, now and in every
compatible future version of the other crates."""
import common as C
from tyck import conv, subst, match, SIZED

FUNDAMENTAL = ("alloc::boxed::Box", "core::pin::Pin")


def clash(p, t, s, vs):
    """Unification that leaves parameters of either side open."""
    if t[0] == "param":
        return True
    if p[0] == "param":
        if p[1] in vs:
            if p[1] in s and s[p[1]][0] != "param":
                return clash(s[p[1]], t, {}, ()) if s[p[1]] != t else True
            s[p[1]] = t
        return True
    if p[0] == "const" or t[0] == "const":
        if p[0] != t[0]:
            return False
        if p[1] in vs:
            s[("const", p[1])] = t
            return True
        return p[1] == t[1] or not (p[1].isdigit() and t[1].isdigit())
    if p[0] == "alias" or t[0] == "alias":
        return True
    if p[0] != t[0] or len(p) != len(t):
        return False
    if p[0] in ("fnptr", "other", "dyn", "prim"):
        return p == t
    for a, b in zip(p[1:], t[1:]):
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a and isinstance(a[0], str):
                if not clash(a, b, s, vs):
                    return False
            elif len(a) != len(b) or not all(clash(x, y, s, vs) for x, y in zip(a, b)):
                return False
        elif a != b:
            return False
    return True


class Coherence:
    def __init__(self, solver, facts):
        self.s = solver
        self.extra = []          # (trait, args) assumed implemented
        self.local = {a["id"] for a in facts["adts"] if a["local"]}

    def flat(self, t):
        if t[0] == "ref":
            return self.flat(t[2])
        if t[0] == "adt" and t[1] in FUNDAMENTAL:
            return self.flat(t[2][0])
        return [t]

    def knowable(self, trait, args):
        tys = [x for a in args if a[0] not in ("lt", "const") for x in self.flat(a)]
        if any(t[0] in ("param", "alias", "other") for t in tys):
            return False
        tr = self.s.traits.get(trait)
        if tr is None:
            return False
        if tr["local"] or tr["fundamental"]:
            return True
        return any(t[0] == "adt" and t[1] in self.local for t in tys)

    def norm(self, t):
        """(type, settled?)"""
        if not isinstance(t, tuple):
            return t, True
        out, ok = [], True
        for x in t:
            if isinstance(x, tuple):
                y, o = self.norm(x)
                ok &= o
                out.append(y)
            else:
                out.append(x)
        t = tuple(out)
        if t and t[0] == "alias":
            if not self.knowable(t[1], t[3]):
                return t, False
            n = self.s.norm(t)
            return n, ok and n[0] != "alias"
        return t, ok

    def may(self, trait, args, stack=()):
        if trait in SIZED:
            return True
        nargs = []
        for a in args:
            n, ok = self.norm(a)
            if not ok:
                return True
            nargs.append(n)
        args = tuple(nargs)
        key = (trait, args)
        if key in stack:
            return True
        if len(stack) > 30:
            return True
        st = stack + (key,)
        if args[0][0] in ("param", "alias", "other") or not self.knowable(trait, args):
            return True
        for tr, ar in self.extra:
            if tr == trait and all(clash(a, b, {}, ()) for a, b in zip(ar, args)):
                return True
        tr = self.s.traits[trait]
        head = False
        t = args[0]
        for i in self.s.impls.get(trait, []):
            h = i["cargs"][0]
            if h[0] == t[0] and (h[0] != "adt" or h[1] == t[1]):
                head = True
            s = {}
            if i["positive"] and all(clash(a, b, s, i["vs"]) for a, b in zip(i["cargs"], args)):
                if all(self.may(q, tuple(subst(x, s) for x in ar), st) for q, ar in i["cpreds"]):
                    return True
        if tr["auto"] and not head:
            return self.structural(trait, t, st)
        return False

    def structural(self, trait, t, st):
        k = t[0]
        if k == "tuple":
            return all(self.may(trait, (x,), st) for x in t[1])
        if k in ("array", "slice"):
            return self.may(trait, (t[1],), st)
        if k == "dyn":
            return trait in t[2]
        if k == "adt":
            a = self.s.adts[t[1]]
            e = self.s.env(t[1], t[2])
            if a["phantom"]:
                return all(self.may(trait, (x,), st) for x in t[2] if x[0] not in ("lt", "const"))
            return all(self.may(trait, (subst(f, e),), st) for v in self.s.fields_of(t[1]) for f in v)
        return True

    def conflicts(self, i, args):
        """Does an impl for args of i's trait conflict with impl i?"""
        s = {}
        if not all(clash(a, b, s, i["vs"]) for a, b in zip(i["cargs"], args)):
            return False
        self.s.used.add(i["id"])
        return all(self.may(q, tuple(subst(x, s) for x in ar)) for q, ar in i["cpreds"])
