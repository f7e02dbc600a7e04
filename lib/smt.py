"""Propositional/integer constraints as SMT-LIB text, decided by the z3 binary (cross-checked with cvc5)."""
import os, re, time
import common as C

T, F = "true", "false"


def And(*xs):
    out = []
    for x in xs:
        if x == F:
            return F
        if x == T:
            continue
        if isinstance(x, tuple) and x[0] == "and":
            out += x[1:]
        else:
            out.append(x)
    out = list(dict.fromkeys(out))
    return T if not out else out[0] if len(out) == 1 else ("and", *out)


def Or(*xs):
    out = []
    for x in xs:
        if x == T:
            return T
        if x == F:
            continue
        if isinstance(x, tuple) and x[0] == "or":
            out += x[1:]
        else:
            out.append(x)
    out = list(dict.fromkeys(out))
    return F if not out else out[0] if len(out) == 1 else ("or", *out)


def Not(x):
    return T if x == F else F if x == T else x[1] if isinstance(x, tuple) and x[0] == "not" else ("not", x)


def Iff(a, b):
    return T if a == b else ("=", a, b)


def Implies(a, b):
    return Or(Not(a), b)


def show(e):
    return e if isinstance(e, str) else "(" + " ".join(show(x) for x in e) + ")"


class Problem:
    """A list of independent queries, run in one solver process each way."""

    def __init__(self):
        self.names = {}      # text -> symbol
        self.sorts = {}
        self.queries = []    # (label, [assertions])

    def var(self, text, sort="Bool"):
        if text not in self.names:
            self.names[text] = f"v{len(self.names)}"
            self.sorts[self.names[text]] = sort
        return self.names[text]

    def ask(self, label, *assertions):
        self.queries.append((label, list(assertions)))

    def syms(self, e, acc):
        if isinstance(e, str):
            if e in self.sorts:
                acc.add(e)
        else:
            for x in e[1:]:
                self.syms(x, acc)
        return acc

    def text(self):
        s = ["(set-option :produce-models true)", "(set-logic ALL)"]
        for v, so in self.sorts.items():
            s.append(f"(declare-const {v} {so})")
        for i, (label, qs) in enumerate(self.queries):
            s.append("(push 1)")
            for a in qs:
                s.append(f"(assert {show(a)})")
            s.append(f"(echo \"query {i}\")")
            s.append("(check-sat)")
            vs = sorted(set().union(*[self.syms(a, set()) for a in qs])) if qs else []
            if vs:
                s.append("(echo \"model\")")
                s.append("(get-value (" + " ".join(vs) + "))")
            s.append("(pop 1)")
        return "\n".join(s) + "\n"

    def solve(self, rep, name):
        """[(label, 'sat'|'unsat', {text: value})]"""
        d = os.path.join(C.WORK, "smt")
        p = os.path.join(d, name + ".smt2")
        C.write(p, self.text())
        back = {v: k for k, v in self.names.items()}

        def go(cmd):
            t = time.time()
            r = C.run(cmd + [p], timeout=600)
            out = []
            for blk in re.split(r"(?m)^\"?query \d+\"?$", r.stdout)[1:]:
                verdict = blk.split()[0] if blk.split() else "none"
                m = {}
                if verdict == "sat":
                    for v, val in re.findall(r"\((v\d+) (\(- \d+\)|[\w.]+)\)", blk):
                        m[back[v]] = val
                out.append((verdict, m))
            return out, time.time() - t
        out, secs = go(["z3"])
        if len(out) != len(self.queries) or any(v not in ("sat", "unsat") for v, _ in out):
            raise C.Broken(f"solver gives no verdict on {p}: {[v for v, _ in out][:5]} ({len(out)} of {len(self.queries)})")
        rep.add("queries", len(out))
        rep.ev["solver_s"] += secs
        rep.add("sat", sum(1 for v, _ in out if v == "sat"))
        rep.add("unsat", sum(1 for v, _ in out if v == "unsat"))
        other, secs2 = go(["cvc5", "--incremental", "--lang", "smt2", "--produce-models"])
        if [v for v, _ in other] != [v for v, _ in out]:
            raise C.Broken(f"z3 and cvc5 disagree on {p}")
        cs = rep.ev.setdefault("cross_solver", {"solver": "cvc5 1.1.2", "queries": 0, "agree": 0, "seconds": 0.0})
        cs["queries"] += len(other)
        cs["agree"] += len(other)
        cs["seconds"] = round(cs["seconds"] + secs2, 3)
        return [(l, v, m) for (l, _), (v, m) in zip(self.queries, out)]
