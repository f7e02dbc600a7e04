"""Shared machinery: building, running the engine, replaying, evidence."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, "work"))
TOOLCHAIN = os.environ.get("VERIF_TOOLCHAIN", "stable")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


class Broken(Exception):
    """The check itself could not decide: error exit."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def env(toolchain=None, **kw):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = toolchain or TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(kw)
    return e


def run(cmd, cwd=None, timeout=None, **kw):
    return subprocess.run(cmd, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


def write(path, text):
    """Writes only on change, so that cargo does not rebuild needlessly."""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


_engine = None


def engine():
    """Builds the symbolic executor (from /verif/engine) and returns its path."""
    global _engine
    if _engine:
        return _engine
    tgt = os.path.join(WORK, "engine")
    for _ in range(2):
        r = run(["cargo", "build", "--release", "--offline", "--manifest-path", os.path.join(VERIF, "engine/Cargo.toml"), "--target-dir", tgt], env=env())
        if r.returncode == 0:
            break
    else:
        raise Broken("engine does not build:\n" + r.stderr[-3000:])
    _engine = os.path.join(tgt, "release/symll")
    return _engine


def rt_obj():
    o = os.path.join(WORK, "rt.o")
    os.makedirs(WORK, exist_ok=True)
    r = run(["gcc", "-O1", "-c", os.path.join(VERIF, "rt/rt.c"), "-o", o])
    if r.returncode != 0:
        raise Broken("rt.c does not compile: " + r.stderr)
    return o


def lockfile(d):
    """The dependency versions the repository itself is built with here."""
    src = os.path.join(VERIF, "rt/Cargo.lock.deps")
    return src if os.path.exists(src) else None


class Build:
    def __init__(self, ok, exe, ll, errors, stderr, seconds):
        self.ok, self.exe, self.ll, self.errors, self.stderr, self.seconds = ok, exe, ll, errors, stderr, seconds


def cargo_ll(crate, name, opt=0, extra=(), toolchain=None):
    """Builds a bin crate to a native executable and whole-program LLVM IR. errors: [(line, rendered)]"""
    t0 = time.time()
    tgt = os.path.join(crate, "target")
    for p in glob.glob(os.path.join(tgt, "release/deps", name.replace("-", "_") + "-*.ll")):
        os.remove(p)
    cmd = ["cargo", "rustc", "--release", "--offline", "--message-format=json", "--bin", name, "--target-dir", tgt, "--", "--emit=llvm-ir,link", "-Clink-arg=" + rt_obj(), "-Awarnings", "--cap-lints=allow", *extra]
    r = run(cmd, cwd=crate, env=env(toolchain), timeout=800)
    errs = []
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            msg = m["message"]
            lines = set()

            def spans(x):
                while x:
                    lines.add((x["file_name"], x["line_start"]))
                    e = x.get("expansion")
                    x = e["span"] if e else None
            for sp in msg["spans"]:
                if sp["is_primary"]:
                    spans(sp)
            errs.append((sorted(lines), msg.get("rendered") or msg["message"], m["target"]["name"]))
    exe = os.path.join(tgt, "release", name)
    ll = glob.glob(os.path.join(tgt, "release/deps", name.replace("-", "_") + "-*.ll"))
    ok = r.returncode == 0 and len(ll) == 1
    if r.returncode == 0 and len(ll) != 1:
        # nothing was rebuilt: force
        os.utime(os.path.join(crate, "src/main.rs"))
        return cargo_ll(crate, name, opt, extra, toolchain)
    return Build(ok, exe, ll[0] if ll else None, errs, r.stderr, time.time() - t0)


def symll(ll, prefix=None, entries=None, timeout=600, threads=8, extra=()):
    out = ll + ".json"
    cmd = [engine(), "--ll", ll, "--out", out, "--timeout", str(timeout), "--threads", str(threads), *extra]
    if prefix:
        cmd += ["--prefix", prefix]
    if entries:
        cmd += ["--entry", ",".join(entries)]
    r = run(cmd, timeout=timeout + 240)
    if r.returncode != 0:
        raise Broken("engine failed: " + r.stderr[-2000:])
    return json.load(open(out))


def replay_native(exe, entry, values, timeout=60):
    """Runs the model against the compiled code. Returns (reproduced, description)."""
    e = dict(os.environ)
    e["SYM_VALUES"] = ",".join(str(v) for v in values)
    e["RUST_BACKTRACE"] = "0"
    try:
        r = run([exe, entry], env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        return True, "does not terminate"
    err = r.stderr
    if r.returncode == 77:
        return False, "assumption false natively"
    m = re.search(r"SYM-ASSERT-FAIL (\d+)", err)
    if m:
        return True, f"native run fails assertion {m.group(1)}"
    if r.returncode != 0:
        ok = re.findall(r"SYM-ABORT-OK (\d)", err)
        if r.returncode < 0 and ok and ok[-1] == "1":
            return False, "native abort, expected"
        return True, f"native run ends with status {r.returncode}: " + err.strip().splitlines()[-1][:300] if err.strip() else f"status {r.returncode}"
    return False, "native run passes"


def replay_valgrind(exe, entry, values, timeout=120):
    e = dict(os.environ)
    e["SYM_VALUES"] = ",".join(str(v) for v in values)
    try:
        r = run(["valgrind", "-q", "--error-exitcode=43", exe, entry], env=e, timeout=timeout)
    except (subprocess.TimeoutExpired, FileNotFoundError):
        return False, "valgrind not conclusive"
    return r.returncode == 43, f"valgrind status {r.returncode}: " + r.stderr.strip()[:500]


def demangle(names):
    r = run(["llvm-cxxfilt-18"] if shutil.which("llvm-cxxfilt-18") else ["c++filt"], input="\n".join(names))
    return r.stdout.splitlines() if r.returncode == 0 else names


class Report:
    """Collects what a check covered and found; writes the evidence; decides the exit status."""

    def __init__(self, pid, tier, technique):
        self.pid, self.tier, self.technique = pid, tier, technique
        self.t0 = time.time()
        self.ev = {"functions": set(), "bounds": [], "queries": 0, "sat": 0, "unsat": 0, "solver_s": 0.0, "paths": 0, "assertions": 0, "assertions_symbolic": 0, "notes": [], "samples": []}
        self.viol = []
        self.known = []

    def add(self, key, n):
        self.ev[key] = self.ev.get(key, 0) + n

    def violation(self, text, data):
        self.viol.append((text, data))

    def finish(self):
        from evidence import write_evidence
        os.makedirs(os.path.join(WORK, "replay"), exist_ok=True)
        lines = []
        for i, (text, data) in enumerate(self.viol[:5]):
            p = os.path.join(WORK, "replay", f"{self.pid}-{i}.json")
            with open(p, "w") as f:
                json.dump({"property": self.pid, "what": text, **data}, f, indent=1, default=str)
            lines.append((p, text))
        write_evidence(self, lines)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        for p, text in lines:
            print(f"VIOLATION property={self.pid} replay={p}")
            print("  " + text.replace("\n", "\n  ")[:2000])
        if not lines:
            print(f"OK property={self.pid}: {self.ev['paths']} paths, {self.ev['assertions']} assertions, {self.ev['queries']} solver queries, {time.time() - self.t0:.1f} s")
        return 1 if lines else 0
