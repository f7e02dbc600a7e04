#!/usr/bin/env python3
"""tools/seed.py <seed-id> [--check ID ...] [--no-tests]: validates a planted bug in a scratch copy of /repo and runs checks against it.

Development only; no registered command uses it."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seedwork"
REPO = S + "/repo"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")


def sh(cmd, cwd=None, env=ENV, timeout=1800):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


def fresh():
    os.makedirs(S, exist_ok=True)
    rc, o = sh(f"rm -rf {REPO} && mkdir -p {REPO} && cd /repo && git archive HEAD | tar x -C {REPO}")
    assert rc == 0, o


def tests():
    ws = S + "/ws"
    sh(f"rm -rf {ws} && cp -a {REPO} {ws} && rm -f {ws}/tests/compiletest.rs {ws}/tests/expandtest.rs && sed -E -i '/^(macrotest|trybuild) *= *\\{{.*git *=/d' {ws}/Cargo.toml && cp /opt/vp/ws.Cargo.lock {ws}/Cargo.lock")
    rc, o = sh(f"cargo test --workspace --no-fail-fast --offline --target-dir {S}/target -- --test-threads 8", cwd=ws)
    open(S + "/test.log", "w").write(o)
    base = json.load(open("/opt/vp/BASELINE.json"))
    return rc, o


def demo(d, cwd):
    tmp = S + "/demo"
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(d, tmp, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    return sh(f"bash {tmp}/demo.sh", cwd=cwd, timeout=300)


def main():
    sid = sys.argv[1]
    d = os.path.join(V, "seeded", sid)
    meta = json.load(open(d + "/meta.json"))
    checks = [a for a in sys.argv[2:] if not a.startswith("--")] or [meta["property"]]
    if "--check-only" not in sys.argv:
        fresh()
        rc, o = demo(d, REPO)
        print("demo on unchanged:", rc)
        if rc:
            print(o[-1500:])
    fresh()
    rc, o = sh(f"patch -p1 -s < {d}/patch.diff", cwd=REPO)
    assert rc == 0, o
    if "--check-only" not in sys.argv:
        rc, o = tests()
        print("tests with patch:", rc, [l for l in o.splitlines() if l.startswith("test ") and "FAILED" in l][:10])
        if rc:
            print(o[-1500:])
        rc, o = demo(d, REPO)
        print("demo with patch:", rc, o[-400:].replace("\n", "\n   "))
    for c in checks:
        env = dict(ENV, VERIF_REPO=REPO, VERIF_WORK=S + "/work")
        rc, o = sh(f"python3 {V}/check.py {c}", env=env)
        print(f"check {c}: exit {rc}\n   " + o[:900].replace("\n", "\n   "))


main()
