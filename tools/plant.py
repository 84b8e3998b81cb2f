"""Plant bugs: python3 tools/plant.py confirm|try|all <id>... (developer tool, works in /tmp/plant)."""
import json, os, subprocess, sys, shutil
V = "/verif"; W = "/tmp/plant"; H = "/tmp/planth"
DEMO = '''#!/bin/bash
# Runs main.rs against the object crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/main.rs" "$t/src/main.rs" || exit 2
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
object = { path = "$repo", features = ["unstable-all"] }
@EXTRA@
[profile.dev]
debug = 0
EOF
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo run -q --offline
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def prepare():
    if not os.path.exists(W):
        sh(f"cp -a /repo {W}")
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh(f"git -C {W} fetch -q /repo HEAD && git -C {W} checkout -q -f {head}")
    sh(f"git -C {W} checkout -q -f -- .")
def new(id, prop, edits, main, needs, breaks, extra=""):
    """edits: [(file, old, new)]"""
    prepare()
    d = f"{V}/seeded/{id}"
    for f, a, b in edits:
        s = open(f"{W}/{f}").read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(f"{W}/{f}", "w").write(s.replace(a, b))
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(sh(f"git -C {W} diff").stdout)
    open(f"{d}/main.rs", "w").write(main)
    ex = 'object-rewrite = { path = "$repo/crates/rewrite" }' if "object_rewrite" in main else ""
    open(f"{d}/demo.sh", "w").write(DEMO.replace("@EXTRA@", ex + extra))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
    prepare()
    confirm(id)
def confirm(id):
    d = f"{V}/seeded/{id}"
    prepare()
    r = sh(f"bash {d}/demo.sh", cwd=W)
    if r.returncode != 0:
        print(id, "BAD: demo fails on the clean tree", r.stdout[-1500:], r.stderr[-3000:]); return False
    r = sh(f"git -C {W} apply {d}/patch.diff")
    if r.returncode: print(id, "BAD: patch", r.stderr); return False
    for f in ["build.sh", "test.sh", "env.sh"]:
        s = open(f"/opt/vp/{f}").read().replace("cd /repo", f"cd {W}").replace("/opt/vp/env.sh", "/tmp/plant.env.sh").replace("/repo/", W + "/")
        open(f"/tmp/plant.{f}", "w").write(s)
    r = sh("bash /tmp/plant.build.sh")
    if r.returncode: print(id, "BAD: build", r.stderr[-2000:]); return False
    sh("bash /tmp/plant.test.sh /tmp/plant.out.json")
    o = json.load(open("/tmp/plant.out.json")); b = json.load(open("/opt/vp/BASELINE.json"))
    miss = set(b["stable"]) - set(o["passed"])
    if miss: print(id, "BAD: tests fail", sorted(miss)[:5]); prepare(); return False
    r = sh(f"bash {d}/demo.sh", cwd=W)
    ok = r.returncode != 0 and "could not compile" not in r.stderr
    print(id, "CONFIRMED" if ok else "BAD: demo passes with the patch", r.stderr.strip()[-300:].replace("\n", " | "))
    prepare()
    return ok
def tryit(id, checks=None, tier="quick"):
    d = f"{V}/seeded/{id}"
    prepare()
    r = sh(f"git -C {W} apply {d}/patch.diff")
    assert r.returncode == 0, r.stderr
    os.makedirs(H, exist_ok=True)
    sh(f"cp -a {V}/harness {V}/env.sh {V}/check.sh {V}/known-findings.txt {H}/; mkdir -p {H}/evidence {H}/replays; sed -i s,/repo,{W},g {H}/harness/Cargo.toml")
    for c in checks or [json.load(open(f"{d}/meta.json"))["property"]]:
        r = sh(f"VH_REPO={W} bash {H}/check.sh {c} {tier}")
        v = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "shrunk" in l]
        print(id, c, "CAUGHT" if r.returncode == 1 and v else f"MISSED rc={r.returncode}", (v[0] if v else r.stdout[-400:])[:300], flush=True)
    prepare()
if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    ids = ids or sorted(os.listdir(f"{V}/seeded"))
    for i in ids:
        if cmd in ("confirm", "all"): confirm(i)
        if cmd in ("try", "all"): tryit(i)
