#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines id, prop, needs, breaks, edits=[(path, old, new[, count])], demo (Rust main.rs) or sh.
Makes the change in a scratch copy of /repo, checks it builds, passes the stable tests, and that the demo
separates the two trees; then writes /verif/seeded/<id>/."""
import sys, os, subprocess, shutil, json, tempfile
S = {}
exec(open(sys.argv[1]).read(), S)
V = "/verif/seeded/" + S["id"]
W = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
R = W + "/repo"
env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
def sh(cmd, cwd, **k): return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
try:
    subprocess.check_call(["cp", "-a", "/repo", R])
    assert sh("git checkout -q -- . && git status --short", R).stdout.strip() == ""
    for e in S["edits"]:
        p, old, new = e[:3]; n = e[3] if len(e) > 3 else 1
        t = open(R + "/" + p).read()
        assert t.count(old) == n, (p, old, t.count(old))
        open(R + "/" + p, "w").write(t.replace(old, new))
    diff = subprocess.check_output(["git", "diff"], cwd=R, text=True)
    import re
    for f in {e[0] for e in S["edits"]}:
        bl = subprocess.check_output(["git", "blame", "-s", "HEAD", "--", f], cwd="/repo", text=True).splitlines()
        d = subprocess.check_output(["git", "diff", "-U0", "--", f], cwd=R, text=True)
        ours = [(int(n) + i) for n, c in re.findall(r"^@@ -(\d+)(?:,(\d+))?", d, re.M) for i in range(int(c) if c else 1) if not bl[int(n) + i - 1].startswith("^ff8da8e")]
        if ours: print("WARNING: lines not of the original repository:", f, ours)
    r = sh("cargo test --offline --no-fail-fast 2>&1 | tail -40", R)
    ok = r.stdout.count("7 passed; 0 failed") >= 1
    base = json.load(open("/opt/vp/BASELINE.json"))
    if not ok: print(r.stdout); print("TESTS FAIL"); sys.exit(1)
    os.makedirs(V, exist_ok=True)
    open(V + "/patch.diff", "w").write(diff)
    json.dump({"property": S["prop"], "needs": S["needs"], "what_it_breaks": S["breaks"]}, open(V + "/meta.json", "w"), indent=1)
    if "sh" in S: open(V + "/demo.sh", "w").write(S["sh"])
    else:
        open(V + "/demo.rs", "w").write(S["demo"])
        open(V + "/demo.sh", "w").write('''#!/bin/bash
# builds demo.rs against the tree in the current directory (hooks on) in a scratch directory and runs it
D="$(cd "$(dirname "$0")" && pwd)"; R="$(pwd)"
T="$(mktemp -d)"; trap 'rm -rf -- "$T"' EXIT
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
mkdir -p "$T/src"; cp "$D/demo.rs" "$T/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\nav1enc = { path = "%s" }\\nnum = "*"\\n' "$R" > "$T/Cargo.toml"
cd "$T" && RUSTFLAGS="--cfg av1enc_verif -Awarnings" CARGO_TARGET_DIR="$T/target" timeout 200 cargo run --offline --quiet
''')
    os.chmod(V + "/demo.sh", 0o755)
    a = sh("bash %s/demo.sh" % V, "/repo"); b = sh("bash %s/demo.sh" % V, R)
    print(S["id"], "clean:", a.returncode, "patched:", b.returncode)
    if a.returncode != 0: print(a.stdout[-1500:])
    if b.returncode == 0: print("NOT SEPARATED")
    else: print("  ", b.stdout.strip().splitlines()[-1][:200] if b.stdout.strip() else "")
    if a.returncode != 0 or b.returncode == 0:
        shutil.rmtree(V); sys.exit(1)
finally:
    shutil.rmtree(W)
