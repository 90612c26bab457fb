#!/usr/bin/env python3
"""Development helper (no check uses it): plant one bug in /repo, confirm it compiles, passes the stable tests,
fails its demonstration, then undo it and store it under seeded/.
A spec file defines ID, PROP, EDITS=[(file, old, new)], DEMO (Rust main.rs), NEEDS, BREAKS."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("PLANT_REPO", "/repo")   # with another one only the demonstration is tried
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMOSH = r'''#!/bin/bash
# cwd: the repository. Exit 0 when the behaviour is right, nonzero when it is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/main.rs" "$t/src/main.rs" || exit 2
cp Cargo.lock "$t/Cargo.lock" 2>/dev/null
cat > "$t/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
DEPS
[workspace]
END
cd "$t" || exit 2
CARGO_TARGET_DIR="$t/target" timeout 200 cargo run --offline -q
'''
DEPS = 'object = { path = "$repo", default-features = false, features = ["read", "write", "build", "std"] }'
def plant(spec):
    ns = {}
    exec(open(spec).read(), ns)
    deps = ns.get("DEPS", DEPS)
    ID = ns["ID"]
    assert sh("git -C %s status --porcelain" % R).stdout == "", "repo dirty"
    d = os.path.join(V, "seeded", ID)
    os.makedirs(d, exist_ok=True)
    open(d + "/main.rs", "w").write(ns["DEMO"])
    open(d + "/demo.sh", "w").write(DEMOSH.replace("DEPS", deps))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    r = sh("bash %s/demo.sh" % d, cwd=R)
    if r.returncode:
        print(ID, "DEMO FAILS ON CLEAN TREE\n", r.stdout[-3000:]); return False
    try:
        for f, old, new in ns["EDITS"]:
            p = os.path.join(R, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(ID, "edit matches", s.count(old), "times in", f); return False
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C %s diff" % R).stdout)
        if R != "/repo":
            r = sh("bash %s/demo.sh" % d, cwd=R)
            print(ID, "TRIED", r.returncode, r.stdout.strip().splitlines()[-6:]); return True
        b = sh("bash /opt/vp/build.sh")
        if b.returncode:
            print(ID, "DOES NOT BUILD\n", b.stdout[-3000:]); return False
        sh("bash /opt/vp/test.sh /tmp/plant-out.json")
        o = json.load(open("/tmp/plant-out.json"))
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        passed = set(o.get("passed", []))
        if not base <= passed:
            print(ID, "TESTS FAIL:", sorted(base - passed)[:8]); ok = False
        r = sh("bash %s/demo.sh" % d, cwd=R)
        if r.returncode == 0:
            print(ID, "DEMO PASSES WITH THE BUG"); ok = False
        else:
            print(ID, "demo with bug:", r.stdout.strip().splitlines()[-3:])
        if ok and "--check" in sys.argv:
            r = sh("timeout 900 python3 run.py %s 2>&1 | grep -E 'VIOLATION|CHECK-ERROR|harness|^exit' | head -5" % ns["PROP"], cwd=V)
            print(ID, "CHECK:", r.stdout[:900])
    finally:
        sh("git -C %s checkout -- ." % R)
    print(ID, "OK" if ok else "REJECTED")
    return ok
for s in [a for a in sys.argv[1:] if not a.startswith("--")]:
    plant(s)
