#!/usr/bin/env python3
"""plant.py FILE.py…   each file defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(path, old, new)], MAIN (demo's main.rs).
Writes seeded/<ID>/ after confirming in /repo: builds, stable tests pass, demo passes without and fails with it.
plant.py --try ID…     applies seeded/<ID>/patch.diff, runs the property's check (or all with --all), undoes it."""
import json, os, subprocess, sys, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd /repo: a small program using the library, exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
. /opt/vp/env.sh; cd "$repo"
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir "$d/src"; cp "$here/main.rs" "$d/src/main.rs"; cp "$repo/Cargo.lock" "$d/" 2>/dev/null
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
keride = { path = "$repo" }
serde_json = { version = "~1", features = ["preserve_order"] }
T
export CARGO_TARGET_DIR="$d/target" CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_OPT_LEVEL=1
cargo build --offline --quiet --manifest-path "$d/Cargo.toml" 2> "$d/log" || { tail -30 "$d/log"; exit 2; }
timeout 120 "$d/target/debug/demo"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def undo():
    sh("git -C /repo checkout -- .")


def stable():
    r = sh("bash /opt/vp/build.sh")
    if r.returncode:
        return "build failed\n" + r.stdout[-3000:]
    sh("bash /opt/vp/test.sh /tmp/plant-out.json")
    out = json.load(open("/tmp/plant-out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    base = base["stable"]
    passed = set(out["passed"])
    missing = [t for t in base if t not in passed]
    return f"{len(missing)} stable tests fail: {missing[:5]}" if missing else ""


def touches_original():
    import re
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
    path = None
    for x in sh("git -C /repo diff -U0").stdout.splitlines():
        if x.startswith("--- a/"):
            path = x[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))?", x)
        if m and m[2] != "0":
            a, n = int(m[1]), int(m[2] or 1)
            for y in sh(f"git -C /repo blame -s -l -L {a},+{n} HEAD -- {path}").stdout.splitlines():
                if y.split()[0].lstrip("^")[:39] == base[:39]:
                    return True
    return False


def demo(d):
    r = sh(f"bash {d}/demo.sh", cwd="/repo", timeout=300)
    return r.returncode, r.stdout[-600:]


def plant(f):
    b = runpy.run_path(f)
    ID = b["ID"]
    d = f"{V}/seeded/{ID}"
    assert not sh("git -C /repo status --short").stdout.strip(), "/repo not clean"
    tmp = f"/tmp/plant-{ID}"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(f"{tmp}/main.rs", "w").write(b["MAIN"].lstrip())
    open(f"{tmp}/demo.sh", "w").write(b.get("DEMO", DEMO))
    os.chmod(f"{tmp}/demo.sh", 0o755)
    json.dump({"property": b["PROPERTY"], "needs": b["NEEDS"], "what_it_breaks": b["BREAKS"]}, open(f"{tmp}/meta.json", "w"), indent=1)
    try:
        rc, out = demo(tmp)
        if rc:
            return print(f"{ID}: demo fails on the unchanged tree ({rc}): {out}")
        for path, old, new in b["EDITS"]:
            s = open(f"/repo/{path}").read()
            assert s.count(old) >= 1, f"{ID}: not in {path}: {old}"
            if s.count(old) > 1 and not b.get("FIRST"):
                raise SystemExit(f"{ID}: {s.count(old)} times in {path}: {old}")
            open(f"/repo/{path}", "w").write(s.replace(old, new, 1))
        open(f"{tmp}/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        if not touches_original():
            return print(f"{ID}: changes no line of the original repository")
        e = stable()
        if e:
            return print(f"{ID}: {e}")
        rc, out = demo(tmp)
        if rc in (0, 2):
            return print(f"{ID}: demo does not fail with the patch ({rc}): {out}")
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(tmp, d)
        print(f"{ID}: planted ({out.strip().splitlines()[-1] if out.strip() else rc})")
    finally:
        undo()
        shutil.rmtree(tmp, ignore_errors=True)


def attempt(ID, every):
    d = f"{V}/seeded/{ID}"
    prop = json.load(open(f"{d}/meta.json"))["property"]
    assert not sh("git -C /repo status --short").stdout.strip(), "/repo not clean"
    try:
        r = sh(f"git -C /repo apply {d}/patch.diff")
        assert r.returncode == 0, r.stdout
        sys.path.insert(0, V)
        from vf import suites
        for p in (list(suites.ALL) if every else [prop]):
            r = sh(f"python3 {V}/check.py {p} quick", cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            hit = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            if not every or r.returncode:
                n = [x for x in r.stdout.splitlines() if "not allowed" in x]
                print(f"{ID} {p}: rc {r.returncode} {'CAUGHT' if hit and r.returncode == 1 else 'MISSED' if r.returncode == 0 else r.stdout[-500:]} {n[0] if n else ''}", flush=True)
    finally:
        undo()


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--try":
        every = "--all" in a
        for i in [x for x in a[1:] if x != "--all"]:
            attempt(i, every)
    else:
        for f in a:
            plant(f)
