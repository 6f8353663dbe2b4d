#!/usr/bin/env python3
"""mkseed.py SPEC.py [ids...]  -- build and validate planted bugs.
SPEC.py defines SEEDS: list of dict(id, property, edits=[(file, old, new)], needs, breaks, demo)."""
import sys, os, subprocess, json, pathlib, shutil, runpy
R = "/repo"; V = pathlib.Path("/verif")
DEMO_SH = '''#!/bin/bash
# Exit 0 when the demonstration passes, nonzero when it fails.  Run with cwd /repo.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
sed "s#REPO#$PWD#" "$D/demo.rs" > "$W/src/main.rs"
cp Cargo.lock "$W/Cargo.lock" 2>/dev/null
cat > "$W/Cargo.toml" <<'T'
[package]
name = "geos-rs"
version = "0.1.0"
edition = "2021"
[dependencies]
rand = "0.8.5"
[workspace]
T
cd "$W" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/target" cargo run --offline -q
'''
HEAD = '''#![allow(dead_code, unused, non_snake_case)]
#[path = "REPO/src/core/mod.rs"]
mod core;
'''
def run(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
base = json.load(open("/opt/vp/BASELINE.json"))
def main():
    specs = runpy.run_path(sys.argv[1])["SEEDS"]
    want = set(sys.argv[2:])
    assert run("git -C /repo status --porcelain").stdout.strip() == "", "repo dirty"
    for s in specs:
        if want and s["id"] not in want: continue
        d = V / "seeded" / s["id"]
        if d.exists() and not want and (d / "ok").exists(): continue
        try:
            for f, old, new in s["edits"]:
                p = pathlib.Path(R) / f
                t = p.read_text()
                assert t.count(old) == 1, (s["id"], f, "anchor count", t.count(old))
                p.write_text(t.replace(old, new))
            diff = run("git -C /repo diff").stdout
        finally:
            run("git -C /repo checkout -- .")
        d.mkdir(parents=True, exist_ok=True)
        (d / "patch.diff").write_text(diff)
        (d / "demo.rs").write_text(HEAD + s["demo"])
        (d / "demo.sh").write_text(DEMO_SH); os.chmod(d / "demo.sh", 0o755)
        (d / "meta.json").write_text(json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1))
        r0 = run("bash %s/demo.sh" % d, cwd=R)
        try:
            a = run("git -C /repo apply %s/patch.diff" % d); assert a.returncode == 0, a.stdout
            b = run("bash /opt/vp/build.sh", cwd=R)
            t = run("bash /opt/vp/test.sh /tmp/seed-test.json", cwd=R)
            r1 = run("bash %s/demo.sh" % d, cwd=R)
        finally:
            run("git -C /repo checkout -- .")
        res = json.load(open("/tmp/seed-test.json"))
        passed = set(res.get("passed", [])) if isinstance(res.get("passed"), list) else None
        need = set(base.get("passed", base.get("stable", [])) ) if isinstance(base, dict) else set(base)
        miss = (need - passed) if passed is not None else "?"
        ok = r0.returncode == 0 and r1.returncode != 0 and b.returncode == 0 and not miss
        print(s["id"], "OK" if ok else "BAD", "demo0=%d demo1=%d build=%d missing=%s" % (r0.returncode, r1.returncode, b.returncode, miss))
        if not ok: print(r0.stdout[-1500:] if r0.returncode else "", b.stdout[-1500:] if b.returncode else "")
    run("bash /opt/vp/build.sh", cwd=R)
main()
