#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds.py and confirms each one in a scratch copy:
usage: seed.py [-k regex]   builds, passes the stable tests, demo 0 without and nonzero with the patch, and (-c) which checks fire."""
import sys, os, re, shutil, subprocess, tempfile, json
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds import SEEDS
DEMO = '''#!/bin/bash
# Builds main.rs (beside this file) against the crate in the current directory, in a scratch folder, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
elasticlunr-rs = { path = "$repo", features = [%s] }
serde_json = "1"
[workspace]
T
cd "$d" || exit 3
CARGO_TARGET_DIR="$d/target" cargo run --offline -q
'''
NEG = ''' || exit 1
# outside.rs must not compile: it changes what only the crate may change
if [ -f "$here/outside.rs" ]; then
    cp "$here/outside.rs" "$d/src/main.rs"
    if CARGO_TARGET_DIR="$d/target" cargo check --offline -q 2>/dev/null; then
        echo "a program outside the crate compiles that alters the index behind its operations" >&2
        exit 1
    fi
fi
exit 0
'''


def sh(c, cwd, **k): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)


def main():
    a = sys.argv[1:]
    k = a[a.index("-k") + 1] if "-k" in a else "."
    for s in SEEDS:
        if not re.search(k, s["id"]): continue
        out = os.path.join(ROOT, "seeded", s["id"]); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
        try:
            sh("git -C /repo archive HEAD | tar x -C %s" % d, "/"); sh("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm base", d)
            open(out + "/main.rs", "w").write(s["main"]); open(out + "/demo.sh", "w").write((DEMO.rstrip("\n") + NEG if s.get("outside") else DEMO) % ", ".join('"%s"' % f for f in s.get("features", [])))
            if s.get("outside"): open(out + "/outside.rs", "w").write(s["outside"])
            os.chmod(out + "/demo.sh", 0o755)
            before = sh("bash %s/demo.sh" % out, d)
            for f, old, new in s["edits"]:
                p = os.path.join(d, f); t = open(p).read()
                assert t.count(old) == 1, (s["id"], f, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            open(out + "/patch.diff", "w").write(sh("git diff", d).stdout)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
            after = sh("bash %s/demo.sh" % out, d)
            t = sh("cargo test --offline -q --all-features", d, env=dict(os.environ, CARGO_TARGET_DIR="/tmp/vartarget"))
            tail = ""
            if t.returncode: tail = " TESTS: " + " ".join(l for l in (t.stdout + t.stderr).splitlines() if "FAILED" in l or l.startswith("error"))[:300]
            fired = und = ""
            if "-c" in a:
                allp = sh("python3 %s/vf/check.py --list" % ROOT, "/").stdout.split()
                o = sh("python3 %s/vf/check.py %s" % (ROOT, " ".join(allp)), "/", env=dict(os.environ, VF_REPO=d, VF_EVIDENCE=d + "/.ev")).stdout
                fired = ",".join(sorted(set(re.findall(r"VIOLATION property=(\w+)", o)))); und = ",".join(sorted(set(re.findall(r"UNDECIDED property=(\w+)", o))))
            ok = before.returncode == 0 and after.returncode not in (0, 3) and t.returncode == 0 and "error" not in after.stderr.split("panicked")[0]
            caught = s["property"] in fired
            print("%-28s %s %s demo %d -> %d fired=%s und=%s%s" % (s["id"], "ok " if ok else "BAD", "caught" if caught else "MISSED", before.returncode, after.returncode, fired, und, tail))
            if not ok: print(before.stderr[-600:], after.stderr[-600:])
        finally: shutil.rmtree(d, ignore_errors=True)


main()
