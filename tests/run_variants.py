#!/usr/bin/env python3
"""Runs the checks on edited copies of the repository (copies under /tmp, removed afterwards).
usage: run_variants.py [-k regex] [-c C01,C02] [-t]     (-t: also build and run the stable tests)
Variants live in variants_*.py: V(name, kind, edits, expect) where kind is "bug" or "same", edits is a
list of (file, old, new), expect the properties that must report (bug) - a "same" variant must be quiet."""
import sys, os, re, shutil, subprocess, importlib, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = "/repo"
CHK = os.path.join(os.path.dirname(HERE), "vf/check.py")


def load():
    out = []
    for f in sorted(os.listdir(HERE)):
        if f.startswith("variants_") and f.endswith(".py"): out += importlib.import_module(f[:-3]).VARIANTS
    return out


def prepare(v):
    d = tempfile.mkdtemp(prefix="var_" + re.sub(r"\W", "_", v["name"]) + "_", dir="/tmp")
    for n in os.listdir(REPO):
        if n in ("target", ".git"): continue
        s = os.path.join(REPO, n)
        (shutil.copytree if os.path.isdir(s) else shutil.copy2)(s, os.path.join(d, n))
    for f, old, new in v["edits"]:
        p = os.path.join(d, f)
        t = open(p).read()
        if old is None: t = t + new
        else:
            if t.count(old) != 1: return d, "edit of %s matches %d times: %r" % (f, t.count(old), old[:60])
            t = t.replace(old, new)
        open(p, "w").write(t)
    return d, None


def one(v, props, test):
    d, e = prepare(v)
    try:
        if e: return v, "BADEDIT", e, {}
        env = dict(os.environ, VF_REPO=d, VF_EVIDENCE=os.path.join(d, ".ev"))
        if test:
            p = subprocess.run(["cargo", "test", "--offline", "-q", "--all-features"], cwd=d, env=dict(os.environ, CARGO_TARGET_DIR="/tmp/vartarget"), capture_output=True, text=True)
            if p.returncode: return v, "TESTFAIL", "\n".join([l for l in (p.stdout + p.stderr).splitlines() if "FAILED" in l or "error" in l or "panicked" in l][:5]), {}
        res = {}
        p = subprocess.run([sys.executable, CHK] + props, env=env, capture_output=True, text=True)
        out = p.stdout
        if "does not build" in out: return v, "NOBUILD", out[:1500], {}
        viol = sorted(set(re.findall(r"VIOLATION property=(\w+)", out)))
        und = sorted(set(re.findall(r"UNDECIDED property=(\w+)", out)))
        return v, viol, und, out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    k = a[a.index("-k") + 1] if "-k" in a else "."
    allp = subprocess.run([sys.executable, CHK, "--list"], capture_output=True, text=True).stdout.split()
    props = allp
    if "-c" in a: props = a[a.index("-c") + 1].split(",")
    elif "-q" in a: props = [p for p in allp if p not in ("C14", "C21", "C22", "C34")]
    vs = [v for v in load() if re.search(k, v["name"])]
    bad = 0
    with cf.ThreadPoolExecutor(max_workers=1 if "-t" in a else 6) as ex:
        for v, viol, und, out in ex.map(lambda v: one(v, props, "-t" in a), vs):
            if isinstance(viol, str): print("%-34s %s %s" % (v["name"], viol, und)); bad += 1; continue
            exp = set(v.get("expect", ())) & set(props)
            good = (not viol) if v["kind"] == "same" else (set(viol) & set(v["expect"])) or not exp
            st = "ok  " if good else ("MISS" if v["kind"] == "bug" else "FALSE ALARM")
            if not good: bad += 1
            print("%-34s %-4s %s  fired=%s expect=%s undecided=%s" % (v["name"], v["kind"], st, ",".join(viol), ",".join(v.get("expect", ())), ",".join(und)))
            if "-v" in a or (not good and v["kind"] == "same"): print("\n".join(l[:300] for l in out.splitlines() if l.startswith(("  [", "UNDEC")))[:2500])
    print("%d variants, %d not as expected" % (len(vs), bad))


if __name__ == "__main__": main()
