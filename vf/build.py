"""Builds the MIR driver and the dependencies of /repo's crate, and runs the driver on /repo's
current source for a given set of cargo features."""
import fcntl, hashlib, json, os, subprocess, sys, tomllib, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
TARGET = os.path.join(BUILD, "target")
DRIVER_TARGET = os.path.join(BUILD, "driver")
TOOLCHAIN = "+nightly"


class BuildError(Exception):
    pass


def _run(cmd, env=None, cwd=None):
    e = dict(os.environ)
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR",
              "CARGO_BUILD_TARGET_DIR", "RUSTC", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    if env:
        e.update(env)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return p


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        p = _run(["rustc", TOOLCHAIN, "--print", "sysroot"])
        if p.returncode:
            raise BuildError("no nightly toolchain: " + p.stderr[-500:])
        _sysroot = p.stdout.strip()
    return _sysroot


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def driver():
    with Lock():
        p = _run(["cargo", TOOLCHAIN, "build", "--offline", "--quiet"],
                 env={"CARGO_TARGET_DIR": DRIVER_TARGET}, cwd=os.path.join(VERIF, "driver"))
    if p.returncode:
        raise BuildError("driver does not build:\n" + p.stderr[-3000:])
    return os.path.join(DRIVER_TARGET, "debug", "mirdump")


def manifest():
    with open(os.path.join(REPO, "Cargo.toml"), "rb") as f:
        return tomllib.load(f)


def feature_closure(m, feats):
    """cfg(feature=...) values cargo would set for the given features."""
    table = dict(m.get("features", {}))
    for name, d in m.get("dependencies", {}).items():
        if isinstance(d, dict) and d.get("optional") and name not in table:
            explicit = any(("dep:" + name) in v for v in table.values())
            if not explicit:
                table[name] = ["dep:" + name]
    out, todo = set(), list(feats)
    while todo:
        f = todo.pop()
        if f.startswith("dep:") or "/" in f:
            if "/" in f and not f.startswith("dep:"):
                todo.append(f.split("/")[0].rstrip("?"))
            continue
        if f in out or f not in table:
            continue
        out.add(f)
        todo += table[f]
    return sorted(out)


def lang_features(m):
    return sorted(m.get("features", {}).get("languages", []))


_deps = None


def deps():
    """Paths of the built dependencies: list of (extern name, rmeta/rlib path)."""
    global _deps
    if _deps is not None:
        return _deps
    with Lock():
        p = _run(["cargo", TOOLCHAIN, "check", "--offline", "--lib", "--features", "languages",
                  "--message-format=json", "--manifest-path", os.path.join(REPO, "Cargo.toml")],
                 env={"CARGO_TARGET_DIR": TARGET}, cwd=REPO)
    res, exact = {}, set()
    err = []
    for line in p.stdout.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get("reason") == "compiler-artifact":
            t = d["target"]
            if "proc-macro" not in t.get("kind", []):
                # what was built for a build script is another artifact (an rlib) of the same name
                fns = [fn for fn in d["filenames"] if fn.endswith(".rmeta")]
                only = len(fns) == len(d["filenames"])
                if fns:
                    res.setdefault("*", []).extend(fns)
                    nm = t["name"].replace("-", "_")
                    if nm not in res or only and nm not in exact: res[nm] = fns[0]
                    if only: exact.add(nm)
                continue
            for fn in d["filenames"]:
                if fn.endswith((".rmeta", ".rlib", ".so")):
                    if t["name"].replace("-", "_") != "elasticlunr":
                        res.setdefault("*", []).append(fn)
                    res.setdefault(t["name"].replace("-", "_"), fn)
        if d.get("reason") == "compiler-message" and d["message"].get("level") == "error":
            err.append(d["message"].get("rendered", ""))
    if p.returncode:
        raise BuildError("the crate does not compile:\n" + "".join(err)[:3000] + p.stderr[-1500:])
    _deps = res
    return res


def dump(features, tag=None, lint=None):
    """Runs the driver on /repo's current source with these cargo features; returns the dump."""
    m = manifest()
    drv = driver()
    d = deps()
    feats = feature_closure(m, features)
    names = {}
    for name, spec in m.get("dependencies", {}).items():
        names[name.replace("-", "_")] = 1
    lib = m.get("lib", {})
    crate = lib.get("name", m["package"]["name"]).replace("-", "_")
    src = os.path.join(REPO, lib.get("path", "src/lib.rs"))
    work = tempfile.mkdtemp(prefix="mir", dir=BUILD)
    out = os.path.join(work, "dump.json")
    args = [drv, "--crate-name", crate, "--edition=" + m["package"].get("edition", "2015"),
            src, "--crate-type", "lib", "--emit=metadata", "--out-dir", work,
            "-C", "debug-assertions=on", "-C", "overflow-checks=on", "-Zmir-opt-level=0", "-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums",
            "-Zalways-encode-mir",
            "--cap-lints", "warn"] + (["--force-warn", lint] if lint else ["-A", "warnings"]) + ["--sysroot", sysroot()]
    for f in feats:
        args += ["--cfg", 'feature="%s"' % f]
    for dn in sorted({os.path.dirname(x) for x in d["*"]}):
        args += ["-L", "dependency=" + dn]
    for n in names:
        if n in d:
            args += ["--extern", n + "=" + d[n]]
    env = {"LD_LIBRARY_PATH": os.path.join(sysroot(), "lib"), "MIRDUMP_OUT": out,
           "CARGO_MANIFEST_DIR": REPO, "CARGO_PKG_VERSION": m["package"].get("version", ""),
           "CARGO_PKG_NAME": m["package"].get("name", ""), "CARGO_CRATE_NAME": crate}
    v = m["package"].get("version", "0.0.0").split(".")
    for k, x in zip(("MAJOR", "MINOR", "PATCH"), v):
        env["CARGO_PKG_VERSION_" + k] = x
    try:
        p = _run(args, env=env, cwd=REPO)
        if p.returncode or not os.path.exists(out):
            raise BuildError("the driver failed on features %s:\n%s" % (feats, p.stderr[-3000:]))
        with open(out) as f:
            j = json.load(f)
    finally:
        for fn in os.listdir(work):
            os.unlink(os.path.join(work, fn))
        os.rmdir(work)
    j["features"] = feats
    j["stderr"] = p.stderr
    return j


if __name__ == "__main__":
    import time
    t = time.time()
    j = dump(sys.argv[2].split(",") if len(sys.argv) > 2 and sys.argv[2] else ["languages"])
    print({k: (len(v) if hasattr(v, "__len__") else v) for k, v in j.items()}, time.time() - t, file=sys.stderr)
    if len(sys.argv) > 1:
        json.dump(j, open(sys.argv[1], "w"))
