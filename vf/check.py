#!/usr/bin/env python3
"""Decides one property on the current source of the repository.
usage: check.py <property id> [...]   |   check.py --list"""
import sys, os, json, time, importlib, resource, threading, ctypes
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
ROOT = os.path.dirname(HERE)
sys.setrecursionlimit(20000)
import threading

MODULES = ["p_store", "p_inv", "p_index", "p_pipe", "p_lang", "p_serde", "p_struct", "p_panic", "p_stem", "p_words"]


def rules():
    R = {}
    for m in MODULES:
        if os.path.exists(os.path.join(HERE, m + ".py")): R.update(importlib.import_module(m).RULES)
    return R


def known(pid):
    """known findings of a property: violation keys"""
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if not os.path.exists(p): return out
    for l in open(p):
        l = l.rstrip("\n")
        if not l.startswith("finding: "): continue
        head, text = l[9:].split(" | ", 1)
        pr, key = head.split(" ", 1)
        if pr == "property=" + pid: out[key.strip()] = text
    return out


def title(pid):
    for l in open(os.path.join(ROOT, "properties.jsonl")):
        d = json.loads(l)
        if d["id"] == pid: return d
    return {}


class OutOfTime(BaseException):
    def __str__(self): return "the analysis took longer than %d s" % BUDGET


BUDGET = int(os.environ.get("VF_BUDGET", "300"))


def run(pid):
    t0 = time.time()
    import build, base
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    R = rules()
    src_err = None
    try: J = build.dump(["languages"] if "languages" in build.manifest().get("features", {}) else build.lang_features(build.manifest()))
    except build.BuildError as e:
        print("the tree does not build: %s" % str(e)[-1500:])
        J, src_err = None, e
    viol, incon, cx = [], [], None
    if J is not None:
        cx = base.Ctx(pid, J)
        cx.tier = tier
        cx.F = base.Fields(J)
        cx.index_run = make_index_run(cx)
        # whatever the code looks like, the check ends with an answer: what is not decided in time is undecided
        clock = threading.Timer(BUDGET, ctypes.pythonapi.PyThreadState_SetAsyncExc, (ctypes.c_ulong(threading.get_ident()), ctypes.py_object(OutOfTime)))
        clock.daemon = True
        clock.start()
        resource.setrlimit(resource.RLIMIT_AS, (16 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
        try:
            try: R[pid](cx)
            finally: clock.cancel()
        except (Exception, OutOfTime) as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            cx.undecided("the analyser gave up: %s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
            if os.environ.get("VF_DEBUG"): traceback.print_exc()
        viol, incon = cx.viol, cx.incon
    K = known(pid)
    EV = os.environ.get("VF_EVIDENCE") or os.path.join(ROOT, "evidence")
    os.makedirs(EV, exist_ok=True)
    newv, knownv = [], []
    for v in viol:
        (knownv if v[0] in K else newv).append(v)
    for k in sorted({v[0] for v in knownv}):
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, K[k]))
    for t in incon: print("UNDECIDED property=%s %s" % (pid, t[:400]))
    if newv:
        rp = os.path.join(EV, pid + ".violations.txt")
        with open(rp, "w") as f:
            f.write("%s %s\n%s\n\n" % (pid, title(pid).get("title", ""), title(pid).get("statement", "")))
            for key, where, text in newv:
                f.write("[%s] at %s\n    %s\n" % (key, where, text))
        for key, where, text in newv[:12]: print("  [%s] at %s: %s" % (key, where, text[:900]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    ok = sum(1 for o in (cx.oblig if cx else []) if o[2])
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": {
              "explanation": "Static rule decided on the MIR of the current source (no execution): " + (cx.rule if cx else "the tree did not build"),
              "rule": cx.rule if cx else "",
              "obligations": len(cx.oblig) if cx else 0, "discharged": ok,
              "undecided": incon, "functions_analysed": sorted(cx.functions)[:400] if cx else [],
              "functions": len(cx.functions) if cx else 0, "abstract_paths": cx.paths if cx else 0, "call_sites_evaluated": cx.calls if cx else 0,
              "known_findings": sorted({v[0] for v in knownv}),
              "samples": [{"rule": r, "construct": w, "holds": o} for r, w, o in (cx.oblig if cx else [])[:40]],
              "notes": cx.notes if cx else []},
          "assumptions": ["rustc's MIR, type and layout information of the pinned nightly toolchain", "the models of std, regex, serde and rust_stemmers operations in vf/model.py, vf/rx.py and vf/serde_model.py",
                          "counters of 64 bits do not overflow"],
          "wall_s": round(time.time() - t0, 2), "violations": len(newv)}
    with open(os.path.join(EV, pid + ".json"), "w") as f: json.dump(ev, f, indent=1, ensure_ascii=False)
    if J is None: return 2
    print("%s: %d obligations, %d hold, %d undecided, %d violations, %.1f s" % (pid, len(cx.oblig), ok, len(incon), len(newv), time.time() - t0))
    return 1 if newv else 0


def make_index_run(cx):
    import base
    memo = {}

    def f(path, selfval=None, **kw):
        k = (path, selfval)
        if k not in memo:
            memo[k] = base.run_fn(cx, path, anchors=(base.ADD_TOKEN, base.PIPE_RUN), selfval=selfval, **kw)
        return memo[k]
    return f


def main():
    if sys.argv[1:] == ["--list"]:
        print("\n".join(sorted(rules())))
        return 0
    rc = 0
    for p in sys.argv[1:]: rc = max(rc, run(p))
    return rc


if __name__ == "__main__":
    threading.stack_size(512 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(main()))
    t.start()
    t.join()
    sys.exit(out[0] if out else 2)
