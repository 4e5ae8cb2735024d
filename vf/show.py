"""Pretty prints bodies of a dump: show.py dump.json PATTERN"""
import json, sys, re
J = json.load(open(sys.argv[1]))
T = [t["s"] if t else "?" for t in J["types"]]
def pl(p):
    s = "_%d" % p[0]
    for e in p[1:]:
        if e == "*": s = "(*%s)" % s
        elif e[0] == "f": s += ".%d" % e[1]
        elif e[0] == "v": s += "@%d" % e[1]
        elif e[0] == "i": s += "[_%d]" % e[1]
        else: s += str(e)
    return s
def op(o):
    if o[0] in "cm": return ("" if o[0]=="c" else "move ") + pl(o[1])
    if o[0] == "k":
        s = json.dumps(o[2], ensure_ascii=False)
        return s[:150]
    return str(o)
def rv(r):
    k = r[0]
    if k == "use": return op(r[1])
    if k in ("ref", "addr"): return ("&mut " if r[1] else "&") + pl(r[2])
    if k in ("bin", "chk"): return "%s(%s, %s)" % (r[1], op(r[2]), op(r[3]))
    if k == "un": return "%s(%s)" % (r[1], op(r[2]))
    if k == "cast": return "%s as %s [%s]" % (op(r[2]), T[r[3]], r[1])
    if k in ("disc", "len"): return "%s(%s)" % (k, pl(r[1]))
    if k == "agg":
        kk = r[1]
        h = kk[0]
        if h in ("adt", "closure", "array"): h = T[kk[1]] + ("@%d" % kk[2] if h == "adt" else "")
        return "%s{%s}" % (h, ", ".join(map(op, r[2])))
    return str(r)
def callee(f):
    if isinstance(f, dict):
        s = f["fn"] + "<" + ",".join(T[a] if isinstance(a, int) else a for a in f["args"]) + ">"
        if "inst" in f:
            i = J["insts"][f["inst"]]
            if i["path"] != f["fn"]: s += "  => " + i["path"] + (" [%s]" % i["kind"] if i["kind"] != "item" else "")
            s += " #%d%s" % (f["inst"], "" if i.get("body") else " (nobody)")
        return s
    return op(f)
def show(i):
    I = J["insts"][i]
    print("== #%d %s  [%s %s] %s" % (i, I["full"], I["crate"], I["kind"], I.get("trait")))
    b = I.get("body")
    if not b: print("  no body"); return
    nm = dict((a, c) for a, c in b["names"])
    for n, t in enumerate(b["locals"]): print("   _%d: %s %s" % (n, T[t], nm.get(n, "")))
    for n, bb in enumerate(b["blocks"]):
        print("  bb%d:" % n)
        for s in bb["s"]:
            if s[0] == "=": print("    %s = %s" % (pl(s[1]), rv(s[2])))
            else: print("    ", s)
        t = bb["t"]
        if t[0] == "call": print("    %s = %s(%s) -> %s  // %s" % (pl(t[3]), callee(t[1]), ", ".join(map(op, t[2])), t[4], t[5]))
        elif t[0] == "switch": print("    switch %s %s else %s" % (op(t[1]), t[2], t[3]))
        elif t[0] == "drop": print("    drop %s -> %s" % (pl(t[1]), t[2]))
        elif t[0] == "assert": print("    assert %s == %s (%s) -> %s" % (op(t[1]), t[2], t[3], t[5]))
        else: print("   ", t)
if __name__ == "__main__":
    for i, I in enumerate(J["insts"]):
        if I and re.search(sys.argv[2], I["full"]) and (len(sys.argv) > 3 or I["local"]): show(i)
