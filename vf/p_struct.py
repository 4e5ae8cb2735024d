"""C27, C28, C30: effects, recursion and visibility, decided on the call graph and item tables."""
import subprocess
from base import *
import build

CELLS = re.compile(r"(^|::)(UnsafeCell|Cell|RefCell|OnceCell|LazyCell|Mutex|RwLock|OnceLock|LazyLock|Atomic\w*|Once)$")


def walk_type(J, tid, seen):
    if not isinstance(tid, int) or tid in seen: return
    seen.add(tid)
    t = J["types"][tid]
    if not t: return
    for a in t.get("args", []) or []: walk_type(J, a, seen)
    for v in t.get("variants", []) or []:
        for f in v["fields"]: walk_type(J, f[1], seen)
    for k in ("to", "elem"): walk_type(J, t.get(k), seen)
    for e in t.get("elems", []) or []: walk_type(J, e, seen)


def interior(J, path):
    """interior-mutability types that a type holds"""
    a = adt_of(J, path)
    if a is None: return set()
    seen = set()
    for v in a["variants"]:
        for f in v["fields"]: walk_type(J, f["ty"], seen)
    return {J["types"][t]["path"] for t in seen if J["types"][t]["k"] == "adt" and CELLS.search(J["types"][t]["path"])}


_unsafe = {}


def unsafe_uses(J):
    """places that use unsafe code: [(file:line, text)]"""
    k = id(J)
    if k not in _unsafe:
        r = build.dump(J["features"], lint="unsafe_code")
        out, cur = [], None
        lines = r["stderr"].splitlines()
        for n, l in enumerate(lines):
            if l.startswith("warning:") and "unsafe" in l:
                loc = next((x.strip()[4:] for x in lines[n + 1:n + 3] if x.strip().startswith("--> ")), "?")
                out.append((loc, l[9:]))
        _unsafe[k] = out
    return _unsafe[k]


def unsafe_fns(J): return set()


# ---------------------------------------------------------------- call graph
def calls_of(body):
    for b in body["blocks"]:
        t = b["t"]
        if t[0] == "call" and isinstance(t[1], dict): yield t[1], t
    # function values and closures made in the body
    def consts(x):
        if isinstance(x, list):
            if x and x[0] == "k" and len(x) > 2 and isinstance(x[2], dict): yield x[2]
            for y in x: yield from consts(y)


def values_of(J, body):
    """instances whose address is taken, and closures constructed"""
    def go(x):
        if isinstance(x, list):
            for y in x: yield from go(y)
        elif isinstance(x, dict):
            if "fnptr" in x: yield x["fnptr"]
            if "fnref" in x and "inst" in x["fnref"]: yield x["fnref"]["inst"]
            if "zst" in x:
                t = J["types"][x["zst"]]
                if t and t["k"] == "closure" and t.get("inst", -1) >= 0: yield t["inst"]
                if t and t["k"] == "fndef" and t["callee"].get("inst", -1) >= 0: yield t["callee"]["inst"]
            for y in x.values(): yield from go(y)
    for b in body["blocks"]:
        yield from go(b["s"])
        yield from go(b["t"])
    for l in body["locals"]:
        t = J["types"][l] if isinstance(l, int) else None
        if t and t["k"] == "closure" and t.get("inst", -1) >= 0: yield t["inst"]


def graph(J):
    if "_graph" not in J:
        g = {}
        for i, x in enumerate(J["insts"]):
            if not x or not x.get("body"): continue
            e = set()
            for f, t in calls_of(x["body"]):
                if "inst" in f: e.add(f["inst"])
            e |= set(values_of(J, x["body"])) - {i}   # a closure's body mentions its own type
            g[i] = e
        J["_graph"] = g
    return J["_graph"]


def sccs(g):
    idx, low, st, on, out, n = {}, {}, [], set(), [], [0]
    for r in g:
        if r in idx: continue
        work = [(r, iter(g.get(r, ())))]
        idx[r] = low[r] = n[0]; n[0] += 1
        st.append(r); on.add(r)
        while work:
            u, itr = work[-1]
            for v in itr:
                if v not in g: continue
                if v not in idx:
                    idx[v] = low[v] = n[0]; n[0] += 1
                    st.append(v); on.add(v)
                    work.append((v, iter(g[v])))
                    break
                if v in on: low[u] = min(low[u], idx[v])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == idx[u]:
                    c = []
                    while True:
                        w = st.pop(); on.discard(w); c.append(w)
                        if w == u: break
                    if len(c) > 1 or u in g[u]: out.append(c)
    return out


def local(x): return x and x.get("local")



def norm(p):
    """a path without closure numbers and generic arguments"""
    p = re.sub(r"\{closure#\d+\}", "{closure}", p)
    p = re.sub(r"\{closure@[^}]*\}", "{closure}", p)
    return re.sub(r"::<[^<>]*(<[^<>]*(<[^<>]*>)?[^<>]*>)?[^<>]*>", "", p)


# ---------------------------------------------------------------- C28
def recursive_types(J):
    """local types that contain themselves"""
    out = []
    for a in J["adts"]:
        seen = set()
        for v in a["variants"]:
            for f in v["fields"]: walk_type(J, f["ty"], seen)
        if any(J["types"][t]["k"] == "adt" and J["types"][t]["path"] == a["path"] for t in seen): out.append(a["path"])
    return out


RECURSIVE_TRAITS = {"Serialize", "Deserialize", "Clone", "PartialEq", "Debug", "Hash", "PartialOrd", "Ord", "Display"}


def C28(cx):
    J = cx.J
    cx.rule = "no cycle of the call graph passes through a function of the crate, and no operation follows the structure of a type that contains itself"
    g = graph(J)
    cx.functions |= {J["insts"][i]["path"] for i in g if local(J["insts"][i])}
    cx.calls = sum(len(e) for e in g.values())
    derived = {}
    for im in J["impls"]:
        for m in im["methods"]: derived["elasticlunr::" + m if not m.startswith(("<", "elasticlunr")) else m] = im
    rec = recursive_types(J)
    bad_fns = set()
    for c in sccs(g):
        loc = sorted({norm(J["insts"][i]["path"]) for i in c if local(J["insts"][i])})
        if not loc: continue
        # derived operations of recursive types are reported per type below
        if all(re.match(r"<(%s) as " % "|".join(map(re.escape, rec)), p) for p in loc) and rec: continue
        bad_fns |= set(loc)
        cx.check(False, "recursion:" + loc[0], loc[0], "calls itself" + (" through " + ", ".join(loc[1:4]) if len(loc) > 1 else "") + "; the depth is not bounded by the code", "acyclic calls")
    # generic functions that are not instantiated: direct self-calls by name
    for i, x in enumerate(J["insts"]):
        if local(x) and x.get("body"):
            p = norm(x["path"])
            if p in bad_fns: continue
            selfcall = any(norm(f["fn"]) == norm(x.get("fn", x["path"])) for f, t in calls_of(x["body"]) if f.get("crate") == x["crate"] and not f.get("trait"))
            cx.check(not selfcall, "recursion:" + p, p, "calls itself", "acyclic calls")
    for t in rec:
        name = t.split("::")[-1]
        im = sorted({i["trait"].split("<")[0].split("::")[-1] for i in J["impls"] if ("elasticlunr::" + i["self"]).endswith(t.split("elasticlunr::")[-1]) and i["self"].split("::")[-1].split("<")[0] == name})
        drop = [i for i in im if i == "Drop"]
        for tr in im:
            if tr in RECURSIVE_TRAITS:
                cx.check(False, "structure:%s:%s" % (name, tr), t, "%s of %s follows a structure as deep as the longest token" % (tr, name), "no structural recursion")
        if not drop:
            cx.check(False, "structure:%s:drop" % name, t, "dropping a %s recurses as deep as the longest token" % name, "no structural recursion")


# ---------------------------------------------------------------- C27
DENY = [
    (r"^std::time::|^core::time::.*now|SystemTime|Instant::", "reads the time"),
    (r"^std::env::", "reads the environment"),
    (r"^std::fs::|^std::path::Path::(exists|read_dir|metadata)", "uses files"),
    (r"^std::net::", "uses the network"),
    (r"^std::process::(id|Command|exit|abort)", "uses processes"),
    (r"^std::thread::|^std::sync::(mpsc|Barrier)", "depends on threads"),
    (r"\brand::|getrandom|fastrand|RandomState|std::hash::|DefaultHasher|BuildHasher", "uses randomness or a hash value"),
    (r"^std::io::(stdin|stdout|stderr|_print|_eprint|stdio)|^std::io::.*::(read|write)", "does input or output"),
    (r"thread_local|LocalKey", "uses thread-local state"),
    (r"std::ptr::addr|std::any::|fmt::Pointer|::as_ptr$|::as_mut_ptr$|ptr_eq|std::ptr::(eq|hash)|TypeId|type_name", "uses an address or a type identity"),
    (r"std::(alloc|panic|backtrace)::(?!.*panicking)", "uses global state"),
]
HASHITER = {"iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "into_keys", "into_values", "drain", "difference", "union", "intersection", "symmetric_difference", "extract_if", "fmt", "serialize"}


def hash_iterations(J):
    """call sites that iterate a hash-based collection: (function, callee)"""
    out = []
    for i, x in enumerate(J["insts"]):
        if not local(x) or not x.get("body"): continue
        for f, t in calls_of(x["body"]):
            m = f["fn"].split("::")[-1]
            if m not in HASHITER: continue
            ok = re.search(r"Hash(Map|Set)", f["fn"])
            if not ok and f.get("trait"):
                a = [y for y in f.get("args", []) if isinstance(y, int)]
                ty = J["types"][a[0]] if a else None
                while ty and ty["k"] == "ref": ty = J["types"][ty["to"]]
                ok = ty and ty["k"] == "adt" and re.search(r"Hash(Map|Set)$", ty["path"])
            if ok: out.append((x["path"], f["fn"], t[5] if len(t) > 5 else ""))
    return out


def order_leaks(t, seen=None, safe=False):
    """subterms whose value depends on the iteration order of a hash table"""
    seen = set() if seen is None else seen
    out = []
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == "call" and isinstance(x.a[0], str) and x.a[0].startswith("sort"): continue
        if x.op in ("setof", "any", "sum", "mmap"): 
            continue
        if x.op == "fold":
            f = x.a[0]
            acc, v = mk("bv", f.a[2]), mk("bv", f.a[0])
            if uses_hash(f.a[1]):
                h = x.a[2]
                # only some of the entries: which ones depends on the order
                part = h.op == "int" and h.a[0] > 1 or h.op == "lin" and any(p.op == "mlen" for p, _ in h.a[1])
                if part or not commutes(f.a[1], acc): out.append(x)
                st.append(x.a[1])
                st.extend(y for y in subterms(f.a[1]) if y.op == "fold" and uses_hash(y.a[0].a[1]))
                continue
        if x.op in ("comp", "tfold", "first") and uses_hash(x.a[0].a[1]): out.append(x)
        elif x.op == "sl" and x.a[0].op in ("hitems", "huniq"): out.append(x)
        elif x.op in ("hkey",) or x.op == "elem" and x.a[0].op in ("huniq", "hitems"):
            out.append(x)
        st.extend(kids(x))
    return out


def uses_hash(t): return any(x.op in ("hkey", "hitems", "huniq") for x in subterms(t))


def commutes(body, acc):
    """does one step of a fold over distinct keys commute with the others"""
    for g, l in paths(body):
        while l is not acc:
            if l.op == "mins" or l.op == "mrem": l = l.a[0]
            elif l.op == "fold" and commutes(l.a[0].a[1], mk("bv", l.a[0].a[2])): l = l.a[1]
            elif l.op == "lin" and any(p is acc and k == 1 for p, k in l.a[1]): l = acc
            elif l.op == "post" and l.a[1].op == "call" and "add_token" in str(l.a[1].a[0]): l = l.a[1].a[1]
            elif l.op in ("wput", "ens", "rec"): l = l.a[0]
            elif l.op == "fld": l = l.a[0]
            else: return False
    return True


def int_casts(J):
    """casts of pointers to integers in local functions"""
    out = []
    for x in J["insts"]:
        if not local(x) or not x.get("body"): continue
        for b in x["body"]["blocks"]:
            for s in b["s"]:
                if s[0] == "=" and isinstance(s[2], list) and s[2] and s[2][0] == "cast" and "PointerExpose" in str(s[2][1]): out.append(x["path"])
    return out


def C27(cx):
    J = cx.J
    cx.rule = "no function of the crate calls an operation that reads or writes anything outside its arguments; no mutable statics; hash iteration order and addresses do not reach results"
    for x in J["insts"]:
        if not local(x) or not x.get("body"): continue
        cx.functions.add(x["path"])
        macro = norm(x["path"])
        if "Deserialize" in macro: continue
        bad = None
        for f, t in calls_of(x["body"]):
            cx.calls += 1
            if f.get("crate") == J["crate"]: continue
            nm = f["fn"]
            for pat, why in DENY:
                if re.search(pat, norm(nm)): bad = (why, nm, t[5] if len(t) > 5 else "")
        cx.check(bad is None, "effect:%s:%s" % (macro, bad[0] if bad else ""), macro, "%s (%s at %s)" % bad if bad else "no outside effect", "effects")
    for st in J["statics"]:
        m = re.match(r"std::sync::LazyLock<(.*)>$", st["ty"])
        if m and not st["mut"] and not CELLS.search(m.group(1)) and not re.search(r"Cell|Mutex|RwLock|Atomic|OnceLock", m.group(1)):
            # made once by a function of nothing, whose effects are looked at like those of any other
            cx.check(True, "static:" + st["path"], st["path"], "a constant made at first use", "statics")
            continue
        cx.check(not st["mut"] and st["freeze"], "static:" + st["path"], st["path"], "is mutable global state", "statics")
    for a in J["adts"]:
        if "_::" in a["path"]: continue
        im = interior(J, a["path"])
        cx.check(not im, "interior:" + a["path"], a["path"], "holds %s, which can change behind a shared reference" % ", ".join(sorted(im)), "no interior mutability")
    for p in int_casts(J): cx.check(False, "address:" + norm(p), p, "uses an address as a number", "addresses")
    for loc, text in unsafe_uses(J): cx.check(False, "unsafe:" + loc.split(":")[0], loc, text, "no unsafe code")
    H = hash_iterations(J)
    cx.notes.append("hash iterations: %d" % len(H))
    if H:
        # does the order reach a result of a public operation?
        g = graph(J)
        sites = {p for p, _, _ in H}
        ids = {i for i, x in enumerate(J["insts"]) if x and x.get("body") and x["path"] in sites}
        callers, todo = set(ids), list(ids)
        rev = {}
        for i, e in g.items():
            for k in e: rev.setdefault(k, set()).add(i)
        while todo:
            k = todo.pop()
            for i in rev.get(k, ()):
                if i not in callers:
                    callers.add(i)
                    todo.append(i)
        called = {}
        for i in g:
            for f, t in calls_of(J["insts"][i]["body"]):
                if "inst" in f: called.setdefault(f["inst"], set()).add(i)
        # the outermost functions, those only called through pointers, and those whose calls are not looked into
        roots = [i for i in callers if local(J["insts"][i]) and "{closure" not in J["insts"][i]["path"] and
                 (norm(J["insts"][i]["path"]) in (ADD_TOKEN, PIPE_RUN) or not (called.get(i, set()) & callers - {i}))]
        for i in sorted(roots):
            R = run_fn(cx, J["insts"][i]["path"], anchors=(ADD_TOKEN, PIPE_RUN), inst=i)
            p = norm(J["insts"][i]["path"])
            if R is None or R.err:
                cx.check(None, "hash order:" + p, p, "iterates a hash table; its effect is not resolved: %s" % (R and R.err), "hash order")
                continue
            for s, v in R.res:
                outs = [v] + [s.cells[c] for c in s.cells]
                for o in outs:
                    L = order_leaks(o)
                    cx.check(not L, "hash order:" + p, p, "the order of a hash table reaches the result: " + (show(L[0], 4) if L else ""), "hash order")


    # the text of an index: a hash table that is serialized gives its entries in the table's order
    import p_serde
    for path in (p_serde.INDEX, p_serde.PIPE, p_serde.II, p_serde.ITEM, p_serde.TF, p_serde.STORE):
        R = p_serde.serializer(cx, path, sym("v", None))
        if R is None or R.err: continue
        for s, v in R.res:
            L = order_leaks(v)
            cx.check(not L, "serialized order:" + path, R.path, "the text has the entries of a hash table in the table's order: " + (show(L[0], 4) if L else ""), "serialized order")


# ---------------------------------------------------------------- C30
DOCUMENTED = {
    "Index": {"new", "with_language", "add_doc", "get_fields", "to_json", "to_json_pretty"},
    "inverted_index::InvertedIndex": {"new", "add_token", "has_token", "remove_token", "get_docs", "get_term_frequency", "get_doc_frequency"},
}
HANDLES = {"DerefMut", "IndexMut", "AsMut", "BorrowMut", "Deref", "AsRef", "Borrow"}


def C30(cx):
    J = cx.J
    cx.rule = "the fields of Index and InvertedIndex and of every node type are invisible outside the crate, no exported signature hands out or takes a mutable part or rebuilds one, and shared references give no write access"
    types = {"elasticlunr::Index", "elasticlunr::inverted_index::InvertedIndex"}
    # node types: local types held by an inverted index
    seen = set()
    a = adt_of(J, "elasticlunr::inverted_index::InvertedIndex")
    if a is None: return cx.undecided("InvertedIndex not found")
    for v in a["variants"]:
        for f in v["fields"]: walk_type(J, f["ty"], seen)
    nodes = {J["types"][t]["path"] for t in seen if J["types"][t]["k"] == "adt" and J["types"][t].get("local")}
    for p in sorted(types | nodes):
        a = adt_of(J, p)
        if a is None: continue
        pubs = [f["name"] for v in a["variants"] for f in v["fields"] if f["pub"]]
        cx.check(not (a["reachable"] and a["pub"] and pubs), "fields:" + p, p, "field%s %s can be written from outside the crate" % ("s" if len(pubs) > 1 else "", ", ".join(pubs)), "private fields")
        im = interior(J, p)
        cx.check(not im, "interior:" + p, p, "holds " + ", ".join(sorted(im)), "no interior mutability")
        for i in J["impls"]:
            if ("elasticlunr::" + i["self"]) == p or i["self"] == p:
                tr = i["trait"].split("<")[0].split("::")[-1]
                if tr in ("DerefMut", "IndexMut", "AsMut", "BorrowMut", "Extend"): cx.check(False, "trait:%s:%s" % (p, tr), p, "implements " + tr, "no mutable views")
                if tr in ("From", "FromIterator") and p in types: cx.check(False, "trait:%s:%s" % (p, tr), p, "can be built from other data (%s)" % i["trait"], "construction")
    exported = {i["path"]: i for i in J["items"]}
    for f in J["fns"]:
        short_p = f["path"][len("elasticlunr::"):] if f["path"].startswith("elasticlunr::") else f["path"]
        it = exported.get(short_p)
        if not f["vis"] or (it and not it["exported"]) or "_::" in f["path"] or f["path"].startswith("<"): continue
        cx.functions.add(f["path"])
        m = re.match(r"^(?:fn|unsafe fn)\((.*)\)(?: -> (.*))?$", f["sig"])
        if not m: continue
        params, ret = m.group(1), m.group(2) or ""
        owner, tail = f["path"].rsplit("::", 1)
        own = owner.replace("elasticlunr::", "")
        inner = "|".join(re.escape(x.replace("elasticlunr::", "")) for x in nodes)
        cx.check(not (nodes and re.search(r"(^|[^\w:])(%s)\b" % inner, f["sig"])), "signature:" + f["path"], f["path"], "exposes a node type: " + f["sig"], "signatures")
        if own in DOCUMENTED:
            cx.check("&mut" not in ret and "RefMut" not in ret and "IterMut" not in ret and "Entry<" not in ret, "mutable:" + f["path"], f["path"], "hands out a mutable part: " + f["sig"], "signatures")
            if re.search(r"^&mut %s\b" % re.escape(own), params): cx.check(tail in DOCUMENTED[own], "operation:" + f["path"], f["path"], "changes %s but is not one of its documented operations" % own, "operations")
            if re.search(r"^%s\b" % re.escape(own), params): cx.check("Index" not in ret or tail in DOCUMENTED[own], "operation:" + f["path"], f["path"], "takes %s apart or rebuilds it: %s" % (own, f["sig"]), "operations")
        elif re.search(r"&mut (Index|inverted_index::InvertedIndex)\b", params):
            cx.check(False, "operation:" + f["path"], f["path"], "takes a mutable index: " + f["sig"], "operations")
        if re.search(r"^(Index|inverted_index::InvertedIndex|std::(option::Option|result::Result)<(Index|inverted_index::InvertedIndex))\b(?!Builder)", ret):
            cx.check(own + "::" + tail in ("Index::new", "Index::with_language", "IndexBuilder::build", "inverted_index::InvertedIndex::new"), "constructor:" + f["path"], f["path"], "builds an index from outside: " + f["sig"], "construction")
    for loc, text in unsafe_uses(J): cx.check(False, "unsafe:" + loc.split(":")[0], loc, text, "no unsafe code")
    for i in J["items"]:
        if i["kind"] == "Macro" and i["exported"]: cx.notes.append("exported macro " + i["path"])


RULES = {"C27": C27, "C28": C28, "C30": C30}
