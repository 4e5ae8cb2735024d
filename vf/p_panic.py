"""C29: the panic sites that the public operations can reach."""
from base import *
import p_index, p_store
from p_index import items, contains_name, IB, IX
from p_store import DS

II = "elasticlunr::inverted_index::InvertedIndex"
IT = "elasticlunr::inverted_index::IndexItem"
SKIP = re.compile(r"lang::(ja|zh)\b|^<?elasticlunr::lang::en::(PorterStemmer|Stemmer)|::_::|serde|\{closure|to_json|std::fmt|std::clone|std::cmp|TermFrequency")


# ---------------------------------------------------------------- contradictions between linear facts
def ineqs(facts):
    """facts as a list of (const, {term: coeff}) meaning const + sum >= 0"""
    out = []
    for k, s in facts.items():
        if s.kind != "I" or not s.r: continue
        c, ps = lin_parts(k)
        lo, hi = s.lo(), s.hi()
        if lo > NEG: out.append((c - lo, dict(ps)))
        if hi < POS: out.append((hi - c, {t: -x for t, x in ps}))
    return out


def nonneg(t):
    """terms that are never negative"""
    return t.op in ("len", "mlen", "blen") or t.op == "phi" and False


def contradictory(facts, extra=()):
    rows = ineqs(facts) + list(extra)
    ts = {t for _, d in rows for t in d}
    rows += [(0, {t: 1}) for t in ts if nonneg(t)]
    for t in sorted(ts, key=lambda x: x.id):
        pos = [r for r in rows if r[1].get(t, 0) > 0]
        neg = [r for r in rows if r[1].get(t, 0) < 0]
        rows = [r for r in rows if not r[1].get(t, 0)]
        if len(pos) * len(neg) > 4000: return False
        for c1, d1 in pos:
            for c2, d2 in neg:
                a, b = -d2[t], d1[t]
                d = {}
                for x in set(d1) | set(d2):
                    v = a * d1.get(x, 0) + b * d2.get(x, 0)
                    if v: d[x] = v
                r = (a * c1 + b * c2, d)
                if not d and r[0] < 0: return True
                rows.append(r)
        if any(not d and c < 0 for c, d in rows): return True
    return any(not d and c < 0 for c, d in rows)


def phi_rows(it):
    """loop variables that only go up, or only down, stay on one side of where they start"""
    out = []
    for p, (init, steps) in it.phis.items():
        ds = []
        for x in steps:
            for l in ([l for _, l in paths(x)] if x.op == "dd" else [x]):
                d = sub(l, p)
                ds.append(d.a[0] if d.op == "int" else None)
        if not ds or None in ds: continue
        c, ps = lin_parts(sub(p, init))
        if all(d >= 0 for d in ds): out.append((c, dict(ps)))
        elif all(d <= 0 for d in ds): out.append((-c, {t: -x for t, x in ps}))
    return out


def refined(facts):
    """the facts rewritten under the equalities among them; None when they exclude each other"""
    out = {}
    for k, s in eq_close(facts).items():
        q = norm_under(k, {x: y for x, y in facts.items() if x is not k})
        if q.op == "int":
            if s.kind == "I" and s.inter(ival(q.a[0])).empty(): return None
            continue
        if q.op == "dd" and s.kind == "I":
            ls = [l.a[0] for g, l in paths(q) if l.op == "int"]
            if ls and len(ls) == len(paths(q)) and all(s.inter(ival(x)).empty() for x in ls): return None
        o = out.get(q)
        out[q] = s if o is None or o.kind != s.kind else s.inter(o)
        if out[q].empty(): return None
    # an element that was read has an index that is not negative
    for q in out:
        if q.op == "elem" and q.a[1] in out and out[q.a[1]].kind == "I" and out[q.a[1]].hi() < 0: return None
    return out


def ival(n): return IntSet([(n, n)])


# ---------------------------------------------------------------- where a loop-carried map comes from
def root_map(it, t, depth=0):
    """the map that t extends: every key of it is still in t; None when that is not known"""
    if depth > 12: return None
    if t.op == "mins": return root_map(it, t.a[0], depth + 1)
    if t.op == "fold":
        return root_map(it, t.a[1], depth + 1)
    if t in it.phis:
        init, steps = it.phis[t]
        if all(extends(it, x, t) for x in steps): return root_map(it, init, depth + 1)
        return None
    return t


def extends(it, t, p, depth=0):
    if t is p: return True
    if depth > 12: return False
    if t.op == "mins": return extends(it, t.a[0], p, depth + 1)
    if t.op == "dd": return all(extends(it, l, p, depth + 1) for _, l in paths(t))
    if t.op == "fold":
        f = t.a[0]
        b = f.a[1] if f.op == "lam" else None
        if b is None: return False
        return mins_only(b) and extends(it, t.a[1], p, depth + 1)
    if t in it.phis:
        init, steps = it.phis[t]
        return all(extends(it, x, t, depth + 1) for x in steps if x is not t) and extends(it, init, p, depth + 1)
    return False


def mins_only(b):
    if b.op == "dd": return all(mins_only(l) for _, l in paths(b))
    if b.op == "lam": return mins_only(b.a[-1])
    if b.op == "mins": return mins_only(b.a[0])
    return b.op == "bv"


# ---------------------------------------------------------------- entry points
def entries(cx):
    """public functions and methods of the crate, and its implementations of its own traits"""
    vis = {}
    for x in cx.J["items"]: vis.setdefault(x["path"], x)
    out = []
    for i, x in enumerate(cx.J["insts"]):
        if not (x and x.get("body") and x.get("local")) or SKIP.search(x["path"]): continue
        p = x["path"]
        m = re.match(r"<(\S+) as (\S+)>::\w+$", p)
        if m:
            if not m.group(2).startswith("elasticlunr::") and not m.group(2).startswith("std::default"): continue
        else:
            it = vis.get(re.sub("^elasticlunr::", "", p))
            if it is None or it["vis"] != "pub" or not it["reachable"] or it["kind"] not in ("Fn", "AssocFn"): continue
        if p not in [q for _, q in out]: out.append((i, p))
    return out


def narrow(p, it):
    """an addition that passes the end of a type of at most 16 bits, on a value that a loop counts up"""
    if p["kind"] != "overflow:Add": return None
    for k, s in p["facts"].items():
        if s.kind != "I" or not s.r: continue
        hi = [lo for lo, h in s.r if lo > 0]
        if len(hi) != 1 or hi[0] not in (127, 255, 32767, 65535, 126, 254): continue
        for x in subterms(k):
            if x in it.phis:
                if any(counts(k, x, y) for y in it.phis[x][1]): return k, hi[0]
    return None


def counts(k, phi, step):
    if k is phi: return step.op == "lin" and step.a[1] == ((phi, 1),) and step.a[0] > 0 or step.op == "dd" and any(counts(k, phi, l) for _, l in paths(step))
    if k.op == "mget" and k.a[0] is phi: return any(x.op == "mins" for x in subterms(step))
    return any(x.op == "mins" for x in subterms(step))


def c29(cx):
    cx.rule = ("every public operation is interpreted with unknown arguments; each panic that the interpretation reaches must be a repeated field name or a "
               "document with more values than fields, or be excluded by an invariant that every operation keeps (equally many fields and tokenizers, an inverted "
               "index for every field, length of the store = number of its documents)")
    F = cx.F
    n = 0
    for i, path in entries(cx):
        try: one(cx, i, path)
        except RecursionError: cx.undecided("%s: term depth" % path)
        n += 1
    cx.notes.append("%d public operations" % n)
    invariants(cx)
    # constants are propagated only to refute what was not excluded
    if any(not o[2] for o in cx.oblig) or cx.incon:
        probes(cx)
        if any("tokenize" in t or "filter" in t for t in cx.incon): text_probes(cx)


def allowed(cx, path, R, p):
    """why the panic is permitted or impossible; None when it is neither"""
    F = cx.F
    f = refined(p["facts"])
    if f is None: return "impossible"
    if contradictory(f, phi_rows(R.it)): return "impossible"
    # a map that has a key is not empty
    for k, s in f.items():
        if k.op == "has" and s.kind == "I" and s.lo() >= 1 and k.a[0].op != "mempty" and contradictory(f, [(-1, {mlen(k.a[0]): 1})]): return "impossible: a map with a key is not empty"
    tail = path.split("::")[-1]
    a0 = R.self0
    if path.startswith(IX + "::") and a0 is not None and a0.op == "sym" and None not in (F.ix["fields"], F.ix["tok"]):
        d = sub(seqlen(as_seq(fld(a0, F.ix["fields"]))), seqlen(as_seq(fld(a0, F.ix["tok"]))))
        for e in (d, mulc(d, -1)):
            if not any(l is TRUE and feasible(f, g) is not None for g, l in paths(inn(e, ZERO))): return "impossible: a tokenizer for every field"
    if path.startswith(IX + "::") and tail == "add_doc":
        fields, toks, index = fld(a0, F.ix["fields"]), fld(a0, F.ix["tok"]), fld(a0, F.ix["index"])
        lf, lt = seqlen(as_seq(fields)), seqlen(as_seq(toks))
        lv = seqlen(as_seq(R.args[2]))
        eqs = [(0, dict(lin_parts(sub(lf, lt))[1])), (0, dict(lin_parts(sub(lt, lf))[1]))]
        if contradictory(f, eqs): return "impossible: a tokenizer for every field"
        # the facts exclude len(values) <= len(fields)
        d = sub(lf, lv)
        if contradictory(f, eqs + [(lin_parts(d)[0], dict(lin_parts(d)[1]))]): return "more values than fields"
        for k, s in f.items():
            if k.op == "has" and s.kind == "I" and s.hi() == 0:
                r = root_map(R.it, k.a[0])
                e = k.a[1]
                if r is index and e.op == "elem" and as_seq(e.a[0]) is as_seq(fields):
                    j = e.a[1]
                    c, ps = lin_parts(sub(lf, j))
                    # j < len(fields) is entailed: its negation j - len(fields) >= 0 is excluded
                    if contradictory(f, eqs + [(-c, {t: -x for t, x in ps})]): return "impossible: every field has an inverted index"
    # a repeated name
    if path.startswith(IB + "::") or tail in ("new", "with_language"):
        for k, s in f.items():
            if is_dup(k) and s.kind == "I" and s.single() == 1: return "repeated field name"
    return None


def is_dup(k):
    """some earlier name equals the new one"""
    if k.op != "any": return False
    ps = [g for g, l in paths(k.a[0].a[1]) if l is TRUE]
    return bool(ps) and all(any(q.op == "eq" and x.single() == 1 or is_dup(q) and x.single() == 1 for q, x in g.items() if x.kind == "I") for g in ps)


def one(cx, i, path):
    F = cx.F
    selfval = None
    if path.startswith(DS + "::"):
        b = cx.J["insts"][i]["body"]
        ok = b["argc"] and "DocumentStore" in cx.J["types"][b["locals"][1]]["s"] and None not in F.ds.values()
        selfval = p_store.inv_self(F, sym("arg0", None)) if ok else None
    R = cx.index_run(path) if path.startswith(IX + "::") else run_fn(cx, path, selfval=selfval, inst=i)
    if R is None: return
    tail = short_name(path)
    if tail.endswith("RegexTrimmer::new"): return       # takes a constant: every call of it is evaluated where it is made
    # languages that are not white-space tokenized are outside the statement
    R.unknown = [u for u in R.unknown if not re.search(r"\b(lindera|jieba)", u)]
    R.panics = [p for p in R.panics if not any(re.search(r"lang::(ja|zh)\b", q) for q in p["stack"])]
    g = gaps(R)
    if g: cx.undecided("%s: %s" % (tail, g))
    if not R.panics:
        cx.check(True if not g else None, "panic:" + tail, path, "not excluded: %s" % g, "no panic reachable")
        return
    for p in R.panics:
        why = allowed(cx, path, R, p)
        where = p["where"] if "/src/" in p["where"] and "rustlib" not in p["where"] else path
        text = "%s can panic (%s%s at %s) when %s" % (tail, p["kind"], ": " + detail(p) if p["detail"] else "", where, show_facts(p["facts"], 8))
        if why: cx.check(True, "panic:" + tail, where, text, why)
        else:
            nw = narrow(p, R.it)
            if nw:
                cx.check(False, "overflow:" + tail, where, "%s counts with a type that ends at %d: the %dth repetition panics (%s)" % (tail, nw[1], nw[1] + 1, p["kind"]))
                continue
            cx.check(False if definite(p, R) else None, "panic:" + tail, where, text, "panic excluded")


def detail(p):
    d = p["detail"]
    if isinstance(d, T):
        if d.op == "ofchars":
            s = ""
            for q in d.a[0].a[0] if d.a[0].op == "seq" else ():
                if q.op == "one" and q.a[0].op == "int": s += chr(q.a[0].a[0])
                else: s += "…"
            return s[:80]
        return show(d, 3)[:80]
    return str(d)[:80]


def simple(k, args):
    """an observation of the arguments that can come out either way, independently of the others"""
    if k.op == "has": return node(k.a[0]) and (plain(k.a[1], args) or letter(k.a[1]))
    if k.op == "lin": return all(t.op == "phi" or t.op == "len" and (plain(t.a[0], args) or t.a[0].op == "chars" and plain(t.a[0].a[0], args)) for t, _ in k.a[1])
    if k.op in ("len", "mlen", "blen"): return plain(k.a[0], args)
    if k.op in ("sym", "n"): return True
    if k.op == "disc": return plain(k.a[0], args)
    return False


def node(t):
    """a map of the object itself, or of a node that a walk along an argument reaches"""
    while t.op in ("fld", "wget", "mget"): t = t.a[0]
    return t.op == "sym"


def letter(t): return t.op == "elem" and t.a[0].op == "chars" and t.a[0].a[0].op == "sym"


def plain(t, args):
    while t.op == "fld": t = t.a[0]
    return t.op == "sym"


def definite(p, R):
    """the facts of the panic are observations of the arguments that do not depend on each other"""
    if R.err: return False
    ks = list(p["facts"])
    return all(simple(k, R.args) for k in ks) and len({k for k in ks}) == len(ks)


# ---------------------------------------------------------------- the invariants that exclude the other sites
def invariants(cx):
    F = cx.F
    st = sym("arg0", None)
    f0, t0 = fld(st, F.ib["fields"]), fld(st, F.ib["tok"])
    for name in ("add_field", "add_field_with_tokenizer", "add_fields", "save_docs", "set_ref", "build", "new", "with_language", "default"):
        P = (IB + "::" + name) if name != "default" else "<%s as std::default::Default>::default" % IB
        R = cx.index_run(P) if name == "build" else run_fn(cx, P)
        if R is None: continue
        if gaps(R):
            cx.undecided("%s: %s" % (name, gaps(R)))
            continue
        owner = F.ix if name == "build" else F.ib
        for s, v in R.res:
            fs, ts = fld(v, owner["fields"]), fld(v, owner["tok"])
            d = simp(sub(seqlen(as_seq(fs)), seqlen(as_seq(ts))), s.facts)
            d = same_len(d, f0, t0)
            cx.check(d, "lengths:" + name, P, "%s leaves %s fields and %s tokenizers" % (name, show(seqlen(as_seq(fs)), 4), show(seqlen(as_seq(ts)), 4)), "as many tokenizers as fields")
    R = cx.index_run(IB + "::build")
    if R is not None and not gaps(R):
        for s, v in R.res:
            fs, m = as_seq(fld(v, F.ix["fields"])), fld(v, F.ix["index"])
            okk, txt = p_index.index_map(norm_under(m, s.facts), fs, s.facts)
            cx.check(True if okk else None, "indices:build", R.path, "an inverted index for every field was not established: %s" % txt, "an inverted index for every field")
    for name in ("new", "with_language"):
        P = IX + "::" + name
        R = cx.index_run(P)
        if R is None or gaps(R): continue
        for s, v in R.res:
            d = simp(sub(seqlen(as_seq(fld(v, F.ix["fields"]))), seqlen(as_seq(fld(v, F.ix["tok"])))), s.facts)
            cx.check(same_len(d, f0, t0), "lengths:Index::" + name, P, "Index::%s leaves %s more fields than tokenizers" % (name, show(d, 4)), "as many tokenizers as fields")


def same_len(d, f0, t0):
    """zero, given len(f0) = len(t0); None when it cannot be told"""
    lf, lt = seqlen(as_seq(f0)), seqlen(as_seq(t0))
    for r in (d, subst(d, {lt: lf}), subst(d, {lf: lt})):
        if r.op == "int": return r.a[0] == 0
    r = simp(subst(d, {lt: lf}), {})
    if r.op == "int": return r.a[0] == 0
    if r.op == "lin" and all(x > 0 for _, x in r.a[1]) and r.a[0] > 0: return False
    return None


# ---------------------------------------------------------------- constants propagated through the operations
PIPE_TOKENS = [[], [""], ["x"], ["x", "x", "y"], ["\u65e5\u672c", "x", ""], ["a" * 40]]


def probes(cx):
    """the operations on constant arguments: a panic on every path refutes the property"""
    F = cx.F
    R = run_fn(cx, IX + "::new", args={0: items([S("a"), S("b")])})
    if R is None or gaps(R) or len(R.res) != 1:
        if R is not None and not R.err and R.panics and not R.res:
            cx.check(False, "panic:Index::new", R.path, "Index::new([\"a\", \"b\"]) panics: %s" % R.panics[0]["kind"], "constant arguments")
        return
    ix = R.res[0][1]
    for toks in PIPE_TOKENS:
        for vals in ([S("u v"), S("w")], [S("")], []):
            const = items([S(t) for t in toks])

            def setup(it):
                it.anchors[PIPE_RUN] = lambda it_, st, args, fn, where, rty: [(st, const)]
            Q = run_fn(cx, IX + "::add_doc", anchors=(ADD_TOKEN,) if len(toks) != 3 else (), selfval=ix, args={1: S("1"), 2: items(vals)}, unroll=200, budget=60000, setup=setup)
            if Q is None: return
            must(cx, Q, "Index::add_doc", "two fields, %d values whose tokens are %s" % (len(vals), str(toks)[:60]))
            if len(toks) == 3 and len(Q.res) == 1 and len(vals) == 2:
                # the same reference again
                Q2 = run_fn(cx, IX + "::add_doc", selfval=Q.final(Q.res[0][0]), args={1: S("1"), 2: items(vals)}, unroll=200, budget=60000, setup=setup)
                must(cx, Q2, "Index::add_doc", "the same document twice, tokens %s" % toks)
    # the inverted index and the store
    for cls, path in (("InvertedIndex", II), ("DocumentStore", DS)):
        mk0 = run_fn(cx, path + "::new", args={0: TRUE})
        if mk0 is None or gaps(mk0) or len(mk0.res) != 1: continue
        empty = mk0.res[0][1]
        states = [("empty", empty)]
        add = II + "::add_token" if cls == "InvertedIndex" else DS + "::add_doc"
        cur = empty
        for k, w in enumerate(["ab", "\u65e5\u672c", "a", ""] if cls == "InvertedIndex" else ["1", "2"]):
            A = {1: S("1"), 2: S(w)} if cls == "InvertedIndex" else {1: S(w), 2: mk("mempty")}
            Q = run_fn(cx, add, selfval=cur, args=A, unroll=50)
            if Q is None: break
            must(cx, Q, cls + "::" + add.split("::")[-1], "after %d calls, %r" % (k, w))
            if gaps(Q) or len(Q.res) != 1: break
            cur = Q.final(Q.res[0][0])
            states.append(("after adding %r" % w, cur))
        for i, p in entries(cx):
            if not p.startswith(path + "::"): continue
            b = cx.J["insts"][i]["body"]
            if not b["argc"]: continue
            t = cx.J["types"][b["locals"][1]]
            if t["k"] != "ref": continue
            sa = [k for k in range(1, b["argc"]) if cx.J["types"][b["locals"][k + 1]]["s"] == "&str"]
            for what, stt in states:
                for vs in ([("1", "ab"), ("1", "a"), ("1", ""), ("9", "abc"), ("", "\u65e5"), ("2", "\u65e5\u672c")] if len(sa) == 2 else [("1",), ("9",), ("",)]):
                    A = dict(zip(sa, [S(x) for x in (vs if len(sa) == len(vs) else vs[-1:])]))
                    if cls == "InvertedIndex" and len(sa) == 1: A = {sa[0]: S({"1": "ab", "9": "abc", "": ""}[vs[0]])}
                    Q = run_fn(cx, p, selfval=stt, inst=i, args=A, unroll=50)
                    must(cx, Q, "%s::%s" % (cls, p.split("::")[-1]), "%s with %s" % (what, list(vs)))
                    if not sa: break


WIDE = ["a" * k + c * n for c, n in (("\u00e9", 70), ("\U00010400", 70), ("\u0130", 40)) for k in range(4 if c == "\U00010400" else 2)]
TEXTS = ["", " ", "a", "-", "\u00e9", "\u65e5\u672c", "\U00010400", "'s", "a b", " a", "--", "\u0130\u0130", "\u00df-", "\ufb03 x", "\u3000", "b" * 70, "!", "!!", "\u2026x\u2026", "a\u0301", "I'm", "9", "x" * 300] + WIDE


def text_probes(cx):
    """tokenizers and the filters of the languages on constant texts"""
    F = cx.F
    seen = set()
    for i, p in entries(cx):
        if not p.endswith("::tokenize") and not p.endswith("::tokenize_whitespace"): continue
        b = cx.J["insts"][i]["body"]
        a = b["argc"] - 1
        for t in TEXTS:
            Q = run_fn(cx, p, inst=i, args={a: S(t)}, unroll=20, budget=20000)
            must(cx, Q, short_name(p), show_text(t))
    for i, p in entries(cx):
        if not p.endswith("Language>::make_pipeline") or F.queue is None: continue
        R = run_fn(cx, p, inst=i)
        if R is None or R.err or len(R.res) != 1: continue
        st, v = R.res[0]
        q = as_seq(fld(v, F.queue))
        if not all(x.op == "one" for x in q.a[0]): continue
        for x in q.a[0]:
            e = x.a[0]
            if e.op != "adt" or e in seen or "en::Stemmer" in e.a[0] or "::Porter" in e.a[0]: continue
            seen.add(e)
            j = R.it.devirt({"fn": "filter"}, e)
            if j is None: continue
            for t in TEXTS:
                Q = run_fn(cx, cx.J["insts"][j]["path"], inst=j, selfval=e, args={1: S(t)}, unroll=20, budget=20000)
                must(cx, Q, short_name(p).split("::make")[0] + " " + short_name(cx.J["insts"][j]["path"]), show_text(t))


def show_text(t): return repr(t) if len(t) < 12 else "%r and %d more characters" % (t[:4], len(t) - 4)


def short_name(p):
    m = re.match(r"<(\S+) as (\S+)>::(\w+)$", p)
    return (m.group(1).split("elasticlunr::")[-1] + "::" + m.group(3)) if m else p.split("elasticlunr::")[-1]


def must(cx, R, name, what):
    if R is None or R.err: return
    sure = [p for p in R.panics if not R.res or show_facts(p["facts"]) == "always" and all(any(x.op == "undef" for x in subterms(v)) for _, v in R.res)]
    if sure:
        p = sure[0]
        cx.check(False, "panic:" + name, p["where"] if "rustlib" not in p["where"] else R.path, "%s always panics (%s %s) when given %s" % (name, p["kind"], detail(p), what), "constant arguments")
    else: cx.check(True, "panic:" + name, R.path, "", "constant arguments")


RULES = {"C29": c29}
