"""C23-C26: the JSON form of the index and of the search options.

The serializers of the crate, derived or written by hand, are interpreted over terms that denote JSON
(serde_model); the result is compared with the schema, member by member and value by value."""
from base import *
import serde_model as SM

P = "elasticlunr::"
INDEX, PIPE, II, ITEM, TF, STORE = (P + "Index", P + "pipeline::Pipeline", P + "inverted_index::InvertedIndex", P + "inverted_index::IndexItem",
                                    P + "inverted_index::TermFrequency", P + "document_store::DocumentStore")
SB, SO, SOF = P + "config::SearchBool", P + "config::SearchOptions", P + "config::SearchOptionsField"
VERSION = "0.9.5"
NAME_FN, NAME_LANG = P + "pipeline::PipelineFn::name", P + "lang::Language::name"
jstr = lambda t: mk("jstr", t)


def tid_of(J, path):
    for k, t in enumerate(J["types"]):
        if t and t["k"] == "adt" and t["path"] == path: return k
    return None


class Schema:
    """the JSON that a value of a type of the crate has to become, as a term over the value"""

    def __init__(self, cx):
        self.cx, self.F, self.J = cx, cx.F, cx.J
        F = cx.F
        _pairs[:] = [(F.it["df"], F.it["docs"]), (F.ds["length"], F.ds["docs"])]

    def fty(self, path, ix):
        a = adt_of(self.J, path)
        return a["variants"][0]["fields"][ix]["ty"]

    def std(self, it, st, path, v, ix):
        """a field of a standard type, its parts of crate types by their own schema"""
        return SM.ser1(it, st, fld(v, ix), self.fty(path, ix))

    def obj(self, **kw): return SM.jobj(None, seq(*[mk("one", tup(S(k), x)) for k, x in kw.items()]))

    def __call__(self, it, st, path, v, tid=None):
        F = self.F
        if path == PIPE:
            sq = as_seq(M.coll_seq(it, st, fld(v, F.queue), None))
            n = fresh("n")
            return mk("jarr", comp(lam(n, seq(mk("one", jstr(mk("call", NAME_FN, elem(sq, n)))))), seqlen(sq)))
        if path == TF: return self.obj(tf=mk("jnum", fld(v, self.tf())))
        if path == II: return self.obj(root=self.node(it, st, fld(v, F.ii["root"])))
        if path == ITEM: return mk("jser", ITEM, v)
        if path == STORE:
            d = F.ds
            return self.obj(save=self.std(it, st, STORE, v, d["save"]), docs=self.std(it, st, STORE, v, d["docs"]),
                            docInfo=self.std(it, st, STORE, v, d["doc_info"]), length=self.std(it, st, STORE, v, d["length"]))
        return None

    def tf(self):
        k = field_ix(self.J, TF, "term_freq", "^f64$")
        if k is None: k = field_ix(self.J, TF, None, "^f64$")
        return k if k is not None else 0

    def node(self, it, st, v):
        F = self.F.it
        ch = SM.ser1(it, st, fld(v, F["children"]), self.fty(ITEM, F["children"]))
        docs = SM.ser1(it, st, fld(v, F["docs"]), self.fty(ITEM, F["docs"]))
        own = seq(mk("one", tup(S("docs"), docs)), mk("one", tup(S("df"), mk("jint", fld(v, F["df"])))))
        return SM.jobj(None, seq(own, ch.a[0]))

    def index(self, it, st, v):
        x = self.F.ix
        g = lambda n: self.std(it, st, INDEX, v, x[n])
        return self.obj(fields=g("fields"), pipeline=self(it, st, PIPE, fld(v, x["pipeline"])), ref=jstr(fld(v, x["ref"])),
                        version=jstr(fld(v, x["version"])), index=g("index"), documentStore=self(it, st, STORE, fld(v, x["store"])),
                        lang=jstr(mk("call", NAME_LANG, fld(v, x["lang"]))))

    def of(self, path, v):
        it = Interp(self.J)
        it.ser_hook = self
        st = State({}, {})
        if path == INDEX: return self.index(it, st, v)
        if path == ITEM: return self.node(it, st, v)
        return self(it, st, path, v)


def serializer(cx, path, v=None, facts=None):
    """interprets Serialize for the type: Run, or None when the type has none"""
    tid = tid_of(cx.J, path)
    i = SM.instance(Interp(cx.J), tid, path) if tid is not None else None
    if i is None: return None
    a = {1: adt(SM.SER, 0)}
    if v is not None: a[0] = v
    R = run_fn(cx, "", inst=i, args=a, facts=facts)
    R.path = "Serialize for " + path
    return R


def members(j):
    """constant keys -> values, and the other pieces of an object"""
    m, rest, dup = {}, [], []
    for p in as_seq(j.a[0]).a[0]:
        k = SM.const_key(p)
        if k is None: rest.append(p)
        elif k in m: dup.append(k)
        else: m[k] = p.a[0].a[1]
    return m, rest, dup


def differs(got, want, facts, at=""):
    """how the JSON differs from the expected one: (key, text), or None"""
    if same(got, want, facts): return None
    got, want = norm_under(got, facts), norm_under(want, facts)
    for x, y in ((got, want), (want, got)):
        if x.op == "dd":
            for g, _ in paths(x):
                f2 = feasible(facts, g)
                if f2 is None: continue
                d = differs(got, want, f2, at)
                if d: return d
            return None
    if got.op == "jobj" and want.op == "jobj":
        a, ra, dup = members(got)
        b, rb, _ = members(want)
        here = at or "the object"
        if dup: return "keys:" + at, "%s has the key %r twice" % (here, dup[0])
        for k in b:
            if k not in a: return "keys:" + at, "%s lacks the key %r (it has %s)" % (here, k, ", ".join(map(repr, a)) or "none")
        for k in a:
            if k not in b: return "keys:" + at, "%s has a key %r that the format does not have" % (here, k)
        for k in b:
            d = differs(a[k], b[k], facts, (at + "." if at else "") + k)
            if d: return d
        if not ra and not rb: return None
        if len(ra) == 1 and len(rb) == 1:
            d = inner(ra[0], rb[0], facts, at)
            if d is not False: return d
            return ("members:" + at, "%s has the members %s, expected %s" % (here, show(ra[0], 6)[:300], show(rb[0], 6)[:300]))
        if len(ra) != len(rb) and not ra: return "members:" + at, "%s lacks the members %s" % (here, show(rb[0], 6)[:300])
        return "members:" + at, "%s has the members %s, expected %s" % (here, "; ".join(show(x, 6)[:300] for x in ra), "; ".join(show(x, 6)[:300] for x in rb) or "none")
    if got.op == "jarr" and want.op == "jarr":
        ra, rb = as_seq(got.a[0]).a[0], as_seq(want.a[0]).a[0]
        if len(ra) == 1 and len(rb) == 1:
            d = inner(ra[0], rb[0], facts, at)
            if d is not False: return d
    if counted(got, want): return None
    return "value:" + at, "%s is %s, expected %s" % (at or "the value", show(got, 6)[:300], show(want, 6)[:300])


_pairs = []


def counted(got, want):
    """the counters of a node (C04) and of the store (C01) equal the sizes of the maps they count"""
    if got.op != "jint" or want.op != "jint": return False
    g, w = got.a[0], want.a[0]
    if g.op != "mlen" or g.a[0].op != "fld" or w.op != "fld": return False
    return any(g.a[0] is fld(w.a[0], d) and w is fld(w.a[0], c) for c, d in _pairs)


def inner(p, q, facts, at):
    """difference between two mapped sequences over the same domain: (key, text), None when there is
    none, False when they cannot be compared element by element"""
    if p.op != "comp" or q.op != "comp" or not same(p.a[1], q.a[1], facts): return False
    n = fresh("n")
    x, y = app(p.a[0], n), app(q.a[0], n)
    f2 = dict(facts)
    f2[n] = NONNEG
    x, y = norm_under(x, f2), norm_under(y, f2)
    px, py = as_seq(x).a[0] if x.op == "seq" else (), as_seq(y).a[0] if y.op == "seq" else ()
    if len(px) == 1 and len(py) == 1 and px[0].op == "one" and py[0].op == "one":
        a, b = px[0].a[0], py[0].a[0]
        if a.op == "tup" and b.op == "tup":
            if not same(a.a[0], b.a[0], f2): return "keys:" + at + "[]", "the keys of %s are %s, expected %s" % (at or "the object", show(a.a[0], 5), show(b.a[0], 5))
            return differs(a.a[1], b.a[1], f2, at + "[]")
        return differs(a, b, f2, at + "[]")
    return False


def against(cx, R, want, rule, base_key):
    """every outcome of the serializer is Ok with the expected JSON"""
    if R.err:
        cx.undecided("%s: %s" % (R.path, R.err))
        return
    g = gaps(R)
    for s, r in R.res:
        for l in (leaves(r) if r.op == "dd" else [r]):
            if l.op != "adt" or l.a[0] != RES:
                cx.check(None, base_key, R.path, "returns %s" % show(l, 5), rule)
                continue
            if l.a[1] == 1: continue         # C26
            d = differs(l.a[2], want, s.facts)
            ok = d is None
            if not ok and (g or opaque_json(l.a[2])): ok = None
            key, text = d or (base_key, "agrees with the schema")
            cx.check(ok, base_key + "/" + key if d else base_key, R.path, text + ("; " + g if ok is None else ""), rule)


def opaque_json(t): return any(x.op in ("hav", "post", "nojson", "badkey") or x.op == "jser" and x.a[0] != ITEM for x in subterms(t))


def C23(cx):
    F = cx.F
    if not need(cx, *(list(F.ix.values()) + list(F.ds.values()) + list(F.it.values()) + list(F.ii.values()) + [F.queue])): return
    cx.rule = ("the JSON term that each serializer yields has exactly the members of the elasticlunr.js 0.9.5 format, each with the value it names; the version "
               "of a built index is \"0.9.5\" and no operation changes it; both output functions print that term")
    sc = Schema(cx)
    for path in (INDEX, PIPE, II, ITEM, TF, STORE):
        v = sym("v", None)
        R = serializer(cx, path, v)
        if R is None:
            cx.undecided("no serializer of %s found" % path)
            continue
        against(cx, R, sc.of(path, v), "schema of " + path.split("::")[-1], path.split("::")[-1])
    # output functions
    for name in ("to_json", "to_json_pretty"):
        def deep(it): it.json_deep = True
        R = run_fn(cx, INDEX + "::" + name, setup=deep)
        if R is None:
            cx.undecided("no function Index::" + name)
            continue
        want = sc.of(INDEX, R.args[0])
        if R.err:
            cx.undecided("%s: %s" % (R.path, R.err))
            continue
        g = gaps(R)
        for s, v in R.res:
            for l in (leaves(v) if v.op == "dd" else [v]):
                if l.op in ("jcompact", "jpretty"):
                    d = differs(l.a[0], want, s.facts)
                    ok = d is None or (None if g or opaque_json(l.a[0]) else False)
                    cx.check(ok, "%s/%s" % (name, d[0]) if d else name, R.path, d[1] if d else "prints the index", "output")
                else:
                    cx.check(None if g else False, name + "/text", R.path, "%s does not return the serialized index but %s" % (name, show(l, 4)[:300]), "output")
    # version
    n = 0
    for path, sig in methods_of(cx, INDEX):
        if "&mut Index" in sig:
            R = cx.index_run(path)
            if R is None: continue
            me = R.self0
            def chk(s, v):
                return same(fld(R.final(s), F.ix["version"]), fld(me, F.ix["version"]), s.facts), "version", "%s changes the version" % path
            each_outcome(cx, R, "version is kept", chk)
    for path, sig in makers(cx):
        R = run_fn(cx, path)
        if R is None: continue
        n += 1
        def chk(s, v):
            x = fld(v, F.ix["version"])
            return same(x, S(VERSION), s.facts), "version", "%s makes an index whose version is %s" % (path, show(x))
        each_outcome(cx, R, "version of a new index", chk)
    cx.check(True if n else None, "version", INDEX, "constructors of an index: %d" % n, "version of a new index")


def methods_of(cx, ty):
    out = []
    for f in cx.J["fns"]:
        if re.match(re.escape(ty) + r"::(\w+)$", f["path"]): out.append((f["path"], f["sig"]))
    return out


def makers(cx):
    """public functions without generics that return an index, and the builder's build"""
    out = []
    for f in cx.J["fns"]:
        if re.search(r"-> (elasticlunr::)?Index$", f["sig"].strip()): out.append((f["path"], f["sig"]))
    if not any(p.endswith("::build") for p, _ in out): out.append((P + "IndexBuilder::build", ""))
    return out


def each_outcome(cx, R, rule, f):
    g = gaps(R)
    if R.err:
        cx.undecided("%s: %s" % (R.path, R.err))
        return
    for s, v in R.res:
        ok, key, text = f(s, v)
        if not ok and g: ok = None
        cx.check(ok, key, R.path, text, rule)


def need(cx, *ix):
    if any(i is None for i in ix):
        cx.undecided("the fields of the analysed types have another shape")
        return False
    return True


def pipeline_names(cx):
    """the serialized pipeline is the list of the names of the queue's functions, in order"""
    if not need(cx, cx.F.queue): return
    v = sym("v", None)
    R = serializer(cx, PIPE, v)
    if R is None:
        cx.undecided("no serializer of the pipeline found")
        return
    against(cx, R, Schema(cx).of(PIPE, v), "serialized names", "serialized")


# ---------------------------------------------------------------- C25
def variant_ix(J, path, name):
    a = adt_of(J, path)
    for k, v in enumerate(a["variants"] if a else []):
        if v["name"] == name: return k
    return None


def C25(cx):
    J = cx.J
    cx.rule = ("the JSON term of a search configuration has the members bool, expand and fields; the term of a field's options has boost, bool and expand, "
               "each exactly on the paths where the option is set; the boolean model is printed as \"OR\" or \"AND\"; Default gives OR, no expansion, no fields")
    o = {n: field_ix(J, SO, n) for n in ("bool", "expand", "fields")}
    p = {n: field_ix(J, SOF, n) for n in ("boost", "bool", "expand")}
    vo, va = variant_ix(J, SB, "Or"), variant_ix(J, SB, "And")
    if not need(cx, vo, va, *(list(o.values()) + list(p.values()))): return
    disc_of = lambda v: decided(disc(v, 2), {}) if v.op != "adt" else v.a[1]
    # the boolean model
    v = sym("v", None)
    want_bool = lambda v: ite(inn(disc(v, 2), IntSet([(va, va)])), jstr(S("AND")), jstr(S("OR")))
    R = serializer(cx, SB, v)
    if R is None: cx.undecided("no serializer of SearchBool found")
    else: against(cx, R, want_bool(v), "boolean model", "SearchBool")

    def field_json(v):
        """cases: (facts, json)"""
        out = []
        opts = [("boost", lambda x: mk("jint", x)), ("bool", want_bool), ("expand", lambda x: mk("jbool", as_bool(inn(x, ONE))))]
        def go(k, g, ms):
            if k == len(opts):
                out.append((g, SM.jobj(None, seq(*ms))))
                return
            n, f = opts[k]
            x = fld(v, p[n])
            d = disc(x, 2)
            go(k + 1, dict(g, **{}) | {d: ZERO}, ms)
            go(k + 1, dict(g) | {d: ONE}, ms + [mk("one", tup(S(n), f(fld(x, 0, 1))))])
        go(0, {}, [])
        return ddcases(out)
    R = serializer(cx, SOF, v)
    if R is None: cx.undecided("no serializer of SearchOptionsField found")
    else: against(cx, R, field_json(v), "options of a field", "SearchOptionsField")

    class Hook:
        def __call__(self, it, st, path, x, tid=None):
            if path == SB: return want_bool(x)
            if path == SOF: return field_json(x)
            return None
    it = Interp(J)
    it.ser_hook = Hook()
    st = State({}, {})
    a = adt_of(J, SO)
    t = lambda n: a["variants"][0]["fields"][o[n]]["ty"]
    want = SM.jobj(None, seq(*[mk("one", tup(S(n), SM.ser1(it, st, fld(v, o[n]), t(n)))) for n in o]))
    R = serializer(cx, SO, v)
    if R is None: cx.undecided("no serializer of SearchOptions found")
    else: against(cx, R, want, "search options", "SearchOptions")
    # defaults
    for path, chk in ((SB, lambda x: ("OR", same(disc(x, 2) if x.op != "adt" else I(x.a[1]), I(vo), {}))),
                      (SO, lambda x: ("OR, no expansion, no fields", same(disc_t(fld(x, o["bool"])), I(vo), {}) and same(as_bool(fld(x, o["expand"])), FALSE, {})
                                      and same(fld(x, o["fields"]), MEMPTY, {}))),
                      (SOF, lambda x: ("no option set", all(same(disc_t(fld(x, k)), I(0), {}) for k in p.values())))):
        i = default_inst(J, path)
        if i is None:
            cx.undecided("no Default for " + path)
            continue
        R = run_fn(cx, "", inst=i)
        R.path = "Default for " + path
        def f(s, v):
            what, ok = chk(v)
            return ok, "default:" + path.split("::")[-1], "the default is %s, expected %s" % (show(v, 4), what)
        each_outcome(cx, R, "default", f)


def disc_t(x): return I(x.a[1]) if x.op == "adt" else disc(x, 2)


def default_inst(J, path):
    for i, x in enumerate(J["insts"]):
        if x and x.get("body") and x["path"] in ("<%s as std::default::Default>::default" % path,) or \
           x and x.get("body") and x["path"].endswith("<impl std::default::Default for %s>::default" % path): return i
    return None


# ---------------------------------------------------------------- C26
def C26(cx):
    cx.rule = ("on every path of every serializer reached from an index: the result is Ok, given that writing to a string succeeds; every map key is text; "
               "an announced number of entries is the number of entries written; no panic on the way out of to_json and to_json_pretty")
    runs = []
    for path in (INDEX, PIPE, II, ITEM, TF, STORE):
        v = sym("v", None)
        R = serializer(cx, path, v)
        if R is None:
            cx.undecided("no serializer of %s found" % path)
            continue
        runs.append(R)
    for name in ("to_json", "to_json_pretty"):
        def deep(it): it.json_deep = True
        R = run_fn(cx, INDEX + "::" + name, setup=deep)
        if R is None:
            cx.undecided("no function Index::" + name)
            continue
        runs.append(R)
    for R in runs:
        # making a language's dictionary is outside the statement, and changes nothing else
        R.unknown = [u for u in R.unknown if not re.search(r"\b(lindera|jieba)", u)]
        R.panics = [p for p in R.panics if not any(re.search(r"lang::(ja|zh)\b", q) for q in p["stack"])]
        g = gaps(R)
        if R.err: cx.undecided("%s: %s" % (R.path, R.err))
        tail = R.path.split("::")[-1]
        und = lambda ok: None if not ok and g else ok
        for s, r in R.res:
            bad = [l for l in (leaves(r) if r.op == "dd" else [r]) if l.op == "adt" and l.a[0] == RES and l.a[1] == 1]
            for l in bad:
                cx.check(und(False), "error:" + tail, R.path, "fails with %s (when %s)" % (show(l.a[2], 5)[:200], show_facts(s.facts)), "result")
            if not bad: cx.check(True, "error:" + tail, R.path, "succeeds", "result")
        for f, gg, e in R.it.ser_err:
            cx.check(und(False), "error:" + tail, R.path, "fails on a part with %s (when %s)" % (show(e, 5)[:200], show_facts(gg)), "result of a part")
        for j in R.it.ser_badkey:
            cx.check(und(False), "key:" + tail, R.path, "a map key becomes %s, which is not text" % show(j, 5)[:200], "map keys")
        for f, n, m, stack in R.it.ser_len:
            where = R.it.insts[stack[-1]]["path"] if stack else R.path
            cx.check(und(same(n, m, f)), "announced:" + where, where, "announces %s entries and writes %s (when %s)" % (
                show(norm_under(n, f), 5)[:160], show(norm_under(m, f), 5)[:160], show_facts(f)), "announced length")
        seen = set()
        for pn in R.panics:
            k = (pn[0] if isinstance(pn, tuple) else str(pn))
            cx.check(und(False), "panic:" + tail, R.path, "may panic: %s" % (str(pn)[:300],), "no panic")
        if not R.panics and not R.err: cx.check(True, "panic:" + tail, R.path, "no panic", "no panic")


# ---------------------------------------------------------------- C24
def reads_as(it, got, want, tid, facts, at=""):
    """how a value that was read differs from the one that was written: None, or (place, text, definite)"""
    got, want = norm_under(got, facts), norm_under(want, facts)
    if got is want or same(got, want, facts): return None
    t = it.ty(tid) if tid is not None else None
    if t and t["k"] == "bool" and not vague(got):
        b = lambda x: norm_under(as_bool(x if x.op in ("dd", "bool") else inn(x, ONE)), facts)
        if b(got) is b(want): return None
        return at, "%s is read back as %s" % (show(want, 5)[:120], show(got, 5)[:160]), True
    if got.op == "dd" or want.op == "dd":
        x = got if got.op == "dd" else want
        for g, _ in paths(x):
            f2 = feasible(facts, g)
            if f2 is None: continue
            d = reads_as(it, got, want, tid, f2, at)
            if d: return d
        return None
    k = t["k"] if t else None
    p = t.get("path", "").split("::")[-1] if t else ""
    bad = (at, "%s is read back as %s" % (show(want, 5)[:120], show(got, 5)[:160]), not vague(got))
    if k == "adt" and got.op == "adt":
        if p == "Option" or "enum" in (t.get("kind") or "") or got.a[1] or norm_under(disc(want, 2), facts).op == "int":
            d = decided(disc(want, 2), facts)
            if d is not None and d != got.a[1]: return bad
            if d is None and want.op != "adt" and p == "Option": return at, "an option of unknown state", False
        fs = fields_of(it, t, got.a[1])
        for n, x in enumerate(got.a[2:]):
            nm, ft, skip = fs[n] if n < len(fs) else (str(n), None, False)
            w = want.a[2 + n] if want.op == "adt" else fld(want, n, got.a[1] if p == "Option" else None)
            if p == "Box" or skip: continue
            d = reads_as(it, x, w, ft, facts, at + "." + nm)
            if d: return d
        return None
    if k == "tuple" and got.op == "tup":
        for n, x in enumerate(got.a):
            d = reads_as(it, x, fld(want, n), t["elems"][n], facts, at + "." + str(n))
            if d: return d
        return None
    if k == "adt" and p in ("BTreeMap", "HashMap") and t.get("args"):
        at2 = at + "[…]"
        if got is MEMPTY: return None if decided(mlen(want), facts) == 0 else bad
        if got.op == "mapof":
            whole = same(got.a[1], mlen(want), facts)
            n = fresh("n")
            e = app(got.a[0], n)
            key = fld(e, 0)
            if key.op in ("key", "hkey") and key.a[0] is want:
                vt = [a for a in t["args"] if isinstance(a, int)][1]
                f2 = dict(facts)
                return reads_as(it, fld(e, 1), mget(want, key), vt, f2, at2) or (None if whole or key.a[1] is not n else bad)
        return bad
    if got.op == "seq" or want.op == "seq":
        n = decided(seqlen(want), facts)
        if n == 0 and got is EMPTY: return None
        if got.op == "seq" and len(got.a[0]) == 1 and same(seqlen(got), seqlen(want), facts):
            n = fresh("n")
            et = [a for a in t["args"] if isinstance(a, int)][0] if t and t.get("args") else None
            return reads_as(it, elem(got, n), elem(want, n), et, facts, at + "[…]")
    return bad


def vague(t): return any(x.op in ("hav", "post", "nojson", "call") for x in subterms(t))


def fields_of(it, t, v):
    """(name, type, not serialized) of the fields of a variant"""
    a = adt_of(it.J if hasattr(it, "J") else it.dump, t.get("path"))
    if a is None:
        args = [x for x in t.get("args", []) if isinstance(x, int)]
        return [("0", args[0] if args else None, False)]
    fs = a["variants"][v]["fields"] if v < len(a["variants"]) else []
    return [(f["name"], f["ty"], it.ty(f["ty"]).get("k") == "dyn" or "dyn" in it.ty(f["ty"]).get("s", "")) for f in fs]


def C24(cx):
    import de_model as DM
    J = cx.J
    cx.rule = ("the reader of each type is interpreted on the JSON term that the type's writer yields: no path of the reader ends in an error, "
               "and every field of the value that is read is the field that was written (boxed functions excepted)")
    names = {l.name for l in __import__("langs").languages(cx)}
    n = 0
    for a in J["adts"]:
        path = a["path"]
        if not path.startswith("elasticlunr::") or "::_::" in path or "{" in path: continue
        v = sym("v", None)
        try: W = serializer(cx, path, v)
        except Limit as e:
            cx.undecided("%s: %s" % (path, e))
            continue
        tid = tid_of(J, path)
        it0 = Interp(J)
        i = DM.instance(it0, tid) if tid is not None else None
        if W is None or i is None: continue
        n += 1
        P = it0.insts[i]["path"].replace("::_::", "::")
        P = "Deserialize for " + path
        if W.err:
            cx.undecided("%s: %s" % (W.path, W.err))
            continue
        for s, r in W.res:
            if r.op != "adt" or r.a[0] != RES: cx.undecided("%s: the writer yields %s" % (path, show(r, 3)))
            elif r.a[1] == 0: reader(cx, DM, path, tid, i, P, v, s, r.a[2], names)
    cx.check(True if n else None, "types", "elasticlunr", "types that are written and read: %d" % n, "types")


def reader(cx, DM, path, tid, i, P, v, s, j, names):
    it = Interp(cx.J)
    it.unroll = 40
    try: res = it.call_inst(i, [DM.de(j)], State({}, dict(s.facts)))
    except (Limit, Impure, RecursionError) as e:
        cx.undecided("%s: %s" % (P, str(e)[:300]))
        return
    unk = [u for u in it.unknown if not any(w in u for w in ("jieba", "lindera"))]
    g = "no model of " + ", ".join(short(u) for u in unk[:4]) if unk else ""
    J = cx.J

    named = lambda x: x.op == "call" and str(x.a[0]).endswith("Language::name")

    def error(facts, e):
        where = path
        others = set()
        for k, x in facts.items():
            # compared with the name of every language of the crate, one by one, and equal to none
            if k.op == "eq" and all(map(named, k.a)) and x.single() == 0:
                others |= {l.name for l in __import__("langs").languages(cx) for y in k.a if len(y.a) > 1 and y.a[1].op == "adt" and y.a[1].a[0] == l.path}
        if names and names <= others: return
        while e.op == "sererr" and e.a[0].op == "str" and e.a[0].a[0].startswith("\0"): where, e = e.a[0].a[0][1:], e.a[1]
        for k, x in facts.items():
            # a language that the crate does not know cannot be read back
            if k.op == "call" and str(k.a[0]).endswith("Language::name") and x.kind == "S" and x.n and names <= set(x.s): return
        what = " ".join(y.a[0] if y.op == "str" else show(y, 3) for y in e.a) if e.op == "sererr" else show(e, 4)
        cx.check(None if g or vague(e) and e.op != "sererr" else False, "reader:%s:%s" % (where.split("::")[-1], what[:80]), "Deserialize for " + where, "reading back what the writer of %s emits fails: %s, when %s" % (path.split("::")[-1], what[:200], show_facts(facts)[:200]), "accepted")
    errs = [(f, e) for s2, x in res for f, e in ([(s2.facts, x.a[2])] if x.op == "adt" and x.a[0] == RES and x.a[1] == 1 else [])]
    errs += [(g2, e) for f, g2, e, st in it.de_err]
    for f, e in errs: error(f, e)
    for s2, x in res:
        if x.op != "adt" or x.a[0] != RES:
            cx.check(None, "reader:" + path, P, g or "the reader yields " + show(x, 3), "accepted")
            continue
        if x.a[1] == 1: continue
        cx.check(True, "", P, "", "accepted")
        try: d = reads_as(it, it.deep(s2, x.a[2]), v, tid, s2.facts)
        except Limit as e: d = ("", str(e), False)
        if d is None: cx.check(True, "", P, "", "read back")
        else: cx.check(False if d[2] and not g else None, "value:%s%s" % (path.split("::")[-1], d[0]), P, "field %s: %s%s" % (d[0] or "itself", d[1], "; " + g if g else ""), "read back")


RULES = {"C24": C24, "C23": C23, "C25": C25, "C26": C26}
