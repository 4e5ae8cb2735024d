"""C01-C03: the document store."""
from base import *

DS = "elasticlunr::document_store::DocumentStore"
Q = mk("sym", "$q", None)


def methods(cx, ty, mut=None):
    """public operations of a type: (path, signature)"""
    out = []
    for f in cx.J["fns"]:
        m = re.match(re.escape(ty) + r"::(\w+)$", f["path"])
        if not m or not f.get("vis", True): continue
        tail = ty.split("elasticlunr::")[1]
        has_mut = ("&mut " + tail) in f["sig"]
        if mut is None or mut == has_mut: out.append((f["path"], f["sig"]))
    return out


def each(cx, R, rule, f):
    """applies f(state, value) -> (ok, text) to every non-panicking outcome"""
    if R is None: return
    g = gaps(R)
    if R.err:
        cx.undecided("%s: %s" % (R.path, R.err))
        return
    for s, v in R.res:
        ok, key, text = f(s, v)
        if ok is False and g: ok = None
        cx.check(ok, key, R.path, text + " (when %s)%s" % (show_facts(s.facts), "; " + g if ok is None else ""), rule)


def need(cx, *ix):
    if any(i is None for i in ix):
        cx.undecided("the fields of the analysed type have another shape")
        return False
    return True


def inv_self(F, s):
    return upd(s, F.ds["length"], mlen(fld(s, F.ds["docs"])))


def keyset(cx, R, s, want, what):
    F = cx.F
    docs = fld(R.final(s), F.ds["docs"])
    return same(has(docs, Q), want, s.facts), "keys:" + what, "%s leaves the stored references %s, expected %s" % (what, show(has(docs, Q)), show(want))


def C01(cx):
    F = cx.F
    if not need(cx, *F.ds.values()): return
    cx.rule = "length == number of keys of docs: established by every constructor, preserved by every operation, returned by len()"
    L, D = F.ds["length"], F.ds["docs"]
    me = inv_self(F, sym("self", None))
    d0 = fld(me, D)

    def inv(v, facts): return same(fld(v, L), mlen(fld(v, D)), facts)
    for path, sig in methods(cx, DS):
        tail = path.split("::")[-1]
        mut = "&mut document_store::DocumentStore" in sig
        R = run_fn(cx, path, selfval=me if mut or "&document_store::DocumentStore" in sig else None)
        if R is None: continue
        if mut:
            def chk(s, v):
                f = R.final(s)
                return inv(f, s.facts), "length:" + tail, "%s leaves length = %s where docs has %s entries" % (
                    tail, show(norm_under(fld(f, L), s.facts)), show(norm_under(mlen(fld(f, D)), s.facts)))
            each(cx, R, "invariant", chk)
            if tail in ("add_doc", "remove_doc"):
                key = R.args.get(1)
                want = bor(eq(key, Q), has(d0, Q)) if tail == "add_doc" else band(bnot(eq(key, Q)), has(d0, Q))
                each(cx, R, "stored references", lambda s, v: keyset(cx, R, s, want, tail))
        elif "-> document_store::DocumentStore" in sig.replace("Self", "document_store::DocumentStore") and "&document_store" not in sig:
            each(cx, R, "constructor", lambda s, v: (inv(v, s.facts), "length:" + tail, "%s builds a store with length %s and %s documents" % (
                tail, show(fld(v, L)), show(mlen(fld(v, D))))))
        elif tail == "len":
            each(cx, R, "len()", lambda s, v: (same(v, mlen(d0), s.facts), "len", "len() returns %s" % show(v)))
    # the index writes its store only through operations that keep the invariant
    if F.ix["store"] is not None:
        x0 = sym("self", None)
        x = upd(x0, F.ix["store"], inv_self(F, fld(x0, F.ix["store"])))
        R = cx.index_run("elasticlunr::Index::add_doc", x)
        if R is not None:
            def chk(s, v):
                st = fld(R.final(s), F.ix["store"])
                return inv(st, s.facts), "length:Index::add_doc", "Index::add_doc leaves the store's length at %s for %s documents" % (
                    show(norm_under(fld(st, L), s.facts)), show(norm_under(mlen(fld(st, D)), s.facts)))
            each(cx, R, "invariant", chk)
    R = run_fn(cx, "elasticlunr::IndexBuilder::build")
    if R is not None and F.ix["store"] is not None:
        each(cx, R, "constructor", lambda s, v: (inv(fld(v, F.ix["store"]), s.facts), "length:build", "build() makes a store whose length is not its number of documents"))


def unchanged(cx, R, s, me, names, what):
    F = cx.F
    for n in names:
        a, b = fld(R.final(s), F.ds[n]), fld(me, F.ds[n])
        if not same(a, b, s.facts): return False, n + ":" + what, "%s changes %s to %s" % (what, n, show(norm_under(a, s.facts), 4))
    return True, "", ""


def C02(cx):
    F = cx.F
    if not need(cx, *F.ds.values()): return
    cx.rule = "docs after an addition is docs with the reference bound to the given document when saving is on and to the empty map when it is off; no other operation stores text or changes the setting"
    D, SV = F.ds["docs"], F.ds["save"]
    me = inv_self(F, sym("self", None))
    d0 = fld(me, D)
    on = inn(fld(me, SV), ONE)
    for path, sig in methods(cx, DS):
        tail = path.split("::")[-1]
        mut = "&mut document_store::DocumentStore" in sig
        R = run_fn(cx, path, selfval=me if "document_store::DocumentStore" in sig.split("->")[0] else None)
        if R is None: continue
        if tail == "add_doc" and mut:
            ref, doc = R.args[1], R.args[2]
            want = mins(d0, ref, ite(on, doc, MEMPTY))
            def chk(s, v):
                got = fld(R.final(s), D)
                for g, l in paths(on):
                    f2 = feasible(s.facts, g)
                    if f2 is None: continue
                    if not same(got, want, f2): return False, "stored:" + ("on" if l is TRUE else "off"), "with saving %s, add_doc makes docs %s; expected %s" % (
                        "on" if l is TRUE else "off", show(norm_under(got, f2), 4), show(norm_under(want, f2), 4))
                return True, "", "add_doc stores the document"
            each(cx, R, "add_doc", chk)
            each(cx, R, "frame", lambda s, v: unchanged(cx, R, s, me, ["save", "doc_info"], tail) if True else None)
        elif tail == "remove_doc" and mut:
            each(cx, R, "frame", lambda s, v: unchanged(cx, R, s, me, ["save"], tail))
        elif mut:
            # any other mutating operation keeps text and setting
            each(cx, R, "frame", lambda s, v: unchanged(cx, R, s, me, ["save", "docs"], tail))
        elif tail == "new":
            b = R.args.get(0)
            each(cx, R, "constructor", lambda s, v: (same(as_bool(fld(v, SV)), as_bool(b), s.facts) and same(fld(v, D), MEMPTY, s.facts), "new",
                                                     "new(save) sets save to %s and docs to %s" % (show(fld(v, SV)), show(fld(v, D)))))
        elif tail == "get_doc":
            want = M.opt(has(d0, R.args[1]), mget(d0, R.args[1]))
            each(cx, R, "get_doc", lambda s, v: (same(v, want, s.facts), "get_doc", "get_doc returns %s, expected %s" % (show(v), show(want))))
        elif tail == "has_doc":
            want = has(d0, R.args[1])
            each(cx, R, "has_doc", lambda s, v: (same(as_bool(v), want, s.facts), "has_doc", "has_doc returns %s" % show(v)))
        elif tail == "is_stored":
            each(cx, R, "is_stored", lambda s, v: (same(as_bool(v), on, s.facts), "is_stored", "is_stored returns %s" % show(v)))
    # through the index: with saving off the entry is empty, and nothing else in docs changes
    if F.ix["store"] is None: return
    x0 = sym("self", None)
    R = cx.index_run("elasticlunr::Index::add_doc", x0)
    if R is None: return
    S0 = fld(x0, F.ix["store"])

    def chk(s, v):
        st = fld(R.final(s), F.ix["store"])
        offg = inn(fld(S0, SV), ZERO)
        if not same(as_bool(fld(st, SV)), as_bool(fld(S0, SV)), s.facts): return False, "save:Index::add_doc", "Index::add_doc changes the save setting"
        for g, l in paths(offg):
            if l is not TRUE: continue
            f2 = feasible(s.facts, g)
            if f2 is None: continue
            want = mins(fld(S0, D), R.args[1], MEMPTY)
            if not same(fld(st, D), want, f2): return False, "off:Index::add_doc", "with saving off, Index::add_doc makes docs %s" % show(norm_under(fld(st, D), f2), 4)
        return True, "", "Index::add_doc with saving off"
    each(cx, R, "index", chk)


def C03(cx):
    F = cx.F
    if not need(cx, *F.ds.values()): return
    cx.rule = "remove_doc removes exactly the reference's entries from docs and doc_info"
    me = inv_self(F, sym("self", None))
    R = run_fn(cx, DS + "::remove_doc", selfval=me)
    if R is None: return cx.undecided("DocumentStore::remove_doc not found")
    ref = R.args[1]
    for n in ("docs", "doc_info"):
        want = mrem(fld(me, F.ds[n]), ref)
        each(cx, R, n, lambda s, v: (same_keep(fld(R.final(s), F.ds[n]), want, s.facts), "remove:" + n, "remove_doc leaves %s = %s, expected %s" % (
            n, show(norm_under(fld(R.final(s), F.ds[n]), s.facts), 4), show(want, 4))))
    each(cx, R, "frame", lambda s, v: unchanged(cx, R, s, me, ["save"], "remove_doc"))
    # recording a length touches one entry of one document; reading looks at that entry
    R = run_fn(cx, DS + "::add_field_length", selfval=me)
    if R is not None:
        i0 = fld(me, F.ds["doc_info"])
        r, f, n = R.args[1], R.args[2], R.args[3]
        want = mins(i0, r, mins(mgetd(i0, r, MEMPTY), f, n))
        each(cx, R, "add_field_length", lambda s, v: (same(fld(R.final(s), F.ds["doc_info"]), want, s.facts), "other documents", "add_field_length makes doc_info %s" % show(
            norm_under(fld(R.final(s), F.ds["doc_info"]), s.facts), 5)))
    R = run_fn(cx, DS + "::add_doc", selfval=me)
    if R is not None:
        each(cx, R, "frame", lambda s, v: unchanged(cx, R, s, me, ["doc_info"], "add_doc"))
        def others(s, v):
            d1, d0 = fld(R.final(s), F.ds["docs"]), fld(me, F.ds["docs"])
            for g, l in paths(eq(R.args[1], Q)):
                if l is TRUE: continue
                f2 = feasible(s.facts, g)
                if f2 is None: continue
                if not same(has(d1, Q), has(d0, Q), f2): return False, "others", "add_doc adds or removes another document"
            return True, "", "add_doc leaves the other documents"
        each(cx, R, "others", others)
    # a length is visible only if it is recorded under that very reference and field
    R = run_fn(cx, DS + "::get_field_length", selfval=me)
    if R is not None:
        i0, r, f = fld(me, F.ds["doc_info"]), R.args[1], R.args[2]
        rec = band(has(i0, r), has(mget(i0, r), f))
        def chk(s, v):
            for g, l in paths(rec):
                f2 = feasible(s.facts, g)
                if f2 is None: continue
                if l is TRUE:
                    if not (same(v, mget(mget(i0, r), f), f2) or same(v, I(0), f2)): return False, "get_field_length", "get_field_length returns %s" % show(norm_under(v, f2))
                elif not same(v, I(0), f2): return False, "get_field_length", "get_field_length returns %s for an unrecorded length" % show(norm_under(v, f2))
            return True, "", "get_field_length"
        each(cx, R, "get_field_length", chk)


RULES = {"C01": C01, "C02": C02, "C03": C03}
