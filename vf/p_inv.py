"""C04-C06: the inverted index."""
from base import *
from p_store import methods, each, need

II = "elasticlunr::inverted_index::InvertedIndex"
N_ = mk("sym", "$node", None)


def node_default(cx):
    """the node that IndexItem::default makes"""
    for i in Interp(cx.J).find(r"^<elasticlunr::inverted_index::IndexItem as std::default::Default>::default$"):
        it = Interp(cx.J)
        r = it.call_inst(i, [], State({}, {}))
        if len(r) == 1: return r[0][1]
    return None


class Shape:
    def __init__(self, cx):
        F = cx.F
        self.ok = need(cx, *F.it.values(), *F.ii.values())
        self.docs, self.df, self.ch = F.it["docs"], F.it["df"], F.it["children"]
        self.root = F.ii["root"]


def same_seq(a, b): return a is b


def presence(facts, root, i, S):
    """is the walk from root along S known to exist (True), to be missing (False), or neither (None)"""
    L = seqlen(S)
    for k, s in facts.items():
        if s == ZERO and k.op == "has":
            # an explicit missing step: has(children of a prefix node, next character)
            m, c = k.a
            w = m.a[0] if m.op == "fld" and m.a[1] == i else None
            if w is None: continue
            pre = EMPTY if w is root else w.a[2] if w.op in ("wget", "wgetd") and w.a[0] is root and w.a[1] == i else None
            if pre is None: continue
            if pre is EMPTY and c is elem(S, I(0)): return False
            n = seqlen(pre)
            if starts_with(S, pre) and c is elem(S, n): return False
    for c in (0, 1, 2):
        n = fresh("n")
        body = bnot(has(fld(wget(root, i, slice_(S, I(0), add(n, I(c)))), i), elem(S, add(n, I(c)))))
        cond = any_(lam(n, body), sub(L, I(c)))
        k = knowledge(facts, cond)
        if k is True: return False
        if k is False:
            first = True
            for j in range(c):
                h = knowledge(facts, has(fld(wget(root, i, slice_(S, I(0), I(j))), i), elem(S, I(j))))
                if h is False: return False
                if h is None: first = None
            if first: return True
    return None


def knowledge(facts, b):
    b = simp(as_bool(b), facts)
    if b.op == "bool": return b.a[0]
    return None


def walk_writes(t, root):
    """the writes on a walked root: list of (kind, i, S, value, default, before), innermost first, or None"""
    out = []
    while t is not root:
        if t.op in ("wput", "ens"):
            out.append((t.op, t.a[1], t.a[2], t.a[3] if t.op == "wput" else None, t.a[4] if t.op == "wput" else t.a[3], t.a[0]))
            t = t.a[0]
        else: return None
    return out[::-1]


def with_df(t, sh, facts):
    """the invariant df = number of docs for every node read in t"""
    m = {}
    for x in subterms(t):
        if x.op == "fld" and x.a[1] == sh.df and x.a[0].op in ("wget", "wgetd", "sym", "mget") and (len(x.a) < 3 or x.a[2] is None):
            m[x] = mlen(fld(x.a[0], sh.docs))
    return subst(t, m) if m else t


def C04(cx):
    sh = Shape(cx)
    if not sh.ok: return
    cx.rule = "doc_freq == number of keys of docs in every node: holds for a new node and is preserved by every write to a node; get_doc_frequency reads it"
    D = node_default(cx)
    if D is None: return cx.undecided("IndexItem::default not evaluated")
    cx.check(same(fld(D, sh.df), mlen(fld(D, sh.docs)), {}), "df:new", "IndexItem::default", "a new node has doc_freq %s and %s documents" % (show(fld(D, sh.df)), show(mlen(fld(D, sh.docs)))))
    for path, sig in methods(cx, II, True):
        tail = path.split("::")[-1]
        R = run_fn(cx, path)
        if R is None: continue

        def inv(R, s, v):
            root = fld(R.self0, sh.root)
            r1 = fld(R.final(s), sh.root)
            W = walk_writes(r1, root)
            if W is None:
                return None, "df:" + tail, "%s changes the index in an unrecognised way: %s" % (tail, show(r1, 5))
            for op, i, S, val, dflt, before in W:
                if dflt is not None and not same(fld(dflt, sh.df), mlen(fld(dflt, sh.docs)), s.facts): return False, "df:created", "%s creates nodes with doc_freq %s" % (tail, show(fld(dflt, sh.df)))
                if op == "ens": continue
                df, docs = with_df(fld(val, sh.df), sh, s.facts), with_df(fld(val, sh.docs), sh, s.facts)
                if not same(df, mlen(docs), s.facts):
                    return False, "df:" + tail, "%s leaves doc_freq = %s at a node holding %s documents" % (tail, show(norm_under(df, s.facts)), show(norm_under(mlen(docs), s.facts)))
            return True, "", "%s keeps doc_freq" % tail
        each4(cx, R, "node invariant", inv, tail)
        if tail in ("add_token", "remove_token"):
            def eff(R, s, v):
                ref, root = R.args[1], fld(R.self0, sh.root)
                r1 = fld(R.final(s), sh.root)
                W = walk_writes(r1, root)
                if W is None: return None, "docs:" + tail, "unrecognised"
                for op, i, S, val, dflt, before in W:
                    if op == "ens": continue
                    base = base_node(val)
                    d0, d1 = fld(base, sh.docs), fld(val, sh.docs)
                    q = mk("sym", "$q", None)
                    if S is not M.chars_of(R.args[2]):
                        # an entry on the way keeps its documents
                        if not same_docs(cx, d1, d0, ref, s.facts): return False, "docs:" + tail, "%s changes the documents of another entry to %s" % (tail, show(norm_under(d1, s.facts)))
                        continue
                    want = bor(eq(ref, q), has(d0, q)) if tail == "add_token" else band(bnot(eq(ref, q)), has(d0, q))
                    ok = same(has(d1, q), want, s.facts)
                    if not ok and any(x.op == "mkeep" for x in subterms(d1)) and not refuted(has(d1, q), want, s.facts, q): ok = None
                    if not ok: return ok, "docs:" + tail, "%s leaves the documents %s at the token's entry" % (tail, show(norm_under(d1, s.facts)))
                    if tail == "add_token":
                        got, exp = tf_of(cx, mget(d1, ref)), R.args[3]
                        for g, l in paths(has(d0, ref)):
                            f2 = feasible(s.facts, g)
                            if f2 is not None and not same(got, exp, f2): return False, "freq:add_token", "the document's term frequency becomes %s instead of the given one" % show(norm_under(got, f2), 4)
                return True, "", "%s changes only its document" % tail
            each4(cx, R, "documents", eff, tail)
    R = run_fn(cx, II + "::get_doc_frequency")
    if R is not None: each4(cx, R, "get_doc_frequency", lookup_rule(cx, sh, "get_doc_frequency"), "get_doc_frequency")


def base_node(val):
    while val.op == "rec": val = val.a[0]
    return val


def each3(cx, R, rule, f):
    """as each, for rules that may also answer None"""
    if R is None: return
    if R.err:
        cx.undecided("%s: %s" % (R.path, R.err))
        return
    g = gaps(R)
    for s, v in R.res:
        ok, key, text = f(s, v)
        if ok is False and g: ok = None
        cx.check(ok, key, R.path, text + " (when %s)" % show_facts(s.facts), rule)


TOK = {"add_token": 2, "remove_token": 2, "has_token": 1, "get_docs": 1, "get_term_frequency": 2, "get_doc_frequency": 1}
SHORT = ("", "a", "ab", "aa", "a ", "A", " a", "\u00e9", "abc", "a1")


# one of each kind that the character tests of std tell apart
KINDS = ("\0", "\x1f", "\t", "\n", " ", "0", "9", "Z", "_", "-", "/", "\x7f", "\x85", "\xa0", "\u00df", "\u00b2", "\u0130", "\u0663", "\u0301", "\u200b", "\u2028", "\u4e2d", "\ufeff", "\U0001f600")
RICH = tuple(t for c in KINDS for t in (c, "a" + c, c + "a", c + c))


def each4(cx, R, rule, f, tail):
    """as each3; where the walk is not recognised for an arbitrary token, it is looked at for some short
    constant tokens, whose walks are straight lines. Those can only show that the rule is broken."""
    if R is None: return
    g = gaps(R)
    rs = [] if R.err else [f(R, s, v) for s, v in R.res]
    if (R.err or any(r[0] is None or r[0] is False and g for r in rs)) and tail in TOK:
        for c in SHORT + tuple(special_texts(R.it)) + RICH:
            Q = run_fn(cx, R.path, args={TOK[tail]: S(c)})
            if Q is None or Q.err or gaps(Q): continue
            for s, v in Q.res:
                if any(unfolded(k) for k in s.facts): continue
                ok, key, text = f(Q, s, v)
                if ok is False:
                    cx.check(False, key, R.path, text + " (for the token %r, when %s)" % (c, show_facts(s.facts)), rule)
                    return
    if R.err:
        cx.undecided("%s: %s" % (R.path, R.err))
        return
    for (s, v), (ok, key, text) in zip(R.res, rs):
        if ok is False and g: ok = None
        cx.check(ok, key, R.path, text + " (when %s)" % show_facts(s.facts), rule)


def C05(cx):
    sh = Shape(cx)
    if not sh.ok: return
    cx.rule = "the walk of every operation follows exactly the token's characters; only the node at its end is written, and only when the token is not empty"
    for tail in ("add_token", "remove_token"):
        R = run_fn(cx, II + "::" + tail)
        if R is None:
            cx.undecided(tail + " not found")
            continue

        def where(R, s, v):
            root = fld(R.self0, sh.root)
            ref, tok = R.args[1], R.args[2]
            S = M.chars_of(tok)
            r1 = fld(R.final(s), sh.root)
            for g, l in paths(inn(tok, StrSet([""]))):
                f2 = feasible(s.facts, g)
                if f2 is None: continue
                x = norm_under(r1, f2)
                if l is TRUE:
                    if x is not root and not same(x, root, f2): return False, "empty:" + tail, "%s with an empty token changes the index" % tail
                    continue
                W = walk_writes(x, root)
                if W is None: return None, "where:" + tail, "%s changes the index in an unrecognised way: %s" % (tail, show(x, 5))
                puts = [w for w in W if w[0] == "wput" and w[2] is S]
                for w in W:
                    if not (w[2] is S or starts_with(S, w[2]) and (w[0] == "ens" or same(fld(w[3], sh.docs), fld(base_node(w[3]), sh.docs), f2))): return False, "where:" + tail, "%s walks along %s instead of the token's characters" % (tail, show(w[2], 6))
                    if w[1] != sh.ch: return False, "where:" + tail, "%s walks through another field" % tail
                p = presence(s.facts, root, sh.ch, S)
                if p is None and opaque_walk(s.facts, root, sh.ch): return None, "where:" + tail, "%s: a step of the walk is not recognised" % tail
                if tail == "remove_token":
                    if any(w[0] == "ens" for w in W) or any(base_node(w[3]).op == "wgetd" for w in puts): return False, "creates:remove_token", "remove_token creates entries"
                    N = wget(root, sh.ch, S)
                    if p is True:
                        want = wput(root, sh.ch, S, upd(N, sh.docs, mrem(fld(N, sh.docs), ref)))
                        got = fld(puts[0][3], sh.docs) if len(puts) == 1 else fld(N, sh.docs) if not puts else None
                        ok = got is not None and same_keep(got, mrem(fld(N, sh.docs), ref), f2)
                        if not ok: return ok, "effect:remove_token", "remove_token leaves the documents %s at the token" % (show(norm_under(got, f2)) if got is not None else "?")
                    elif p is False:
                        if puts: return False, "effect:remove_token", "remove_token writes although the token is unknown"
                    elif puts: return None, "effect:remove_token", "remove_token: presence of the token not established"
                    else: return None, "effect:remove_token", "remove_token leaves the index as it is without a recognised test of the token's presence"
                else:
                    if len(puts) != 1: return False, "effect:add_token", "add_token writes %d entries" % len(puts)
                    V = puts[0][3]
                    N = base_node(V)
                    if N.op not in ("wgetd", "wget") or N.a[0] is not root or N.a[2] is not S: return False, "effect:add_token", "add_token writes a value that is not the token's own entry"
                    d0, d1 = fld(N, sh.docs), fld(V, sh.docs)
                    want = mins(d0, ref, tf_value(cx, R.args[3]))
                    if not same_docs(cx, d1, want, ref, f2): return False, "effect:add_token", "add_token leaves the documents %s, expected %s" % (show(norm_under(fld(V, sh.docs), f2), 4), show(want, 4))
                for w in puts:
                    if not same(fld(w[3], sh.ch), fld(base_node(w[3]), sh.ch), f2): return False, "children:" + tail, "%s changes the entries below the token" % tail
            return True, "", "%s writes at the token's own entry" % tail
        each4(cx, R, tail, where, tail)
    lookup(cx, sh, "C05")


def tf_value(cx, tf):
    """the value stored for a term frequency"""
    a = adt_of(cx.J, "elasticlunr::inverted_index::TermFrequency")
    if a is None: return tf
    return adt(a["path"], 0, tf)


def same_docs(cx, a, b, ref, facts):
    """the same documents with the same frequencies, seen at an arbitrary document"""
    if same(a, b, facts): return True
    q = mk("sym", "$q", None)
    if not same(has(a, q), has(b, q), facts): return False
    for g, l in paths(has(b, q)):
        if l is not TRUE: continue
        f2 = feasible(facts, g)
        if f2 is not None and not same(tf_of(cx, mget(a, q)), tf_of(cx, mget(b, q)), f2): return False
    return True


def tf_of(cx, v): return fld(v, 0) if adt_of(cx.J, "elasticlunr::inverted_index::TermFrequency") else v


def lookup(cx, sh, pid):
    """every lookup reads the entry at the token's own characters"""
    for tail in ("has_token", "get_docs", "get_term_frequency", "get_doc_frequency"):
        R = run_fn(cx, II + "::" + tail)
        if R is None:
            cx.undecided(tail + " not found")
            continue
        each4(cx, R, "lookup " + tail, lookup_rule(cx, sh, tail), tail)


def opaque_walk(facts, root, i):
    """is there a fact about an entry that is not of a recognised walk from the root"""
    for k in facts:
        if k.op == "has" and k.a[0].op == "fld" and k.a[0].a[1] == i:
            w = k.a[0].a[0]
            if not (w is root or w.op in ("wget", "wgetd") and w.a[0] is root): return True
        elif k.op != "has" and loose(k, root): return True
    return False


def loose(t, root):
    """does the root occur elsewhere than at the start of a recognised walk"""
    if t is root: return True
    if not isinstance(t, T) and not isinstance(t, tuple): return False
    if isinstance(t, tuple): return any(loose(y, root) for y in t)
    if t.op in ("wget", "wgetd") and t.a[0] is root: return any(loose(y, root) for y in t.a[1:])
    return any(loose(y, root) for y in t.a)


def lookup_rule(cx, sh, tail):
    k = mk("sym", "$q", None)

    def chk(R, s, v):
        root = fld(R.self0, sh.root)
        S = M.chars_of(R.args[TOK[tail]])
        p = presence(s.facts, root, sh.ch, S)
        const = all(x.op == "one" and x.a[0].op == "int" for x in S.a[0])
        if p is None and const and not opaque_walk(s.facts, root, sh.ch):
            # the walk looked at other entries: the answer has to fit whether the token is known or not
            for q in (False, True):
                r = judge(R, s, v, root, S, q)
                if r[0] is False: return r
        if p is None:
            return None, "lookup:" + tail, "%s: the test of the token's presence is not recognised (returns %s)" % (tail, show(v, 4))
        return judge(R, s, v, root, S, p)

    def judge(R, s, v, root, S, p):
        N = wget(root, sh.ch, S)
        docs = fld(N, sh.docs)
        if tail == "has_token": ok, want = same(as_bool(v), B(p), s.facts), B(p)
        elif tail == "get_doc_frequency":
            want = fld(N, sh.df) if p else I(0)
            ok = same(v, want, s.facts)
        elif tail == "get_docs":
            if not p: ok, want = v is NONE, NONE
            else:
                want = docs
                ok = v.op == "adt" and v.a[:2] == (OPT, 1)
                if ok:
                    m = v.a[2]
                    ok = same(has(m, k), has(docs, k), s.facts)
                    for g, l in paths(has(docs, k)):
                        if l is TRUE and ok: ok = same(mget(m, k), tf_of(cx, mget(docs, k)), feasible(s.facts, g) or s.facts)
                    if not ok and m.op not in ("mmap", "mins", "mempty", "fld"): ok = None if opaque_map(m) else False
        else:
            if not p: ok, want = same(v, fl(0.0), s.facts), fl(0.0)
            else:
                ref = R.args[1]
                ok = True
                want = tf_of(cx, mget(docs, ref))
                for g, l in paths(has(docs, ref)):
                    f2 = feasible(s.facts, g)
                    if f2 is None: continue
                    if l is TRUE: ok = ok and same(v, want, f2)
                    else:
                        ok = ok and same(v, fl(0.0), f2)
        return ok, "lookup:" + tail, "%s returns %s for %s token, expected %s" % (tail, show(norm_under(v, s.facts), 5), "a known" if p else "an unknown", show(want, 5))
    return chk


def opaque_map(m): return bool([x for x in subterms(m) if x.op in ("call", "hav", "post")])


def C06(cx):
    sh = Shape(cx)
    if not sh.ok: return
    cx.rule = "every lookup is a function of the one node at the end of the token's walk; lookups take shared references to types without interior mutability"
    lookup(cx, sh, "C06")
    # no lookup modifies: shared references to data without interior mutability
    import p_struct
    for ty in (II, "elasticlunr::document_store::DocumentStore"):
        im = p_struct.interior(cx.J, ty)
        cx.check(not im, "interior:" + ty.split("::")[-1], ty, "%s holds %s, which can change behind a shared reference" % (ty, ", ".join(sorted(im))), "no interior mutability")
    names = {II: ["has_token", "get_docs", "get_term_frequency", "get_doc_frequency"],
             "elasticlunr::document_store::DocumentStore": ["len", "is_empty", "is_stored", "has_doc", "get_doc", "get_field_length"]}
    for ty, ns in names.items():
        for path, sig in methods(cx, ty):
            if path.split("::")[-1] in ns:
                cx.check("&mut" not in sig.split("->")[0], "mutates:" + path, path, "takes a mutable reference: " + sig, "shared receiver")
    for f in cx.J["fns"]:
        if f.get("unsafe") or f["path"] in p_struct.unsafe_fns(cx.J):
            if f["path"].startswith(("elasticlunr::inverted_index", "elasticlunr::document_store")): cx.check(False, "unsafe:" + f["path"], f["path"], "contains unsafe code", "no unsafe")


RULES = {"C04": C04, "C05": C05, "C06": C06}
