"""C13, C16, C18, C19: the pipeline, its filters and trimmers, and the shared tokenizer."""
from base import *
from p_store import each, need
from p_index import explained
import langs
from langs import TOK, PFN
import rx

PIPE = "elasticlunr::pipeline::Pipeline"
COMMON = "elasticlunr::lang::common::"


# ---------------------------------------------------------------- C13
def run_spec(queue, toks):
    """the specified result of a run, as a term"""
    q = as_seq(queue)
    t = as_seq(toks)
    n, m, cur = fresh("n"), fresh("n"), fresh("n")
    from loops import tfold
    step = lam2(cur, m, mk("call", PFN + "::filter", elem(q, m), cur))
    r = tfold(step, some(elem(t, n)), seqlen(q))
    return comp(lam(n, ite(inn(disc(r, 2), ZERO), EMPTY, seq(mk("one", fld(r, 0, 1))))), seqlen(t))


def expect(fs, ts, facts):
    """the specified survivors under the facts; None when the facts do not decide a call"""
    out = []
    for t in ts:
        cur = t
        for f in fs:
            c = mk("call", PFN + "::filter", f, cur)
            d = decided(disc(c, 2), facts)
            if d is None: return None
            if d == 0:
                cur = None
                break
            cur = norm_under(fld(c, 0, 1), facts)
        if cur is not None: out.append(cur)
    return out


def C13(cx):
    cx.rule = "run(queue, tokens) denotes: for each token in order, the partial left fold of filter over the queue, pushing the result when there is one"
    P = PIPE + "::run"
    qx = cx.F.queue
    R = run_fn(cx, P)
    if R is None or not need(cx, qx):
        return cx.undecided("Pipeline::run not found")
    toks = R.args[1]
    want = run_spec(fld(R.self0, qx), toks)
    g = gaps(R)
    general = not g and not R.panics and len(R.res) >= 1 and all(same(v, want, s.facts) for s, v in R.res)
    cx.notes.append("the unbounded fold %s the specification" % ("equals" if general else "was not matched with"))
    if general: cx.check(True, "run", P, "the result is the fold of the queue over each token", "unbounded")
    bad, known = 0, 0
    a = adt_of(cx.J, PIPE)
    nf = len(a["variants"][0]["fields"])
    for k in [0, 1, 2, 3, 4, 5, 9, 17]:
        for m in range(0, 4):
            if k * m > 5 and m != 1 or m == 3 and k > 1: continue
            fs = [sym("f%d" % j, None) for j in range(k)]
            ts = [sym("t%d" % j, "str") for j in range(m)]
            vals = [fld(sym("self", None), j) for j in range(nf)]
            vals[qx] = seq(*[mk("one", f) for f in fs])
            self_ = adt(PIPE, 0, *vals)
            Rb = run_fn(cx, P, selfval=self_, args={1: seq(*[mk("one", t) for t in ts])}, unroll=k + m + 2)
            gb = gaps(Rb)
            for s, v in Rb.res:
                w = expect(fs, ts, s.facts)
                v = norm_under(v, s.facts)
                if w is None:
                    # the result does not look at every function: decide the calls it skipped
                    w2 = undecided_case(fs, ts, s.facts, v)
                    if w2 is None: cx.check(True, "run", P, "%d functions, %d tokens" % (k, m), "small queues")
                    elif not gb and explained(v):
                        bad += 1
                        cx.check(False, "run", P, "with %d functions and %d tokens the result is %s although %s" % (k, m, show(v, 6), w2), "small queues")
                    continue
                wt = seq(*[mk("one", x) for x in w])
                okv = same(v, wt, s.facts)
                known += 1
                if not okv:
                    bad += 1
                    if gb or not explained(v): okv = None
                cx.check(okv, "run", P, "with %d functions and %d tokens the result is %s, specified %s (when %s)" % (k, m, show(v, 6), show(wt, 6), show_facts(s.facts)), "small queues")
            for p in Rb.panics:
                if not gb: cx.check(False, "run:panic", p["where"], "running a pipeline of %d functions on %d tokens panics: %s" % (k, m, p["detail"]), "small queues")
    if not general and not bad: cx.undecided("Pipeline::run: equal to the specification on queues of up to 3 functions; the unbounded form was not recognised")
    wrapper(cx)





def undecided_case(fs, ts, facts, v):
    """a continuation of facts in which the specified result differs from v; text or None"""
    if len(fs) * len(ts) > 6 and len(ts) != 1: return None
    todo = [dict(facts)]
    for _ in range(200):
        if not todo: return None
        f = todo.pop()
        w = expect(fs, ts, f)
        if w is not None:
            if not same(v, seq(*[mk("one", x) for x in w]), f): return "the specified result is %s when %s" % (show(seq(*[mk("one", x) for x in w]), 6), show_facts(f))
            continue
        for t in ts:
            cur, hit = t, False
            for g in fs:
                c = mk("call", PFN + "::filter", g, cur)
                k = disc(c, 2)
                d = decided(k, f)
                if d is None:
                    for b in (0, 1):
                        f2 = feasible(f, {k: IntSet([(b, b)])})
                        if f2 is not None: todo.append(f2)
                    hit = True
                    break
                if d == 0: break
                cur = norm_under(fld(c, 0, 1), f)
            if hit: break
    return None


def wrapper(cx):
    """the wrapper of plain functions returns what the wrapped function returns"""
    FW = "elasticlunr::pipeline::FnWrapper"
    a = adt_of(cx.J, FW)
    fx = field_ix(cx.J, FW, ty=r"fn\(") if a else None
    nx = field_ix(cx.J, FW, ty=r"String$") if a else None
    if fx is None: return
    R = run_fn(cx, "<%s as %s>::filter" % (FW, PFN))
    if R is None: return cx.undecided("FnWrapper::filter not found")
    want = mk("call", "dyn", fld(R.self0, fx), R.args[1])
    def chk(s, v):
        okv = same(v, want, s.facts)
        if not okv and not explained_calls(v): okv = None
        return okv, "FnWrapper", "the wrapped function is called as %s, expected %s" % (show(v, 5), show(want, 5))
    each3(cx, R, "wrapped functions", chk)


def explained_calls(v):
    return all(not (x.op == "hav" or x.op == "call" and x.a[0] != "dyn") for x in subterms(v))


def each3(cx, R, rule, f):
    import p_inv
    return p_inv.each3(cx, R, rule, f)


# ---------------------------------------------------------------- C16
def is_empty_under(v, facts):
    """True: the string is empty; False: it is not; None: open"""
    facts = eq_close(facts)
    v = norm_under(v, facts)
    if v.op == "str": return v.a[0] == ""
    for c in [v] + [y for k, t in facts.items() if k.op == "eq" and t == ONE and v in k.a for y in k.a if y is not v]:
        k = simp(as_bool(inn(c, StrSet([""]))), facts)
        if k.op == "bool": return k.a[0]
        if c.op == "ofchars":
            k = simp(as_bool(inn(seqlen(c.a[0]), ZERO)), facts)
            if k.op == "bool": return k.a[0]
    return None


def C16(cx):
    cx.rule = "for each language the filters are composed over a symbolic token; every outcome that returns a token has the fact that the token is not empty"
    L = langs.languages(cx)
    if not L: return cx.undecided("no languages found")
    for l in L:
        P = "pipeline of %s" % l.short
        if l.queue is None:
            cx.undecided("%s: %s" % (P, l.why))
            continue
        cases = [({}, TOK, False)]      # facts, token, known not to be empty by a rule of its own
        open_ = ""
        for e in l.queue:
            nxt = []
            if langs.local_stemmer(cx, e):
                # C21 decides that it returns a non-empty token for a non-empty one
                for f, v, ne in cases:
                    em = is_empty_under(v, f)
                    if em is False or ne: nxt.append((f, mk("call", "stemmed", v), True))
                    else: nxt.append((f, v, False))
                cases = nxt
                continue
            for f, v, ne in cases:
                R = langs.filter_run(cx, e, v, f)
                if R is None or gaps(R):
                    open_ = open_ or (gaps(R) if R else "filter not found")
                    continue
                for s, r in R.res:
                    r = norm_under(r, s.facts)
                    if r.op != "adt": 
                        open_ = open_ or "result %s" % show(r, 3)
                        continue
                    if r.a[1] == 1: nxt.append((s.facts, fld(r, 0), ne and same(fld(r, 0), v, s.facts)))
            cases = nxt
        if open_:
            cx.undecided("%s: %s" % (P, open_))
            continue
        for f, v, ne in cases:
            em = is_empty_under(v, f)
            if ne: okv = True
            elif em is False: okv = True
            elif em is True: okv = False
            else:
                # open: is an empty token possible under the facts
                w = empty_possible(v, f)
                okv = False if w else None
            cx.check(okv, "empty:" + l.short, P, "the pipeline returns %s, which can be empty (when %s)" % (show(v, 4)[:200], show_facts(f)[:300]), "no empty token")


def empty_possible(v, facts):
    """the value is the token itself or a part of it, and no fact excludes that it is empty"""
    if not explained(v): return False
    g = feasible(facts, {v: StrSet([""])}) if v.op != "str" else None
    if g is None: return False
    if v is TOK or v.op in ("ofchars", "trimset", "rmchars", "repl1", "flatmapc", "repl"):
        # choose the empty token
        m = {TOK: S("")}
        for k, s in facts.items():
            x = simp(subst(k, m), {})
            if x.op == "int" and x.a[0] not in s: return False
            if x.op == "str" and x.a[0] not in s: return False
            if x.op == "bool" and (1 if x.a[0] else 0) not in s: return False
        x = simp(subst(v, m), {})
        return x.op == "str" and x.a[0] == ""
    return False


# ---------------------------------------------------------------- C18
HY = IntSet([(45, 45)])


def tok_spec(text):
    sp = M.split_of(text, M.WS.union(HY))
    b = sp if sp.op == "seq" else as_seq(sp)
    n = fresh("n")
    e = elem(b, n)
    return comp(lam(n, ite(inn(e, StrSet([""])), EMPTY, seq(mk("one", M.lower(e))))), seqlen(b))


EXTERNAL = {"ja": "morphological analysis (lindera)", "zh": "jieba segmentation"}


def pieces(t):
    """the splits a tokenizer's result is made of"""
    return [x for x in subterms(t) if x.op == "split"]


def tok_refute(cx, inst, selfval, argk):
    """a constant text on which the abstract interpretation gives another result than specified"""
    texts = []
    seps = "\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2009\u2028\u2029\u202f\u205f\u3000-"
    for c in seps: texts += ["A" + c + "b", c + "A", "A" + c, "A" + c + c + "b", c]
    for c in "_\u2010\u2011\u2013\u2014\xad\u200b\ufeff\u2060\u180e.,/'\"+:;!?()&@#*=|\\~^`%$<>[]{}\x1c\x1f\0": texts += ["A" + c + "b"]
    texts += ["", "A", "É", "ÀÉ Ü", "İ", "ẞ", "ΑΣ", "a1 2b", "x", "ab ab", "b a", "I", "Iı", "Straße", "1.5", "a\u0301", "\U0001F600", "don't", "A", "Ab", "ABC", "Å", "漢字", "x" * 40]
    for t in texts:
        R = run_fn(cx, "", inst=inst, selfval=selfval, args={argk: S(t)}, unroll=len(t) + 3)
        if R is None or gaps(R) or R.panics or len(R.res) != 1: continue
        v = R.res[0][1]
        import unicodedata
        w = [x for x in re.split("[%s]" % re.escape(seps), t) if x]
        want = seq(*[mk("one", M.lower(S(x))) for x in w])
        if v is want or not all(x.op in ("seq", "one", "str", "int") for x in subterms(v)): continue
        return t, show(v), show(want)
    return None


def C18(cx):
    cx.rule = "the tokenizer denotes: pieces of the text split at white space and hyphen-minus, empty ones left out, each lower-cased, in order"
    T_ = "elasticlunr::lang::tokenize_whitespace"
    it = Interp(cx.J)
    todo = []
    i = find_fn(cx.J, it, T_)
    if i is not None: todo.append((T_, i, None, 0))
    for l in langs.languages(cx):
        if "tokenize" not in l.inst: continue
        if l.code in EXTERNAL:
            cx.notes.append("%s: %s, out of the property's scope" % (l.short, EXTERNAL[l.code]))
            continue
        todo.append(("%s::tokenize" % l.short, l.inst["tokenize"], None, 1))
    if not todo: return cx.undecided("no tokenizer found")
    for P, i, selfval, k in todo:
        R = run_fn(cx, P, inst=i)
        if R is None:
            cx.undecided(P + " not found")
            continue
        text = R.args[k]
        want = tok_spec(text)
        g = gaps(R)
        if R.err:
            cx.undecided("%s: %s" % (P, R.err))
            continue
        if R.panics and not g:
            cx.check(None, "tokenize:panic", P, "a panic of the tokenizer was not excluded (%s)" % R.panics[0]["detail"], "tokenizer")
        for s, v in R.res:
            v = norm_under(v, s.facts)
            okv = same(v, want, s.facts) or same(flatten(v), want, s.facts)
            text_ = "the tokens are %s, specified %s" % (show(v, 9)[:500], show(want, 9)[:400])
            if not okv:
                d = None if g else tok_diff(flatten(v), want)
                if d: text_ = d
                else:
                    ce = tok_refute(cx, i, selfval, k)
                    if ce: text_ = "for the text %r the tokens are %s, specified %s" % ce
                    else: okv = None
            cx.check(okv, "tokenize:" + P.split("::")[0] if k else "tokenize", P, text_, "tokenizer")


def comp_parts(v):
    """(split, case analysis of the body over the piece) of a comprehension over the pieces of a split"""
    v = v if v.op == "seq" else as_seq(v)
    if len(v.a[0]) != 1 or v.a[0][0].op != "comp": return None
    c = v.a[0][0]
    f, h = c.a[0], c.a[1]
    n = sym("$piece", None)
    sp = {x for x in subterms(h) if x.op == "split"}
    if len(sp) != 1: return None
    sp = next(iter(sp))
    if h is not seqlen(seq(sp)): return None
    return sp, f


def flatten(v):
    """pieces of the pieces: splitting again is splitting at both sets when empty pieces are dropped"""
    try: p = comp_parts(v)
    except Exception: return v
    if not p: return v
    sp, f = p
    n = fresh("n")
    body = app(f, n)
    e = elem(seq(sp), n)
    if sp.a[0].op == "trimset" and sp.a[0].a[1].inter(sp.a[1]) == sp.a[0].a[1] and sp.a[0].a[2].inter(sp.a[1]) == sp.a[0].a[2] and simp(subst(body, {e: S("")}), {}) is EMPTY:
        # separators trimmed off the ends of the text only make empty pieces
        ns = M.split_of(sp.a[0].a[0], sp.a[1])
        return flatten(comp(lam(n, subst(body, {e: elem(ns, n)})), seqlen(ns)))
    inner = None
    for g, leaf in paths(body):
        leaf = leaf if leaf.op == "seq" else as_seq(leaf)
        em = g.get(e)
        if em is not None and em.single() == "":
            if leaf is not EMPTY: return v
            continue
        if len(leaf.a[0]) == 1 and leaf.a[0][0].op == "comp" and all(k is e for k in g):
            q = comp_parts(leaf)
            if q and q[0].a[0] is e and (inner is None or inner is leaf): inner = leaf
            else: return v
        else: return v
    if inner is None: return v
    sp2, f2 = comp_parts(inner)
    both = sp.a[1].union(sp2.a[1])
    nb = fresh("n")
    b2 = app(f2, nb)
    if simp(subst(b2, {elem(seq(sp2), nb): S("")}), {}) is not EMPTY: return v
    ns = seq(M.split_of(sp.a[0], both)) if M.split_of(sp.a[0], both).op == "split" else M.split_of(sp.a[0], both)
    return comp(lam(nb, subst(b2, {elem(seq(sp2), nb): elem(ns, nb)})), seqlen(ns))


def tok_diff(v, want):
    """a definite difference between the comprehensions, or None"""
    p, w = comp_parts(v), comp_parts(want)
    if not p or not w: return None
    if p[0].a[0] is not w[0].a[0]: return None
    A, B = p[0].a[1], w[0].a[1]
    # trimming inside a piece of a coarser split is judged below
    x = sym("$p", "str")
    n = fresh("n")
    e = elem(seq(p[0]), n)
    body = subst(app(p[1], n), {e: x})
    if contains(body, n): return None
    if A != B:
        more, less = A.inter(B.compl()), B.inter(A.compl())
        if not contains_split(body):
            c = (more if not more.empty() else less).lo()
            return "the text is %s at U+%04X" % ("cut" if not more.empty() else "not cut", c)
        return None
    if not explained(body) or contains_split(body): return None
    wantb = ite(inn(x, StrSet([""])), EMPTY, seq(mk("one", M.lower(x))))
    # a piece holds no white space or hyphen
    body = strip_trims(body, x, A)
    if same(body, wantb, {}): return None
    for g, leaf in paths(body):
        f = dict(g)
        wl = norm_under(wantb, f)
        if not same(leaf, wl, f):
            return "a piece p of the text yields %s, specified %s%s" % (show(leaf, 6)[:200], show(wl, 6)[:200], (" (when %s)" % show_facts(f)[:200]) if f else "")
    return None


def strip_trims(t, x, cs):
    m = {}
    for y in subterms(t):
        if y.op == "trimset" and y.a[0] is x and y.a[1].inter(cs) == y.a[1] and y.a[2].inter(cs) == y.a[2]: m[y] = x
    return subst(t, m) if m else t


def contains_split(t): return any(x.op == "split" for x in subterms(t))


# ---------------------------------------------------------------- C19
def C19(cx):
    cx.rule = "stop-word filters: None exactly under membership of the token in the given list, else the token; trimmers: the token without the longest runs of non-word characters at its two ends, None when that is empty"
    stop_filter(cx)
    trimmer_new(cx)
    for l in langs.languages(cx):
        if l.queue is None:
            cx.undecided("%s: %s" % (l.short, l.why))
            continue
        for n, e in enumerate(l.queue):
            nm = langs.fn_name(cx, e) or ""
            K = langs.kind_of(cx, e)
            P = "%s of %s" % (nm, l.short)
            if nm.startswith("trimmer"):
                C = langs.WORDS.get(l.code)
                if C is None: continue
                judge_trimmer(cx, K, langs.scripts(C).compl().inter(M.CHARS_ if hasattr(M, "CHARS_") else CHARS), P, drops_empty(cx, l.queue, n + 1))
            elif nm.startswith("stopWordFilter"):
                judge_stop(cx, K, e, P)


CHARS = IntSet([(0, 0xD7FF), (0xE000, 0x10FFFF)])


def drops_empty(cx, queue, n):
    """does the next function drop an empty token"""
    if n >= len(queue) or langs.local_stemmer(cx, queue[n]): return False
    R = langs.filter_run(cx, queue[n], S(""))
    return R is not None and not gaps(R) and bool(R.res) and all(v.op == "adt" and v.a[1] == 0 for _, v in R.res)


def judge_trimmer(cx, K, N, P, empty_ok):
    if getattr(K, "outcomes", None) is None or K.gap:
        return cx.undecided("%s: %s" % (P, getattr(K, "gap", "") or K.why))
    r = M.trimset(TOK, N, N)
    for p in K.panics: cx.check(None, "trimmer:panic", p["where"], "a panic of %s was not excluded: %s" % (P, p["detail"]), "trimmer")
    for f, v in K.outcomes:
        okv, text = trim_case(f, v, r, N, empty_ok, K)
        cx.check(okv, "trimmer:" + P, P, text + " (when %s)" % show_facts(f)[:200], "trimmer")


def trim_case(f, v, r, N, empty_ok, K):
    if v.op != "adt": return None, "result not understood: %s" % show(v, 4)
    trims = {x for k in f for x in subterms(k) if x.op == "trimset"} | {x for x in subterms(v) if x.op == "trimset"}
    for t in trims:
        if t.a[0] is TOK and t is not r:
            for side, a in (("start", t.a[1]), ("end", t.a[2])):
                if a != N:
                    more, less = a.inter(N.compl()), N.inter(a.compl())
                    if more.empty() and less.empty(): continue
                    c = (more if not more.empty() else less).lo()
                    return False, "U+%04X is %s at the token's %s" % (c, "removed although it is a word character" if not more.empty() else "kept although it is not a word character", side)
    if v.a[1] == 0:
        e = is_empty_under(r, f)
        if e: return True, "dropped when nothing is left"
        if e is False and explained_facts(f): return False, "the token is dropped although something is left"
        if not f: return False, "every token is dropped"
        if feasible_token(f, r, lambda x: x != ""): return False, "a token is dropped although something is left"
        return None, "dropped in a case that was not understood"
    x = fld(v, 0)
    e = is_empty_under(r, f)
    if not same(x, r, f):
        if explained(x) and feasible_token(f, r, lambda y: True, x): return False, "the token becomes %s" % show(x, 4)[:200]
        return None, "the trimmed token %s was not understood" % show(x, 4)[:200]
    if e is not False and not empty_ok:
        if feasible_token(f, r, lambda y: y == ""): return False, "an empty token is passed on"
        return None, "an empty token is not excluded"
    return True, "trimmed"


def explained_facts(f): return all(explained(k) for k in f)


REPS = ["", "!", "a", "!a", "a!", "!a!", "!!a!!", "a!b", "я", "ä", "한", "漢", "か", "1", "_", "-", "!1", "é!", " a ", "ß", "ё", "x'y", "..."]


def feasible_token(f, r, want, x=None):
    """is there a token of a few representative forms that satisfies the facts, and (given x) on which
    the two values differ"""
    for t in REPS:
        m = {TOK: S(t)}
        okf = True
        for k, s in f.items():
            y = simp(subst(k, m), {})
            if y.op == "int": okf = y.a[0] in s
            elif y.op == "str": okf = y.a[0] in s
            elif y.op == "bool": okf = (1 if y.a[0] else 0) in s
            else: okf = False
            if not okf: break
        if not okf: continue
        rv = simp(subst(r, m), {})
        if rv.op != "str" or not want(rv.a[0]): continue
        if x is None: return True
        xv = simp(subst(x, m), {})
        if xv.op == "str" and xv is not rv: return True
    return False


def stop_filter(cx):
    """the shared filter, for an arbitrary list"""
    SW = COMMON + "StopWordFilter"
    it = Interp(cx.J)
    i = find_fn(cx.J, it, SW + "::new")
    j = find_fn(cx.J, it, "<%s as %s>::filter" % (SW, PFN))
    if i is None or j is None: return cx.undecided("StopWordFilter not found")
    for k in [None, 0, 1, 2, 3]:
        words = sym("words", None) if k is None else seq(*[mk("one", sym("w%d" % n, "str")) for n in range(k)])
        R = run_fn(cx, "", inst=i, args={0: sym("name", "str"), 1: words}, unroll=(k or 0) + 1 if k is not None else 0)
        g = gaps(R)
        if g or not R.res:
            if k is None: cx.notes.append("StopWordFilter::new over a list of any length: " + (g or "no outcome"))
            else: cx.undecided("StopWordFilter::new: " + (g or "no outcome"))
            continue
        for s0, fv in R.res:
            R2 = run_fn(cx, "", inst=j, args={0: fv, 1: TOK}, facts=s0.facts, unroll=(k or 0) + 1 if k is not None else 0)
            g = gaps(R2)
            listed = has(mk("setof", as_seq(words)), TOK) if k is None else TRUE
            if k is not None:
                listed = FALSE
                for n in range(k): listed = bor(listed, eq(sym("w%d" % n, "str"), TOK))
            for s, v in R2.res:
                v = norm_under(v, s.facts)
                P = "StopWordFilter::filter"
                if v.op != "adt":
                    cx.undecided(P + ": result " + show(v, 3))
                    continue
                b = simp(as_bool(listed), s.facts)
                if v.a[1] == 0:
                    okv = True if b is TRUE else False
                    text = "a token is dropped although it is not listed"
                else:
                    x = fld(v, 0)
                    okv = same(x, TOK, s.facts)
                    text = "a token is passed on as %s" % show(x, 4)
                    if okv:
                        okv = True if b is FALSE else False
                        text = "a listed token is passed on"
                if not okv and (g or k is None or not explained_facts(s.facts)): 
                    # the general list only confirms; lists of known length refute
                    if k is None: cx.notes.append("StopWordFilter over a list of any length: not recognised")
                    else: cx.check(None, "stop", P, text, "stop words")
                    continue
                cx.check(okv, "stop", P, text + " (list of %s words; when %s)" % (k, show_facts(s.facts)[:300]), "stop words")


def judge_stop(cx, K, e, P):
    """a language's stop-word filter: drops exactly a fixed set of tokens and alters nothing"""
    if getattr(K, "outcomes", None) is None or K.gap: return cx.undecided("%s: %s" % (P, getattr(K, "gap", "") or K.why))
    listed = langs.listed_words(e)
    for f, v in K.outcomes:
        if v.op != "adt":
            cx.undecided("%s: result %s" % (P, show(v, 3)))
            continue
        if v.a[1] == 1:
            x = fld(v, 0)
            okv = same(x, TOK, f)
            if not okv and not explained(x): okv = None
            cx.check(okv, "stop:" + P, P, "a token is passed on as %s" % show(x, 4)[:200], "stop words")
        if listed is None: continue
        s = f.get(TOK)
        if set(f) <= {TOK} and s is not None and s.kind == "S":
            if v.a[1] == 0:
                w = sorted(s.s - listed)[:3] if not s.n else ["any other"]
                cx.check(not s.n and s.s <= listed, "stop:" + P, P, "tokens that are not listed are dropped: %s" % w, "stop words")
            else:
                hit = sorted(x for x in listed if x in s)[:3]
                cx.check(not hit, "stop:" + P, P, "listed tokens are passed on: %s" % hit, "stop words")


def trimmer_new(cx):
    """the shared trimmer built for several classes, including none that a language uses"""
    RT = COMMON + "RegexTrimmer"
    it = Interp(cx.J)
    i = find_fn(cx.J, it, RT + "::new")
    j = find_fn(cx.J, it, "<%s as %s>::filter" % (RT, PFN))
    if i is None or j is None: return cx.undecided("RegexTrimmer not found")
    for cls in ["a-z", r"\p{Latin}", r"\p{Cyrillic}", "0-9A-Za-z_", r"\p{Latin}\p{Hangul}", r"\w", "ab", r"\p{Greek}0-9"]:
        N = rx.P("[" + cls + "]").alt()
        N = rx.as_set(N).compl().inter(CHARS)
        R = run_fn(cx, "", inst=i, args={0: sym("name", "str"), 1: S(cls)})
        g = gaps(R)
        P = "RegexTrimmer for [%s]" % cls
        if g or len(R.res) != 1:
            cx.undecided("%s: %s" % (P, g or "outcomes"))
            continue
        R2 = run_fn(cx, "", inst=j, args={0: R.res[0][1], 1: TOK})
        K = langs.Kind("trimmer", outcomes=[(s.facts, norm_under(v, s.facts)) for s, v in R2.res], gap=gaps(R2), panics=R2.panics + R.panics, why="")
        judge_trimmer(cx, K, N, P, False)


RULES = {"C13": C13, "C16": C16, "C18": C18, "C19": C19}
