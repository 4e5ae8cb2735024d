"""C07-C12: the index: what add_doc records and where, and how builders set an index up."""
import itertools, math
from base import *

IX, IB = "elasticlunr::Index", "elasticlunr::IndexBuilder"
TOKENIZE = "elasticlunr::lang::Language::tokenize"
MAKE_PIPELINE = "elasticlunr::lang::Language::make_pipeline"


class Strange(Exception):
    pass


# ---------------------------------------------------------------- writes of a map-valued term
class Eff:
    """one family of writes: for every point of the loops, under the guard, path := value"""

    def __init__(self, loops, guard, path, val): self.loops, self.guard, self.path, self.val = loops, guard, path, val

    def __repr__(self): return "%s [%s] %s := %s" % (" ".join("%s<%s" % (show(n), show(h, 5)) for n, h in self.loops), show_facts(self.guard), ", ".join(show(p, 6) for p in self.path), show(self.val, 6))


def gand(g, h):
    out = dict(g)
    for k, s in h.items():
        n = s if k not in out else out[k].inter(s)
        if n.empty(): return None
        out[k] = n
    return out


CARRY = {}     # loop-carried variable: (step, initial value)
OWNER = []     # the Add whose writes are looked at


def carried_from(t, d=0):
    """the map that t is, or was built from by insertions"""
    while d < 20:
        d += 1
        if t.op == "mins": t = t.a[0]
        elif t.op == "fold" and not any(x.op in ("mrem", "mkeep") for x in subterms(t.a[0])): t = t.a[1]
        elif t in CARRY and not any(x.op in ("mrem", "mkeep") for x in subterms(CARRY[t][0])): t = CARRY[t][1]
        elif t.op == "fld" and t.a[0] in CARRY and not any(x.op in ("mrem", "mkeep") for x in subterms(CARRY[t.a[0]][0])): t = fld(CARRY[t.a[0]][1], *t.a[1:])
        else: break
    return t


def dead(guard, loops):
    """excluded by the invariants of an index: a tokenizer and an inverted index for every field"""
    if not OWNER: return False
    from p_panic import contradictory
    A = OWNER[0]
    rows = [r for n, h in loops for c, ps in (lin_parts(add(sub(h, n), I(-1))),) for r in ((c, dict(ps)), (0, {n: 1}))]
    lin = {k: s for k, s in guard.items() if k.op in ("lin", "len") and any(x in (A.nf, A.nt, A.nd) for x in subterms(k))}
    g = dict(A.inv)
    for k, s in lin.items():
        if k in g: s = s.inter(g[k])
        if s.empty(): return True
        g[k] = s
    if lin and contradictory(g, rows): return True
    for k, s in guard.items():
        if k.op == "has" and s.kind == "I" and s.hi() == 0 and A.pos(k.a[1]) is not None and carried_from(k.a[0]) is A.index:
            c, ps = lin_parts(sub(A.nf, A.pos(k.a[1])))
            if contradictory(g, rows + [(-c, {t: -x for t, x in ps})]): return True
    return False


def later(A, e, n0, x):
    """the term x of a write, in the first iterations: [(N, term)], with loop-carried variables replaced
    by their values after the iterations before"""
    for N in (1, 2, 3):
        m = {n0: I(N)}
        for a in subterms(x):
            if a in CARRY:
                f, init = CARRY[a]
                v = init
                for j in range(N): v = app2(f, v, I(j))
                m[a] = v
        y = subst(x, m)
        for g, l in paths(A.norm(y)): yield N, g, l


def foreign(A, e, n0, *xs):
    """a text of another field that the write of field N uses: (N, j, term)"""
    for x in xs:
        if not any(a in CARRY or a.op in ('fold', 'sum', 'comp') for a in subterms(x)): continue
        for N, g, l in later(A, e, n0, x):
            for s in subterms(l):
                if s.op == "elem" and s.a[0] is A.data and s.a[1].op == "int" and s.a[1].a[0] != N: return N, s.a[1].a[0], l
    return None


def writes(t, base, depth, leaf, loops=(), guard=None, path=()):
    """the writes that turn the map `base` into t; depth is the number of key levels; leaf(value, old)
    gives the writes of a value that replaces old"""
    guard = guard or {}
    if t is base: return []
    if t.op == "dd":
        out = []
        for g, l in paths(t):
            g2 = gand(guard, g)
            if g2 is None or dead(g2, loops): continue
            b = simp(base, g2)
            out += writes(l, b, depth, leaf, loops, g2, path)
        return out
    if t.op == "mins":
        m, k, v = t.a
        out = writes(m, base, depth, leaf, loops, guard, path)
        for gk, lk in paths(k):
            for gv, lv in paths(v):
                g2 = gand(guard, gand(gk, gv) or {}) if gand(gk, gv) is not None else None
                if g2 is None: continue
                if depth == 1: out += leaf(lv, m, lk, loops, g2, path + (lk,))
                else: out += nested(lv, m, lk, depth - 1, leaf, loops, g2, path + (lk,))
        return out
    if t.op == "fold":
        f, init, h = t.a
        out = writes(init, base, depth, leaf, loops, guard, path)
        A, n = fresh("phi"), fresh("n")
        CARRY[A] = (f, init)
        for gh, lh in paths(h):
            g2 = gand(guard, gh)
            if g2 is None: continue
            out += writes(simp(app2(f, A, n), g2), A, depth, leaf, loops + ((n, lh),), g2, path)
        return out
    if t.op == "fld" and t.a[0].op == "fold":
        # one variable of a loop that carries several
        f, init, h = t.a[0].a
        i = t.a[1]
        out = writes(fld(init, i), base, depth, leaf, loops, guard, path)
        A, n = fresh("phi"), fresh("n")
        CARRY[A] = (f, init)
        for gh, lh in paths(h):
            g2 = gand(guard, gh)
            if g2 is None: continue
            out += writes(fld(simp(app2(f, A, n), g2), i), mk("fld", A, i, None), depth, leaf, loops + ((n, lh),), g2, path)
        return out
    if t.op == "mmap" or t.op == "mempty" or t.op == "mrem":
        raise Lost("%s replaces the map %s" % (show(t, 5), show(base, 4)), guard)
    raise Strange(show(t, 6))


class Lost(Exception):
    """the new map does not contain what the old one held"""

    def __init__(self, text, guard): Exception.__init__(self, text); self.guard = guard


def root_of(v):
    while v.op in ("mins", "fold"): v = v.a[0] if v.op == "mins" else v.a[1]
    return v


def nested(v, m, k, depth, leaf, loops, guard, path):
    r = root_of(v)
    if r.op == "dd":
        out = []
        for g, l in paths(r):
            g2 = gand(guard, g)
            if g2 is not None and not dead(g2, loops): out += nested(subst(v, {r: l}), m, k, depth, leaf, loops, g2, path)
        return out
    if r.op == "mempty":
        h = simp(has(m, k), guard)
        if h is not FALSE: raise Lost("%s starts from an empty map although an earlier one may be there" % show(v, 5), guard)
        return writes(v, r, depth, leaf, loops, guard, path)
    if r is simp(mget(m, k), guard): return writes(v, r, depth, leaf, loops, guard, path)
    raise Strange("%s is not built from the entry it replaces" % show(v, 5))


def plain_leaf(v, m, k, loops, guard, path): return [Eff(loops, guard, path, v)]


def token_leaf(v, m, k, loops, guard, path):
    """writes of an inverted index through add_token: value is (prev, ref, token, tf)"""
    old = simp(mget(m, k), guard)
    return token_chain(v, old, loops, guard, path)


def token_chain(v, old, loops, guard, path):
    if v is old: return []
    if v.op == "dd":
        out = []
        for g, l in paths(v):
            g2 = gand(guard, g)
            if g2 is not None: out += token_chain(l, simp(old, g2), loops, g2, path)
        return out
    if v.op == "post" and v.a[0] == 0 and v.a[1].op == "call" and v.a[1].a[0] == ADD_TOKEN:
        c = v.a[1]
        out = token_chain(c.a[1], old, loops, guard, path)
        for g, l in paths(tup(*c.a[2:5])) if False else split(c.a[2:5]):
            g2 = gand(guard, g)
            if g2 is not None: out.append(Eff(loops, g2, path, tuple(l)))
        return out
    if v.op == "fold":
        f, init, h = v.a
        out = token_chain(init, old, loops, guard, path)
        A, n = fresh("phi"), fresh("n")
        for gh, lh in paths(h):
            g2 = gand(guard, gh)
            if g2 is not None: out += token_chain(simp(app2(f, A, n), g2), A, loops + ((n, lh),), g2, path)
        return out
    if v.op == "adt": raise Lost("%s replaces the inverted index of a field" % show(v, 5), guard)
    raise Strange(show(v, 6))


def split(xs):
    """joint decision paths of several terms"""
    out = [({}, ())]
    for x in xs:
        o2 = []
        for g, l in out:
            for h, y in paths(x):
                g2 = gand(g, h)
                if g2 is not None: o2.append((g2, l + (simp(y, g2),)))
        out = o2
    return out


def decide_le(d, facts):
    """is d <= 0 (True), >= 0 (False), or neither known"""
    for want, st in ((True, IntSet([(NEG, 0)])), (False, IntSet([(0, POS)]))):
        r = inn(d, st)
        if r.op == "dd": r = simp(r, facts)
        if r is TRUE: return want
    return None


# ---------------------------------------------------------------- add_doc
class Add:
    """the outcome of Index::add_doc, with the terms that the rules speak about"""

    def __init__(self, cx):
        F = cx.F
        self.cx, self.F = cx, F
        self.R = cx.index_run(IX + "::add_doc")
        s = sym("arg0", None)
        if self.R is not None: s = self.R.self0
        self.s0 = s
        self.fields, self.tok = fld(s, F.ix["fields"]), fld(s, F.ix["tok"])
        self.pipeline, self.ref, self.index, self.store, self.lang = (fld(s, F.ix[k]) for k in ("pipeline", "ref", "index", "store", "lang"))
        self.data = self.R.args.get(2) if self.R else None
        self.doc_ref = self.R.args.get(1) if self.R else None
        self.inv = {}
        ln = lambda x: baselen(x) if x.op != "seq" else seqlen(x)
        self.nf, self.nt, self.nd = mk("len", self.fields), mk("len", self.tok), mk("len", self.data)
        for t, st in ((sub(self.nf, self.nt), IntSet([(0, 0)])), (sub(self.nd, self.nf), IntSet([(NEG, 0)])), (sub(self.nd, self.nt), IntSet([(NEG, 0)]))):
            r = inn(t, st)
            if r.op == "dd":
                for s2, c in r.a[1]:
                    if c is TRUE: self.inv[r.a[0]] = s2

    def norm(self, t, facts=None, depth=0):
        f = dict(self.inv)
        for k, x in (facts or {}).items(): f[k] = f[k].inter(x) if k in f else x
        t = norm_under(t, f)
        m = {}
        for x in subterms(t):
            if x.op == "min":
                d = decide_le(sub(x.a[0], x.a[1]), f)
                if d is not None: m[x] = x.a[0] if d else x.a[1]
            elif x.op == "max0":
                d = decide_le(mulc(x.a[0], -1), f)
                if d: m[x] = x.a[0]
        if m and depth < 8: return self.norm(subst(t, m), facts, depth + 1)
        return t

    def pos(self, key):
        """n when key is fields[n]"""
        if key.op == "elem" and key.a[0] is self.fields: return key.a[1]
        return None

    def text(self, n): return mk("elem", self.data, n)
    def is_ref(self, n): return eq(self.ref, mk("elem", self.fields, n)).a[0]

    def raws(self, n):
        """the two token lists a field's text may be split into"""
        return {"own": mk("call", "dyn", fld(mk("elem", self.tok, n), 0, 1), self.text(n)),
                "language": mk("call", TOKENIZE, self.lang, self.text(n))}

    def states(self, rule):
        R, cx = self.R, self.cx
        if R is None:
            cx.undecided("there is no Index::add_doc")
            return
        if R.err:
            cx.undecided("Index::add_doc: " + R.err)
            return
        for s, v in R.res:
            f = feasible(self.inv, s.facts)
            if f is not None: yield s, f
        return


def tokens_of(t):
    """(pipeline, raw tokens) when t is the result of running a pipeline"""
    if t.op == "call" and t.a[0] == PIPE_RUN: return t.a[1], t.a[2]
    return None


def strip_seq(t):
    """the whole of a base sequence, without slice wrapping"""
    if t.op == "seq" and len(t.a[0]) == 1:
        p = t.a[0][0]
        if p.op == "sl" and p.a[1] is I(0) and p.a[2] is mk("len", p.a[0]): return p.a[0]
    return t


def token_source(tok):
    """(sequence whose elements the token ranges over, index)"""
    if tok.op != "elem": return None
    b, n = tok.a
    if b.op in ("uniq", "huniq", "hitems"): return strip_seq(b.a[0]), n, b
    return strip_seq(b), n, b


def run_parts(A, n, S):
    """judges the sequence S as the pipeline's result for field n: (ok, which, text)"""
    pr = tokens_of(S)
    if pr is None: return None, None, "tokens come from %s, which is not the pipeline's result" % show(S, 6)
    p, raw = pr
    if A.norm(p) is not A.pipeline: return False, None, "the tokens were filtered by %s, not by the index's pipeline" % show(p, 5)
    raw = A.norm(strip_seq(raw))
    rs = A.raws(n)
    for w in rs:
        if raw is rs[w]: return True, w, ""
    return False, None, "field n is indexed with the tokens of %s" % show(raw, 7)


def trivial(A, e, n, S=None):
    """drops conditions of a write that always hold where there is something to write"""
    pos = IntSet([(1, POS)])
    for k, s in list(e.guard.items()):
        if k.op == "cnt" and s.inter(pos) == pos or S is not None and k.op == "len" and strip_seq(k.a[0]) is S and s.inter(pos) == pos:
            del e.guard[k]
            continue
        if k.op in ("len", "mlen") and S is not None and s.inter(pos) == pos and k.a[0].op == "uniq" and strip_seq(k.a[0].a[0]) is S:
            del e.guard[k]
            continue
        b = bound(k, A.inv)
        if b is not None and b.kind == "I" and s.kind == "I" and b.inter(s) == b: del e.guard[k]


def cells(effs, facts):
    """all cells of the guards of the writes; yields (cell, writes that happen in it)"""
    keys = {}
    for e in effs:
        for k, s in e.guard.items(): keys.setdefault(k, set()).add(s)
    parts = []
    for k, ss in keys.items():
        u = universe(k)
        if u is None:
            x = next(iter(ss))
            u = x.union(x.compl())
        cur = [u]
        for s in ss:
            nxt = []
            for c in cur:
                for y in (c.inter(s), c.inter(s.compl())):
                    if not y.empty(): nxt.append(y)
            cur = nxt
        parts.append([(k, c) for c in cur] or [(k, s) for s in ss])
    if sum(len(p) for p in parts) > 40: return
    for combo in itertools.product(*parts):
        g = feasible(facts, dict(combo))
        if g is None: continue
        cell = dict(combo)
        if effs and dead(cell, effs[0].loops[:1]): continue
        yield cell, [e for e in effs if all(k in cell and cell[k].inter(s) == cell[k] for k, s in e.guard.items())]


def reguard(guard, m):
    out = [{}]
    for k, s in guard.items():
        ps = [g for g, l in paths(inn(subst(k, m), s)) if l is TRUE]
        out = [x for x in (gand(a, b) for a in out for b in ps) if x is not None]
    return out


def align(effs):
    """renames the outermost loop variable of every write to one symbol"""
    n0 = mk("sym", "$n", "usize")
    for e in list(effs):
        if e.loops:
            m = {e.loops[0][0]: n0}
            gs = reguard(e.guard, m)
            for g in gs[1:]: effs.append(Eff(e.loops, g, e.path, e.val))
            e.guard = gs[0] if gs else {}
    for e in effs:
        if e.loops:
            m = {e.loops[0][0]: n0}
            e.loops = tuple((n0 if k == 0 else n, subst(h, m)) for k, (n, h) in enumerate(e.loops))
            e.path = tuple(subst(p, m) for p in e.path)
            e.val = tuple(subst(v, m) for v in e.val) if isinstance(e.val, tuple) else subst(e.val, m)
    return n0


def get_writes(cx, A, key, t, base, depth, leaf, facts, what):
    """writes, or None after reporting"""
    t, base = A.norm(t, facts), A.norm(base, facts)
    OWNER[:] = [A]
    try: effs = writes(t, base, depth, leaf)
    except Lost as e:
        cx.check(False, key + ":replaced", A.R.path, "%s: %s (when %s)" % (what, e, show_facts(e.guard)))
        return None
    except Strange as e:
        cx.check(None, key, A.R.path, "%s: %s" % (what, e))
        return None
    return [e for e in effs if feasible(facts, e.guard) is not None]


def loop_ok(A, h, facts): return A.norm(h, facts) is A.nd


def C07_08(cx, which):
    A = Add(cx)
    if any(v is None for v in cx.F.ix.values()): return cx.undecided("the fields of Index have another shape")
    g = gaps(A.R) if A.R else ""
    P = A.R.path if A.R else IX
    for s, facts in A.states(which):
        f = A.R.final(s)
        effs = get_writes(cx, A, "index", fld(f, cx.F.ix["index"]), A.index, 1, token_leaf, facts, "the inverted indices")
        if effs is None: continue
        n = align(effs)
        und = None if g else False
        if not effs: cx.check(None if g else False, "index:nothing", P, "no token is recorded (when %s)" % show_facts(s.facts))
        good = []
        for e in effs:
            ref, tok, tf = e.val
            key = e.path[0]
            if not e.loops or A.pos(key) is not n:
                if which == "C07": cx.check(None if g or not e.loops else False, "field", P, "a token is recorded under %s" % show(key, 5))
                continue
            fo = foreign(A, e, n, tok)
            if fo and not g:
                if which == "C07": cx.check(False, "other fields", P, "in its %d. iteration the tokens recorded under fields[%d] include text of fields[%d]" % (fo[0] + 1, fo[0], fo[1]), "tokens come from the field's own text")
                continue
            src = token_source(A.norm(tok, facts))
            smp = None if g or src is not None and (which == "C07" or explained(A.norm(tf, facts))) else sampled(A, e, n, effs, facts)
            if smp and smp[0] == which:
                cx.check(False, "sampled", P, smp[1], "a field whose tokens are known")
                continue
            if src is None:
                if which == "C07": cx.check(None, "token", P, "the recorded token is %s" % show(tok, 6))
                continue
            S, m, U = src
            ok, w, txt = run_parts(A, n, S)
            if which == "C07":
                cx.check(A.norm(ref, facts) is A.doc_ref, "ref", P, "tokens are recorded for %s instead of the document's reference" % show(ref, 4), "reference")
                if ok is None: ok = None if g or any(x.op in ("hav", "phi") for x in subterms(S)) or not explained(S) else False
                cx.check(ok, "source", P, txt + " (when %s)" % show_facts(e.guard), "tokens come from the field's own text")
                trivial(A, e, n, S)
                cx.check(loop_ok(A, e.loops[0][1], facts), "values", P, "values 0..%s are indexed, of %s" % (show(A.norm(e.loops[0][1], facts), 5), show(A.nd)), "every value")
                inner = [h for v, h in e.loops[1:] if v is m]
                cx.check(bool(inner) and A.norm(inner[0], facts) is seqlen(seq(U)) or bool(inner) and A.norm(inner[0], facts) is mk("len", U), "tokens", P,
                         "tokens 0..%s of %s are recorded" % (show(inner[0], 5) if inner else show(m, 4), show(seqlen(seq(U)), 5)), "every token")
            else:
                if not ok: continue   # C07 reports it
                want = mk("sqrt", "f64", mk("i2f", "f64", mk("cnt", as_seq(S) if False else canon_seq(S), tok)))
                t2 = A.norm(tf, facts)
                okc = t2 is want or t2 is mk("sqrt", "f64", mk("i2f", "f64", mk("cnt", S, tok)))
                rec = None
                if not okc and not g:
                    rec = recurrence(t2, S, tok)
                    if isinstance(rec, tuple):
                        cx.check(False, "tf", P, "a token that occurs %d times gets the term frequency %s" % (rec[0], show(rec[1], 5)), "tf = sqrt(count)")
                        continue
                if not okc and (g or not explained(t2)): okc = None
                cx.check(okc, "tf", P, "the term frequency recorded is %s, expected %s" % (show(t2, 9), show(want, 9)), "tf = sqrt(count)")
            if ok: good.append((e, w))
        if which == "C07":
            cover(cx, A, [e for e, w in good], n, facts, "unindexed", P, "a field's tokens are not recorded", g)
    cx.rule = ("every write to an inverted index is add_token(reference, token, tf) on the index of field n with a token of pipeline(tokenize(text n)), for every n and token, unconditionally"
               if which == "C07" else "every tf handed to add_token is sqrt(count of the token in the pipeline's result)")


def number(t):
    """the value of a constant computation in f64"""
    if t.op == "int": return float(t.a[0])
    if t.op == "float":
        try: return float(t.a[-1])
        except ValueError: return None
    if t.op == "i2f" and t.a[0] == "f64": return number(t.a[1])
    if t.op == "sqrt" and t.a[0] == "f64":
        x = number(t.a[1])
        return None if x is None or x < 0 else math.sqrt(x)
    return None


LISTS = ("b", "bb", "ab", "bab", "aabaa", "bbba", "abcab")


def sampled(A, e, n, effs, facts):
    """where it is not recognised which tokens are recorded, or with what frequency: what is recorded for some short
    lists of tokens in place of the pipeline's result. They can only show that a rule is broken: (property, text)"""
    tok, tf = A.norm(e.val[1], facts), A.norm(e.val[2], facts)
    runs = lambda *xs: {x for t in xs for x in subterms(t) if tokens_of(x)}
    Ss = runs(tok, tf)
    if len(Ss) != 1 or len(e.loops) != 2: return None
    S = Ss.pop()
    if run_parts(A, n, S)[0] is not True: return None
    if sum(1 for d in effs if S in runs(A.norm(d.val[1], facts), A.norm(d.val[2], facts))) != 1: return None
    v, h = e.loops[1]
    for l in LISTS:
        toks = seq(*[mk("one", mk("str", c)) for c in l])
        hk = rebuild_all(subst(A.norm(h, facts), {S: toks}))
        if hk.op != "int": return None
        got = {}
        for k in range(hk.a[0]):
            at = lambda t: rebuild_all(subst(subst(A.norm(t, facts), {v: I(k)}), {S: toks}))
            go = True
            for c, st in e.guard.items():
                if not (S in subterms(c) or v in subterms(c)): continue
                c2 = at(c)
                if c2.op == "int": go = go and c2.a[0] in st
                elif c2 in (TRUE, FALSE): go = go and int(c2 is TRUE) in st
                else: return None
            if not go: continue
            a, b = at(tok), at(tf)
            if a.op != "str" or number(b) is None: return None
            got[a.a[0]] = number(b)
        if set(got) != set(l): return "C07", "for the tokens %s of a field, the tokens %s are recorded" % (" ".join(l), " ".join(sorted(got)) or "none")
        for c in sorted(set(l)):
            if got[c] != math.sqrt(l.count(c)):
                return "C08", "for the tokens %s of a field, the term frequency recorded last for %s is %s" % (" ".join(l), c, got[c])
    return None


def recurrence(tf, S, tok):
    """when tf is computed from the entry of a map that one loop over the tokens S keeps per token:
    the first occurrence count c for which it is not sqrt(c), as (c, tf), else the number of counts compared"""
    for x in subterms(tf):
        if x.op == "mget" and x.a[0].op == "fold" and x.a[1] is tok: break
    else: return None
    f, init, h = x.a[0].a
    if init.op != "mempty" or h is not mk("len", S): return None
    acc, v = mk("bv", f.a[2]), mk("bv", f.a[0])
    K = mk("sym", "$token", None)
    body = subst(f.a[1], {mk("elem", S, v): K})
    if contains(body, v): return None
    hi = max([abs(y.a[0]) for y in subterms(body) if y.op == "int"] + [abs(b) for y in subterms(body) if y.op == "dd" for st, _ in y.a[1] if st.kind == "I" for r in st.r for b in r if abs(b) < 10 ** 7] + [0])
    m = mk("mempty")
    for c in range(1, min(hi + 3, 70000) + 20):
        m = subst(body, {acc: m})
        if m.op != "mins" or m.a[0].op != "mempty" or not is_const(m.a[2]): return None
        t2 = subst(tf, {x: m.a[2]})
        want = mk("sqrt", "f64", mk("i2f", "f64", I(c)))
        for g, l in paths(t2):
            l2 = rebuild_all(l)
            if l2 is not rebuild_all(want) and not any(y.op in ("hav", "phi", "fold") for y in subterms(l2)): return c, l2
        m = mk("mins", mk("mempty"), K, m.a[2])
    return c


def rebuild_all(t): return simp(subst(t, {mk("sym", "$none", None): UNDEF}), {})


CALLS_OK = (PIPE_RUN, TOKENIZE, "dyn", MAKE_PIPELINE, "elasticlunr::pipeline::PipelineFn::filter", "elasticlunr::pipeline::PipelineFn::name")


def explained(t):
    """all operations of the term are fully modelled"""
    for x in subterms(t):
        if x.op in ("hav", "phi"): return False
        if x.op == "call" and x.a[0] not in CALLS_OK: return False
        if x.op == "fold": return False
        # the items of an iterator whose type is not modelled
        if x.op in ("len", "elem", "sl", "seq") and any(b.op == "adt" for b in x.a if hasattr(b, "op")): return False
    return True


def canon_seq(S): return seq(mk("sl", S, I(0), mk("len", S)))


def cover(cx, A, effs, n, facts, key, P, text, g):
    """in every case in which the field is not the reference key, some write happens"""
    k = A.is_ref(n)
    f2 = dict(facts)
    f2[k] = IntSet([(0, 0)])
    missing = None
    some = False
    for cell, es in cells(effs, f2):
        some = True
        # cells that only differ in conditions about maps always filled are not reachable
        if any(q.op == "has" and q.a[1] is mk("elem", A.fields, n) and 1 not in s for q, s in cell.items()): continue
        if not es and missing is None: missing = cell
    if not effs or not some: return
    fm = {q: s for q, s in (missing or {}).items() if q is not k}
    cx.check(missing is None or (None if g or any(not explained(q) for q in fm if q.op != "has") else False), key, P, "%s when %s" % (text, show_facts(fm)), "nothing left out")


def C07(cx): C07_08(cx, "C07")
def C08(cx): C07_08(cx, "C08")


def C09(cx):
    A = Add(cx)
    F = cx.F
    cx.rule = "docInfo[reference][field n] := len(pipeline(tokenize(text n))) for every n, unconditionally"
    if any(v is None for v in list(F.ix.values()) + list(F.ds.values())): return cx.undecided("the fields of Index have another shape")
    g = gaps(A.R) if A.R else ""
    P = A.R.path if A.R else IX
    for s, facts in A.states("C09"):
        f = A.R.final(s)
        effs = get_writes(cx, A, "docInfo", fld(fld(f, F.ix["store"]), F.ds["doc_info"]), fld(A.store, F.ds["doc_info"]), 2, plain_leaf, facts, "the field lengths")
        if effs is None: continue
        n = align(effs)
        if not effs: cx.check(None if g else False, "nothing", P, "no field length is recorded (when %s)" % show_facts(s.facts))
        good = []
        for e in effs:
            ref, key = e.path
            if not e.loops or A.pos(key) is not n:
                cx.check(None if g or not e.loops else False, "field", P, "a length is recorded under %s" % show(key, 5))
                continue
            cx.check(A.norm(ref, facts) is A.doc_ref, "ref", P, "lengths are recorded for %s instead of the document's reference" % show(ref, 4), "reference")
            v = A.norm(e.val, facts)
            ok, txt = None, "the length of field n is %s" % show(v, 8)
            if v.op == "len":
                o, w, t2 = run_parts(A, n, strip_seq(v.a[0]))
                if o: ok = True
                elif explained(v): ok = False
                if t2: txt += ": " + t2
            elif v is I(0) and any(s2 == ZERO and k.op == "len" and run_parts(A, n, strip_seq(k.a[0]))[0] for k, s2 in e.guard.items()): ok = True
            elif explained(v): ok = False
            if ok is False and g: ok = None
            fo = foreign(A, e, n, e.val)
            if fo and not g: ok, txt = False, "the length recorded for fields[%d] depends on the text of fields[%d]" % fo[:2]
            cx.check(ok, "value", P, txt + " (when %s)" % show_facts(e.guard), "the length is the number of tokens kept")
            trivial(A, e, n)
            cx.check(loop_ok(A, e.loops[0][1], facts), "values", P, "lengths of values 0..%s are recorded, of %s" % (show(A.norm(e.loops[0][1], facts), 5), show(A.nd)), "every value")
            if ok: good.append(e)
        cover(cx, A, good, n, facts, "unrecorded", P, "no length is recorded", g)


def C10(cx):
    A = Add(cx)
    F = cx.F
    cx.rule = "docs[reference] := {ref key: reference} + {fields[n]: text n} for every n, once, when documents are saved; {} otherwise"
    if any(v is None for v in list(F.ix.values()) + list(F.ds.values())): return cx.undecided("the fields of Index have another shape")
    g = gaps(A.R) if A.R else ""
    P = A.R.path if A.R else IX
    save = fld(A.store, F.ds["save"])
    for s, facts in A.states("C10"):
        f = A.R.final(s)
        docs, docs0 = A.norm(fld(fld(f, F.ix["store"]), F.ds["docs"]), facts), A.norm(fld(A.store, F.ds["docs"]), facts)
        for gd, d in paths(docs):
            f2 = feasible(facts, gd)
            if f2 is None: continue
            d0 = A.norm(docs0, f2)
            d = A.norm(d, f2)
            if d is d0:
                cx.check(None if g else False, "stored", P, "the document is not handed to the store (when %s)" % show_facts(s.facts))
                continue
            if d.op != "mins" or d.a[0] is not d0:
                cx.check(None, "stored", P, "the stored documents become %s" % show(d, 7))
                continue
            cx.check(d.a[1] is A.doc_ref, "ref", P, "the document is stored under %s" % show(d.a[1], 4), "stored under its reference")
            saving = A.norm(save, f2)
            if saving.op == "dd":
                sv = [l for gg, l in paths(saving) if feasible(f2, gg) is not None]
            else: sv = [saving]
            v = A.norm(d.a[2], f2)
            on = None
            if all(x is TRUE for x in sv): on = True
            if all(x is FALSE for x in sv): on = False
            if on is False: continue        # C02
            if v.op == "mempty":
                if on: cx.check(False, "empty", P, "an empty document is stored although documents are saved")
                continue
            effs = get_writes(cx, A, "doc", v, mk("mempty"), 1, plain_leaf, f2, "the stored document")
            if effs is None: continue
            n = align(effs)
            refs = [e for e in effs if not e.loops]
            rest = [e for e in effs if e.loops]
            r_ok = [e for e in refs if A.norm(e.path[0], f2) is A.ref and A.norm(e.val, f2) is A.doc_ref]
            cx.check(bool(r_ok) or (None if g else False), "reference", P, "the stored document lacks the reference under the reference key: %s" % show(v, 7), "reference stored")
            for e in refs:
                if e not in r_ok: cx.check(None if g or not explained(e.val) else False, "extra", P, "the stored document gets %s := %s" % (show(e.path[0], 5), show(e.val, 6)), "nothing else")
            good = []
            for e in rest:
                key, val = e.path[0], A.norm(e.val, f2)
                if A.pos(key) is not n:
                    cx.check(None if g or not explained(key) else False, "field", P, "the stored document gets %s := %s" % (show(key, 5), show(val, 6)), "nothing else")
                    continue
                okv = same(val, A.text(n), f2) or same(as_chars(val), mk("chars", A.text(n)), f2)
                cx.check(okv or (None if g or not explained(val) else False), "text", P, "field n is stored as %s" % show(val, 7), "text verbatim")
                trivial(A, e, n)
                cx.check(loop_ok(A, e.loops[0][1], f2), "values", P, "values 0..%s are stored, of %s" % (show(A.norm(e.loops[0][1], f2), 5), show(A.nd)), "every value")
                if okv: good.append(e)
            if not rest: cx.check(None if g else False, "fields", P, "no field's text is stored: %s" % show(v, 6))
            cover(cx, A, good, n, f2, "left out", P, "a field's text is not stored", g)


def as_chars(t): return t.a[0] if t.op == "ofchars" else mk("chars", t)


# ---------------------------------------------------------------- C11, C12: builders
def builder_ops(cx):
    """public functions that take a builder by value, and those that make one"""
    setters, makers = [], []
    for f in cx.J["fns"]:
        m = re.match(re.escape(IB) + r"::(\w+)$", f["path"])
        if not m or not f["vis"]: continue
        ins, _, out = f["sig"].partition("->")
        takes = re.search(r"fn\(\s*(&mut )?IndexBuilder|\(IndexBuilder|Self", ins) or "IndexBuilder" in ins
        if "IndexBuilder" in out and takes: setters.append((m.group(1), f["path"]))
        elif "IndexBuilder" in out: makers.append((m.group(1), f["path"]))
    return setters, makers


def default_maker(cx):
    it = Interp(cx.J)
    for x in it.insts:
        if x and x.get("body") and re.match(r"<(elasticlunr::)?IndexBuilder as (std|core)::default::Default>::default$", x["path"]): return x["path"]
    return None


def sames(a, b, facts): return same(a, b, facts) or same(as_seq(a), as_seq(b), facts)


def items(xs): return seq(*[mk("one", x) for x in xs])


def outcomes(cx, R, key):
    """(state, value) of the normal ends; reports what is not understood"""
    if R is None: return []
    if R.err:
        cx.undecided("%s: %s" % (R.path, R.err))
        return []
    return R.res


def verdict(ok, R): return ok if ok or not gaps(R) else None


def nones(n): return seq(comp(lam(fresh("n"), items([adt(OPT, 0)])), n)) if False else comp(lam(fresh("n"), items([adt(OPT, 0)])), n)


def index_map(m, fields, facts):
    """is m the map with an empty inverted index under each of the fields: (ok, text)"""
    q = mk("sym", "$q", None)
    hm = has(m, q)
    want = has(mk("setof", fields), q) if fields.op == "seq" else has(mk("setof", as_seq(fields)), q)
    if not same(hm, want, facts): return False, "the index has the keys %s" % show(hm, 6)
    return True, ""


def empty_index_values(cx, m):
    """every value written into the map is an inverted index without tokens"""
    vals = []

    def go(t):
        if t.op == "mins": go(t.a[0]); vals.append(t.a[2])
        elif t.op == "fold": go(t.a[1]); go(t.a[0].a[1])
        elif t.op == "dd":
            for _, l in paths(t): go(l)
        elif t.op == "mmap": vals.append(t.a[1].a[1])
    go(m)
    F = cx.F
    for v in vals:
        r = fld(v, F.ii["root"])
        d, c, n = fld(r, F.it["docs"]), fld(r, F.it["children"]), fld(r, F.it["df"])
        if d.op != "mempty" or c.op != "mempty" or n is not I(0): return False, v
    return True, None


def C11(cx):
    F = cx.F
    cx.rule = "fields and field_tokenizers only ever get one entry each, together, for a name that is not yet there; the index map has exactly the fields as keys, each empty"
    if any(v is None for v in list(F.ix.values()) + list(F.ib.values())): return cx.undecided("the fields of Index or IndexBuilder have another shape")
    setters, makers = builder_ops(cx)
    FI, TK = F.ib["fields"], F.ib["tok"]
    s0 = sym("arg0", None)
    f0, t0 = fld(s0, FI), fld(s0, TK)
    lf, lt = mk("len", f0), mk("len", t0)
    dm = default_maker(cx)
    for name, path in makers + ([("default", dm)] if dm else []):
        R = run_fn(cx, path)
        for s, v in outcomes(cx, R, name):
            okk = same(seqlen(as_seq(fld(v, FI))), I(0), s.facts) and same(seqlen(as_seq(fld(v, TK))), I(0), s.facts)
            cx.check(verdict(okk, R), "new:" + name, path, "a new builder has the fields %s and tokenizers %s" % (show(fld(v, FI), 5), show(fld(v, TK), 5)), "starts empty")
    for name, path in setters:
        if name in ("add_field", "add_field_with_tokenizer", "add_fields"): continue
        R = run_fn(cx, path)
        for s, v in outcomes(cx, R, name):
            cx.check(verdict(sames(fld(v, FI), f0, s.facts) and sames(fld(v, TK), t0, s.facts), R), "kept:" + name, path, "%s changes the fields to %s, tokenizers to %s" % (name, show(fld(v, FI), 5), show(fld(v, TK), 5)), "fields untouched")
    have = {n for n, _ in setters}
    for name, want in (("add_field", lambda R: (items([R.args[1]]), items([adt(OPT, 0)]))),
                       ("add_field_with_tokenizer", lambda R: (items([R.args[1]]), items([some(R.args[2])])))):
        if name not in have: continue
        R = run_fn(cx, IB + "::" + name)
        if R is None: continue
        P = R.path
        okany = False
        for s, v in outcomes(cx, R, name):
            wf, wt = want(R)
            a, b = fld(v, FI), fld(v, TK)
            dup = any_(lam(fresh("n"), eq(R.args[1], elem(as_seq(f0), mk("bv", 0)))), lf) if False else contains_name(f0, R.args[1])
            d = norm_under(dup, s.facts)
            cx.check(verdict(d is FALSE, R), "distinct:" + name, P, "%s accepts a name although %s may hold" % (name, show(d, 6)), "a name is accepted only once")
            cx.check(verdict(sames(a, seq(as_seq(f0), wf), s.facts), R), "fields:" + name, P, "%s makes the fields %s (when %s)" % (name, show(a, 6), show_facts(s.facts)), "name appended")
            cx.check(verdict(sames(b, seq(as_seq(t0), wt), s.facts), R), "tokenizers:" + name, P, "%s makes the tokenizers %s (when %s)" % (name, show(b, 6), show_facts(s.facts)), "tokenizer appended")
            okany = True
        if not R.err: cx.check(okany, "refuses:" + name, P, "%s never succeeds" % name)
        # it refuses nothing but duplicates
        for p in R.panics:
            f = p["facts"]
            d = norm_under(contains_name(f0, R.args[1]), f)
            cx.check(True if d is TRUE else None, "panic:" + name, P, "%s panics (%s at %s) when %s" % (name, p["kind"], p["where"], show_facts(f)), "panics only for duplicates")
    # several names at once
    many(cx, "add_fields", IB + "::add_fields", 1, lambda v: (fld(v, FI), fld(v, TK)), as_seq(f0), as_seq(t0), f0)
    # the index
    for name, arg in (("new", 0), ("with_language", 1)):
        R = cx.index_run(IX + "::" + name)
        if R is None: continue
        many(cx, "Index::" + name, IX + "::" + name, arg, lambda v: (fld(v, F.ix["fields"]), fld(v, F.ix["tok"])), EMPTY, EMPTY, None)
        for s, v in outcomes(cx, R, name): index_ok(cx, R, s, v, as_seq(R.args[arg]))
    R = cx.index_run(IB + "::build")
    for s, v in outcomes(cx, R, "build"):
        cx.check(verdict(sames(fld(v, F.ix["fields"]), f0, s.facts), R), "build:fields", R.path, "the index gets the fields %s" % show(fld(v, F.ix["fields"]), 6), "fields handed over")
        cx.check(verdict(sames(fld(v, F.ix["tok"]), t0, s.facts), R), "build:tokenizers", R.path, "the index gets the tokenizers %s" % show(fld(v, F.ix["tok"]), 6), "tokenizers handed over")
        index_ok(cx, R, s, v, as_seq(f0))
    # adding documents leaves the set-up alone
    A = Add(cx)
    for s, facts in A.states("C11"):
        f = A.R.final(s)
        cx.check(verdict(sames(fld(f, F.ix["fields"]), A.fields, facts) and sames(fld(f, F.ix["tok"]), A.tok, facts), A.R), "add_doc:fields", A.R.path, "add_doc changes the fields or tokenizers", "set-up untouched")
        effs = get_writes(cx, A, "add_doc:indices", fld(f, F.ix["index"]), A.index, 1, lambda v, m, k, loops, guard, path: [Eff(loops, guard, path, v)], facts, "the inverted indices")
        if effs is None: continue
        n = align(effs)
        for e in effs:
            okk = e.loops and A.pos(e.path[0]) is not None
            cx.check(okk or (None if not explained(e.path[0]) else verdict(False, A.R)), "add_doc:indices", A.R.path, "add_doc writes an index for %s" % show(e.path[0], 6), "one index per field")
    R = cx.index_run(IX + "::get_fields")
    if R is not None:
        for s, v in outcomes(cx, R, "get_fields"):
            cx.check(verdict(sames(v, fld(sym("arg0", None), F.ix["fields"]), s.facts), R), "get_fields", R.path, "get_fields returns %s" % show(v, 5), "fields in order")


def contains_name(fields, x):
    n = fresh("n")
    return any_(lam(n, eq(elem(as_seq(fields), n), x)), seqlen(as_seq(fields)))


def index_ok(cx, R, s, v, fields):
    m = fld(v, cx.F.ix["index"])
    okk, txt = index_map(norm_under(m, s.facts), fields, s.facts)
    cx.check(verdict(okk, R), "indices", R.path, txt, "one index per field")
    okk, bad = empty_index_values(cx, norm_under(m, s.facts))
    cx.check(verdict(okk, R), "empty indices", R.path, "a new index starts with %s" % show(bad, 5) if bad is not None else "", "indices start empty")


def many(cx, what, path, arg, get, f0, t0, old):
    """a function that takes a list of names"""
    facts0 = {}
    R = cx.index_run(path)
    if R is None: return
    for s, v in outcomes(cx, R, what):
        a, b = get(v)
        names = as_seq(R.args[arg])
        cx.check(verdict(sames(a, seq(f0, names), s.facts), R), "fields:" + what, path, "%s makes the fields %s" % (what, show(a, 6)), "names appended in order")
        cx.check(verdict(sames(b, seq(t0, nones(seqlen(names))), s.facts), R), "tokenizers:" + what, path, "%s makes the tokenizers %s" % (what, show(b, 6)), "one empty tokenizer per name")
    # names must be pairwise different, and new: three names
    x, y, z = (sym("name%d" % k, None) for k in range(3))
    R = run_fn(cx, path, anchors=(ADD_TOKEN, PIPE_RUN), args={arg: items([x, y, z])}, unroll=6)
    if R.err: return cx.undecided("%s: %s" % (path, R.err))
    for s, v in R.res:
        ds = [eq(x, y), eq(x, z), eq(y, z)] + ([contains_name(old, n) for n in (x, y, z)] if old is not None else [])
        for d in ds:
            d = norm_under(d, s.facts)
            cx.check(verdict(d is FALSE, R), "distinct:" + what, path, "%s accepts equal names: %s" % (what, show(d, 6)), "names are accepted only once")
    cx.check(verdict(bool(R.res), R), "accepts:" + what, path, "%s accepts no three names" % what, "different names are accepted")


def english_default(cx, v):
    return v.op == "adt" and re.search(r"(^|::)English$", str(v.a[0]))


def C12(cx):
    F = cx.F
    cx.rule = "each builder setting is stored by its setter, left alone by every other one, and handed to the index; own tokenizers are used exactly where given"
    if any(v is None for v in list(F.ix.values()) + list(F.ib.values())): return cx.undecided("the fields of Index or IndexBuilder have another shape")
    setters, makers = builder_ops(cx)
    b = F.ib
    s0 = sym("arg0", None)
    dm = default_maker(cx)
    adtb = adt_of(cx.J, IB)
    nfl = len(adtb["variants"][0]["fields"])
    fname = [f["name"] for f in adtb["variants"][0]["fields"]]
    # constructors
    for name, path in makers + ([("default", dm)] if dm else []):
        R = run_fn(cx, path)
        for s, v in outcomes(cx, R, name):
            given = R.args.get(0)
            cx.check(verdict(same(fld(v, b["save"]), TRUE, s.facts), R), "default:save", path, "a new builder has save = %s" % show(fld(v, b["save"]), 4), "defaults")
            cx.check(verdict(same(fld(v, b["ref"]), S("id"), s.facts), R), "default:ref", path, "a new builder has the reference key %s" % show(fld(v, b["ref"]), 4), "defaults")
            l = fld(v, b["lang"])
            okk = same(l, given, s.facts) if given is not None else english_default(cx, l)
            cx.check(verdict(bool(okk), R), "default:language", path, "a new builder has the language %s" % show(l, 4), "defaults")
            p = fld(v, b["pipeline"])
            cx.check(verdict(same(p, adt(OPT, 0), s.facts), R), "default:pipeline", path, "a new builder already has the pipeline %s" % show(p, 4), "defaults")
    own = {"save_docs": b["save"], "set_ref": b["ref"]}
    for name, path in setters:
        R = run_fn(cx, path)
        for s, v in outcomes(cx, R, name):
            for i in range(nfl):
                new = fld(v, i)
                if own.get(name) == i:
                    cx.check(verdict(same(new, R.args[1], s.facts), R), "set:" + name, path, "%s stores %s" % (name, show(new, 5)), "setting stored")
                elif i in (b["fields"], b["tok"]): continue          # C11
                elif i in (b["save"], b["ref"], b["lang"], b["pipeline"]):
                    cx.check(verdict(same(new, fld(s0, i), s.facts), R), "keep:%s:%s" % (name, fname[i]), path, "%s changes %s to %s" % (name, fname[i], show(new, 5)), "other settings left alone")
    # the index
    x = F.ix
    R = cx.index_run(IB + "::build")
    for s, v in outcomes(cx, R, "build"):
        P = R.path
        if any(k is disc(fld(s0, b["pipeline"]), 2) and st == ONE for k, st in s.facts.items()): continue   # no builder has one
        settings(cx, R, s, v, P, fld(s0, b["save"]), fld(s0, b["ref"]), fld(s0, b["lang"]), mk("call", MAKE_PIPELINE, fld(s0, b["lang"])))
    R = cx.index_run(IX + "::with_language")
    if R is not None:
        for s, v in outcomes(cx, R, "with_language"):
            settings(cx, R, s, v, R.path, TRUE, S("id"), R.args[0], mk("call", MAKE_PIPELINE, R.args[0]))
    R = cx.index_run(IX + "::new")
    if R is not None:
        it = Interp(cx.J)
        mp = next((k["path"] for k in it.insts if k and k.get("body") and re.match(r"<(elasticlunr::)?lang::en::English as .*Language>::make_pipeline$", k["path"])), None)
        for s, v in outcomes(cx, R, "new"):
            l = fld(v, x["lang"])
            cx.check(verdict(bool(english_default(cx, l)), R), "language", R.path, "the language is %s" % show(l, 4), "language")
            want = None
            if mp:
                R2 = run_fn(cx, mp, args={0: l})
                if not R2.err and len(R2.res) == 1: want = R2.res[0][1]
            settings(cx, R, s, v, R.path, TRUE, S("id"), l, want)
    # tokenizers
    A = Add(cx)
    g = gaps(A.R) if A.R else ""
    for s, facts in A.states("C12"):
        f = A.R.final(s)
        effs = get_writes(cx, A, "index", fld(f, x["index"]), A.index, 1, token_leaf, facts, "the inverted indices")
        if effs is None: continue
        n = align(effs)
        good = []
        for e in effs:
            src = token_source(A.norm(e.val[1], facts))
            if not e.loops or src is None or A.pos(e.path[0]) is not n: continue      # C07
            pr = tokens_of(src[0])
            if pr is None: continue
            cx.check(A.norm(pr[0]) is A.pipeline or (None if g else False), "pipeline", A.R.path, "tokens are filtered by %s" % show(pr[0], 5), "the index's pipeline")
            raw = A.norm(strip_seq(pr[1]))
            own = e.guard.get(mk("disc", mk("elem", A.tok, n), 2))
            rs = A.raws(n)
            okk = raw is rs["own"] and own == ONE or raw is rs["language"] and own == ZERO
            if not okk and (g or not explained(raw)): okk = None
            cx.check(okk, "tokenizer", A.R.path, "a field whose tokenizer is %s is split by %s" % ("given" if own == ONE else "not given" if own == ZERO else "given or not", show(raw, 6)), "the field's tokenizer, else the language's")
            if okk:
                e.guard = {k: s2 for k, s2 in e.guard.items() if k is mk("disc", mk("elem", A.tok, n), 2) or k is A.is_ref(n)}
                good.append(e)
        cover(cx, A, good, n, facts, "unsplit", A.R.path, "a field is not split at all", g)
        for k in ("pipeline", "ref", "lang"):
            cx.check(verdict(same(fld(f, x[k]), fld(A.s0, x[k]), facts), A.R), "kept:" + k, A.R.path, "add_doc changes the index's %s" % k, "settings stay")


def settings(cx, R, s, v, P, save, ref, lang, pipe):
    x = cx.F.ix
    ds = fld(v, x["store"])
    cx.check(verdict(same(fld(ds, cx.F.ds["save"]), save, s.facts), R), "save", P, "the store's save setting is %s" % show(fld(ds, cx.F.ds["save"]), 4), "save setting")
    cx.check(verdict(same(fld(v, x["ref"]), ref, s.facts), R), "ref", P, "the reference key is %s" % show(fld(v, x["ref"]), 4), "reference key")
    cx.check(verdict(same(fld(v, x["lang"]), lang, s.facts), R), "language", P, "the language is %s" % show(fld(v, x["lang"]), 4), "language")
    p = fld(v, x["pipeline"])
    if pipe is not None: cx.check(verdict(same(p, pipe, s.facts), R), "pipeline", P, "the pipeline is %s" % show(p, 5), "the language's pipeline")


RULES = {"C07": C07, "C08": C08, "C09": C09, "C10": C10, "C11": C11, "C12": C12}
