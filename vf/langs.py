"""The languages of the crate, as the abstract interpreter sees them: for each implementation of the
Language trait its name, code, tokenizer and pipeline, and what each pipeline function does."""
from base import *
import rx

LANG = "elasticlunr::lang::Language"
PFN = "elasticlunr::pipeline::PipelineFn"
TOK = sym("tok", "str")


class Lang:
    def __init__(self, path):
        self.path = path
        self.short = path.split("::")[-1]
        self.inst = {}
        self.code = self.name = None
        self.queue, self.why = None, ""


def const(cx, i, selfval=None):
    R = run_fn(cx, "", inst=i, selfval=selfval)
    if R is None or gaps(R) or len(R.res) != 1 or R.res[0][1].op != "str": return None
    return R.res[0][1].a[0]


def languages(cx):
    """every implementation of the Language trait in the crate"""
    if hasattr(cx, "_langs"): return cx._langs
    it = Interp(cx.J)
    L = {}
    for i, x in enumerate(it.insts):
        if not x or not x.get("body"): continue
        m = re.match(r"^<(elasticlunr::[\w:]+) as %s>::(\w+)$" % re.escape(LANG), x["path"])
        if m: L.setdefault(m.group(1), Lang(m.group(1))).inst[m.group(2)] = i
    for l in L.values():
        l.name = const(cx, l.inst["name"]) if "name" in l.inst else None
        l.code = const(cx, l.inst["code"]) if "code" in l.inst else None
        l.queue, l.why = queue(cx, l)
    cx._langs = sorted(L.values(), key=lambda l: l.path)
    return cx._langs


def queue(cx, l):
    """the functions of make_pipeline, as terms"""
    if "make_pipeline" not in l.inst: return None, "no make_pipeline"
    R = run_fn(cx, "", inst=l.inst["make_pipeline"])
    g = gaps(R)
    if g: return None, "make_pipeline: " + g
    if len(R.res) != 1 or cx.F.queue is None: return None, "make_pipeline has %d outcomes" % len(R.res)
    q = fld(R.res[0][1], cx.F.queue)
    if q.op != "seq": q = as_seq(q)
    n = seqlen(q)
    if n.op != "int": return None, "the pipeline's length is not constant"
    return [elem(q, I(k)) for k in range(n.a[0])], ""


def impl(cx, e, method, it=None):
    """the instance of a PipelineFn method for a queue element of known type"""
    if e.op != "adt": return None
    for i, x in enumerate(cx.J["insts"]):
        if x and x.get("body") and x["path"] == "<%s as %s>::%s" % (e.a[0], PFN, method): return i
    return None


def fn_name(cx, e):
    i = impl(cx, e, "name")
    return const(cx, i, e) if i is not None else None


def filter_run(cx, e, tok=TOK, facts=None, unroll=0, anchors=()):
    i = impl(cx, e, "filter")
    if i is None: return None
    return run_fn(cx, "", inst=i, args={0: e, 1: tok}, facts=facts, unroll=unroll, anchors=anchors)


def where(cx, e):
    n = fn_name(cx, e)
    return "%s (%s)" % (n, e.a[0].split("::")[-1] if e.op == "adt" else "?")


class Kind:
    """what one pipeline function does: kind is trimmer, stop, stemmer, identity, or other"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


def kind_of(cx, e):
    memo = cx.__dict__.setdefault("_kinds", {})
    if e not in memo: memo[e] = _kind(cx, e)
    return memo[e]


def _kind(cx, e):
    if e.op != "adt": return Kind("other", why="not a known type")
    if local_stemmer(cx, e): return Kind("stemmer", alg="local:" + e.a[0], outcomes=None)
    R = filter_run(cx, e)
    if R is None: return Kind("other", why="no filter")
    g = gaps(R)
    O = []
    for s, v in R.res:
        v = norm_under(v, s.facts)
        O.append((s.facts, v))
    K = Kind("other", why=g or "unrecognised", outcomes=O, gap=g, panics=R.panics)
    if g: return K
    some_ = [(f, fld(v, 0)) for f, v in O if v.op == "adt" and v.a[1] == 1]
    none_ = [f for f, v in O if v.op == "adt" and v.a[1] == 0]
    if len(some_) + len(none_) != len(O): return K
    vals = {eqn(v, f) for f, v in some_}
    K.none, K.some = none_, some_
    trims = {v for v in vals if v.op == "trimset"}
    stems = {x for f, v in some_ for x in subterms(v) if x.op == "stem"} | {x for f in none_ for k in f for x in subterms(k) if x.op == "stem"}
    if stems:
        if len(stems) == 1: K.alg = next(iter(stems)).a[0]
        K.kind = "stemmer"
        return K
    if trims or any(x.op == "trimset" for f in list(none_) + [f for f, _ in some_] for k in f for x in subterms(k)):
        K.kind = "trimmer"
        return K
    if vals <= {TOK}:
        if not none_: K.kind = "identity"
        else: K.kind = "stop"
        return K
    if any(x.op in ("ofchars", "repl", "repl1", "rmchars", "flatmapc") for v in vals for x in subterms(v)): K.kind = "stemmer"
    return K


def eqn(v, f):
    return v


def local_stemmer(cx, e):
    """the crate's own Porter stemmer: too large for the generic path, has its own rules"""
    return e.op == "adt" and e.a[0] == "elasticlunr::lang::en::Stemmer"


def scripts(names):
    r = IntSet([])
    for n in names:
        if n == "ascii-word": r = r.union(IntSet([(48, 57), (65, 90), (95, 95), (97, 122)]))
        elif n == "ascii-alnum": r = r.union(IntSet([(48, 57), (65, 90), (97, 122)]))
        else: r = r.union(rx.prop(n))
    return r


# the word characters of each language: the scripts lunr-languages generates its trimmers from
WORDS = {"en": ["ascii-word"], "ru": ["Cyrillic"], "ko": ["Latin", "Hangul"], "zh": ["Unified_Ideograph", "Latin"],
         "ja": ["ascii-alnum", "Hiragana", "Katakana", "Unified_Ideograph"]}
for c in "da de du es fi fr hu it no pt ro sv tr".split(): WORDS[c] = ["Latin"]


def listed_words(e):
    """the words a filter term holds"""
    if e.op != "adt": return None
    ws = None
    for x in subterms(e):
        if x.op == "setof" or x.op == "seq" and x.a[0] and all(p.op == "one" and p.a[0].op == "str" for p in x.a[0]):
            q = as_seq(x.a[0]) if x.op == "setof" else x
            w = {p.a[0].a[0] for p in q.a[0] if p.op == "one" and p.a[0].op == "str"}
            if q.op == "seq" and all(p.op in ("one", "lit") for p in q.a[0]): ws = (ws or set()) | w
    return ws


def on_token(outcomes, t):
    """the outcome that the cases give for a constant token, folded; None when a case stays open"""
    m = {TOK: S(t)}
    hit = None
    for f, v in outcomes:
        ok = True
        for k, s in f.items():
            y = simp(subst(k, m), {})
            if y.op in ("int", "str"): b = y.a[0] in s
            elif y.op == "bool": b = (1 if y.a[0] else 0) in s
            else: b = None
            if b is False:
                ok = False
                break
            if b is None: ok = None
        if ok is False: continue
        if ok is None or hit is not None: return None
        hit = simp(subst(v, m), {})
    return hit
