"""C35: the library's stemmers hand on the algorithm's own result.  C36: Chinese and Japanese tokens are the segmenter's words."""
import re
import langs
from terms import *
from base import *

TOK = langs.TOK
NO_ALG = ("ja", "zh", "ko")
STEM = re.compile(r"(^|[<: ])rust_stemmers\b.*::stem$")


def plain(v): return all(x.op in ("seq", "one", "lit", "str", "int", "bool", "tup", "adt", "ofchars") for x in subterms(v))


def words_of(v):
    """the texts of a constant list"""
    q = v if v.op == "seq" else as_seq(v)
    if q.op != "seq": return None
    r = []
    for p in q.a[0]:
        if p.op != "one" or p.a[0].op != "str": return None
        r.append(p.a[0].a[0])
    return r


# ---------------------------------------------------------------- C35
def stem_fns(J):
    return [x["path"] for x in J["insts"] if x and STEM.search(x["path"])] + ["rust_stemmers::Stemmer::stem"]


def force_stem(J, result, seen):
    """a stand-in for the library's function: remembers what it is given, yields a given text"""
    def go(it, st, args, f, where, rty):
        seen.append(it.deep(st, it.load(st, args[1])))
        return [(st, S(result))]
    def setup(it):
        for p in stem_fns(J): it.anchors[p] = go
    return setup


def stem_refute(cx, e, R0):
    """a token on which the filter yields something else than the library's result"""
    J = cx.J
    texts = ["%sword%sword%s" % p for c in "-_'.,/+&@:;!?()*#\u2019" for p in ((c, "", ""), ("", c, ""), ("", "", c))] + ["berry", "running9", "1234y", "Berry", "éééy", "ёжик", "wordword\u0301"]
    texts += ["running9", "ab", "abc", "Ab", "x1", "àé", "ÀÉÜ", "don't", "a-b", "1234", "x" * 20, "x" * 40, "x" * 80, "x" * 130, "x" * 300, " ab ", "привет", "가나다"]
    texts += special_texts(R0.it)
    i = langs.impl(cx, e, "filter")
    for t in texts:
        for r in [t] + ([t[:-1]] if len(t) > 3 else []) + ([t[:-1] + "i"] if len(t) > 3 and t[-1] == "y" else []):
            seen = []
            R = run_fn(cx, "", inst=i, args={0: e, 1: S(t)}, unroll=len(t) + 4, setup=force_stem(J, r, seen))
            if R is None or gaps(R): continue
            if R.panics and not R.res: return "for the token %r the stemmer panics" % t
            if R.panics or len(R.res) != 1: continue
            v = R.res[0][1]
            if v.op != "adt" or not plain(v): continue
            for x in seen:
                if x.op == "str" and x.a[0] != t: return "the token %r is stemmed as %r" % (t, x.a[0])
            if v.a[1] == 0:
                if r: return "the token %r is dropped although its stem is %r" % (t, r)
            else:
                got = fld(v, 0)
                if got.op == "str" and got.a[0] != r: return "for the token %r the library's stem is %r, the filter yields %r" % (t, r, got.a[0])
    return None


def C35(cx):
    cx.rule = ("the filter of every language's stemmer is interpreted over a symbolic token: each outcome is the term stem(algorithm, token), or nothing "
               "under the fact that this term is empty; where there is no algorithm, the token itself")
    L = langs.languages(cx)
    if not L: return cx.undecided("no languages found")
    n = 0
    for l in L:
        if l.queue is None:
            cx.undecided("%s::make_pipeline: %s" % (l.short, l.why))
            continue
        for e in l.queue:
            nm = langs.fn_name(cx, e)
            if not nm or not nm.startswith("stemmer"): continue
            if l.code == "ar" or langs.local_stemmer(cx, e): continue      # C20; C21, C22 and C34
            n += 1
            P = "%s of %s" % (nm, l.short)
            R = langs.filter_run(cx, e)
            if R is None:
                cx.undecided("%s: no filter" % P)
                continue
            g = gaps(R)
            bad = None
            for s, v in R.res:
                f = s.facts
                v = norm_under(v, f)
                if v.op != "adt": bad = show(v, 4)
                elif l.code in NO_ALG:
                    if v.a[1] != 1 or not same(fld(v, 0), TOK, f): bad = "yields %s" % show(v, 5)
                else:
                    stems = {x for x in list(subterms(v)) + [y for k in f for y in subterms(k)] if x.op == "stem"}
                    stems = {x for x in stems if x.a[1] is TOK}
                    if v.a[1] == 1: ok = any(same(fld(v, 0), x, f) for x in stems)
                    else: ok = any(norm_under(inn(x, StrSet([""])), f) is TRUE for x in stems)
                    if not ok: bad = "yields %s when %s" % (show(v, 5)[:200], show_facts(f)[:200])
                if bad: break
            if not g and not bad and not R.panics and R.res:
                cx.check(True, "stem:" + l.short, P, "", "stemmers")
                continue
            w = stem_refute(cx, e, R) if l.code not in NO_ALG else plain_refute(cx, e, R)
            cx.check(False if w else None, "stem:" + l.short, P, w or bad or g or "a panic is not excluded", "stemmers")
    cx.check(True if n else None, "stemmers", "elasticlunr::lang", "stemmers found: %d" % n, "stemmers")


def plain_refute(cx, e, R0):
    for t in ["ab", "Ab", "x1", "àé", "ÀÉÜ", "don't", "x" * 40, "x" * 130, "漢字", "漢", "カナ", "ひらがな", "한글", "", "a b", "ー", "サーバー", "アー", "バーー"] + special_texts(R0.it):
        R = langs.filter_run(cx, e, S(t), unroll=len(t) + 4)
        if R is None or gaps(R) or len(R.res) != 1 or R.panics: continue
        v = R.res[0][1]
        if v.op == "adt" and v.a[1] == 0: return "the token %r is dropped" % t
        if v.op == "adt" and fld(v, 0).op == "str" and fld(v, 0).a[0] != t: return "the token %r becomes %r" % (t, fld(v, 0).a[0])
    return None


# ---------------------------------------------------------------- C36
LEFT_OUT = ("助詞", "助動詞", "記号", "UNK")
SEG = {"zh": (re.compile(r"jieba_rs::.*::(cut\w*|tokenize|tag|lcut\w*)$"), "jieba_rs::Jieba::cut_for_search"),
       "ja": (re.compile(r"lindera::.*::tokenize\w*$"), "lindera::tokenizer::Tokenizer::tokenize")}


def seg_calls(J, code):
    """the segmenter's functions among the instances and callees"""
    rx = SEG[code][0]
    out = {SEG[code][1]}
    for x in J["insts"]:
        if x and rx.search(x["path"]): out.add(x["path"])
    return out


def C36(cx):
    cx.rule = ("the tokenizers of Chinese and Japanese are interpreted with the segmenter's call as an opaque term: the result is the list of its words, each verbatim and in order, "
               "for Japanese without exactly those whose first detail is one of %s" % ", ".join(LEFT_OUT))
    L = {l.code: l for l in langs.languages(cx)}
    n = 0
    for code in ("zh", "ja"):
        l = L.get(code)
        if l is None or "tokenize" not in l.inst: continue
        n += 1
        P = "%s::tokenize" % l.short
        R = run_fn(cx, P, inst=l.inst["tokenize"])
        R.unknown = [u for u in R.unknown if not re.match(r"(<)?(lindera|jieba)", u)]
        g = gaps(R)
        okall, why = bool(R.res) and not g, g
        for s, v in R.res:
            if not okall: break
            ok, why = seg_ok(code, R, s, norm_under(v, s.facts))
            okall = okall and ok
        for p in R.panics:
            # the segmenter's own error is not this crate's
            if not any(k.op == "disc" and k.a[0].op == "call" and decided(k, p["facts"]) == 1 for k in p["facts"]): okall, why = False, "a panic is not excluded (%s)" % p["detail"]
        if okall:
            cx.check(True, "segments:" + code, P, "", "tokenizers")
            continue
        w = seg_refute(cx, code, l, R)
        cx.check(False if w else None, "segments:" + code, P, w or why or "not understood", "tokenizers")
    cx.check(True if n else None, "segmenters", "elasticlunr::lang", "segmenting tokenizers found: %d" % n, "tokenizers")


def seg_ok(code, R, s, v):
    f = s.facts
    name = SEG[code][1]
    calls = {x for x in list(subterms(v)) + [y for k in f for y in subterms(k)] if x.op == "call" and isinstance(x.a[0], str) and re.match(r"(lindera|jieba)", x.a[0])}
    main = [x for x in calls if x.a[0] == name and x.a[2] is R.args[1]]
    if len(main) != 1: return False, "the segmenter's function is not called once on the text: %s" % ", ".join(sorted(show(c, 3)[:120] for c in calls))
    c = main[0]
    if c.a[1] is not fld(R.args[0], 0): return False, "another segmenter than the language's own is used: %s" % show(c.a[1], 4)[:150]
    if code == "zh":
        if c.a[3] is not FALSE and decided(c.a[3], f) != 0: return False, "the hidden Markov model is on"
        return (True, "") if sames_(v, as_seq(c), f) else (False, "the tokens are %s" % show(v, 8)[:300])
    b = as_seq(fld(c, 0, 0))
    n = fresh("n")
    e = elem(b, n)
    d = fld(e, 1)
    first = elem(as_seq(d), I(0))
    want = comp(lam(n, ite(inn(mk("len", d), IntSet([(0, 0)])), items([fld(e, 0)]), ite(inn(first, StrSet(list(LEFT_OUT))), EMPTY, items([fld(e, 0)])))), seqlen(b))
    return (True, "") if sames_(v, want, f) else (False, "the tokens are %s" % show(v, 9)[:400])


def items(xs): return seq(*[mk("one", x) for x in xs])


def sames_(a, b, f): return same(a, b, f) or same(as_seq(a), as_seq(b), f)


def seg_refute(cx, code, l, R0):
    """a text, and words of the segmenter, for which the tokens are others; or another function or text handed to the segmenter"""
    J = cx.J
    used, given, flags = set(), [], []
    words = [["甲"], ["甲", "乙"], ["甲", "甲"], [], ["A"], ["É"], [" "], ["。"], ["ab", "甲", "ab"], ["1"], ["甲乙", "甲", "乙"], [""], ["的"], ["、", "a b"], ["ー"], ["\n", "x"], ["甲" * 30]]
    sp = special_texts(R0.it)
    words += [[t] for t in sp[:60] if t]
    if code == "zh": insts = [[(w, []) for w in ws] for ws in words]
    else:
        dets = [[], ["名詞"], ["名詞", "一般"], ["UNK"], ["助詞"], ["助動詞"], ["記号"], ["記号", "一般"], ["名詞", "助詞"], ["動詞", "自立"], ["助詞", "名詞"], ["フィラー"], ["感動詞"], ["接続詞"], ["副詞"], ["形容詞"], ["連体詞"], ["接頭詞"], ["その他"], ["*"], [""], ["名詞", "一般", "*", "*", "*", "*", "乙", "オツ", "オツ"], ["動詞", "自立", "*", "*", "一段", "基本形", "乙", "オツ", "オツ"]]
        dets += [[t] for t in sp[:40] if t]
        insts = [[(w, ["名詞"]) for w in ws] for ws in words] + [[("甲", d)] for d in dets] + [[("甲", ["助詞"]), ("乙", ["名詞"])], [("甲", ["名詞"]), ("乙", ["UNK"]), ("丙", ["名詞"])]]
    for x in words_inputs():
        for ws in insts if x is words_inputs()[0] else [insts[1]]:
            seen = []

            def go(it, st, args, f, where, rty, ws=ws, seen=seen):
                nm = f["fn"]
                a = [it.deep(st, it.load(st, y)) if y.op == "ref" else y for y in args]
                seen.append((nm, a))
                if code == "zh": return [(st, items([S(w) for w, _ in ws]))]
                return [(st, adt(RES, 0, items([adt("lindera::tokenizer::Token", 0, S(w), items([S(d) for d in ds])) for w, ds in ws])))]

            def setup(it):
                for p in seg_calls(J, code): it.anchors[p] = go
            R = run_fn(cx, "", inst=l.inst["tokenize"], args={1: S(x)}, unroll=70, setup=setup)
            if R is None: continue
            R.unknown = [u for u in R.unknown if not re.match(r"(<)?(lindera|jieba)", u)]
            if gaps(R) or R.panics or len(R.res) != 1: continue
            for nm, a in seen:
                if len(a) > 1 and a[1].op == "str" and a[1].a[0] != x: return "of the text %r the segmenter is given %r" % (x, a[1].a[0])
                if code == "zh" and nm.split("::")[-1] != "cut_for_search": return "the text is segmented by %s, not for search" % nm
                if code == "zh" and len(a) > 2 and a[2] is TRUE: return "the text is segmented with the hidden Markov model"
            got = words_of(norm_under(R.res[0][1], R.res[0][0].facts))
            want = [w for w, d in ws if not (d and d[0] in LEFT_OUT)]
            if got is None or not seen: continue
            if got != want:
                return "when the segmenter finds %s the tokens are %s, not %s" % (", ".join("%s (%s)" % (w, "/".join(d)) if code == "ja" else repr(w) for w, d in ws) or "nothing", got, want)
    return None


def words_inputs(): return ["甲乙", " A b ", "ÀÉ", "1 2", "", "x\n", "甲。乙、", "①Ａ", "x" * 50]


RULES = {"C35": C35, "C36": C36}
