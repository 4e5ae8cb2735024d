"""C14, C15, C17, C20: the languages."""
from concurrent.futures import ThreadPoolExecutor
from base import *
from p_store import need
from p_index import explained
import build, langs, rx
from langs import TOK, PFN

CHARS = IntSet([(0, 0xD7FF), (0xE000, 0x10FFFF)])


# ---------------------------------------------------------------- C14
def feature_sets(m, tier):
    """feature sets to analyse: none, each alone, all but each, all, and the default set"""
    fs = build.lang_features(m)
    out = [(), tuple(fs)] + [(f,) for f in fs] + [tuple(x for x in fs if x != f) for f in fs]
    if tier == "thorough":
        out += [(a, b) for n, a in enumerate(fs) for b in fs[n + 1:]]
        out += [tuple(fs[:k]) for k in range(2, len(fs) - 1)] + [tuple(fs[::2]), tuple(fs[1::2])]
    seen, r = set(), []
    for s in out:
        if s not in seen:
            seen.add(s)
            r.append(s)
    return r


def registry(J):
    """(listed, by code, by name, why): the languages of one feature set"""
    cx = Ctx("C14", J)
    cx.F = Fields(J)
    out = {"why": "", "names": {}, "paths": {}}
    R = run_fn(cx, "elasticlunr::lang::languages")
    tys = {l.path: l for l in langs.languages(cx)}
    out["types"] = {l.path: (l.name, l.code) for l in tys.values()}

    def entry(t):
        """type path of a language value"""
        return t.a[0] if t.op == "adt" and t.a[0] in tys else None
    res = [(s, v) for s, v in R.res] if R else []
    if not R or R.err or not res:
        out["why"] = "languages(): " + ((R.err or "no outcome") if R else "not found")
        return out, cx
    L = None
    for s, v in res:
        q = as_seq(v)
        n = seqlen(q)
        if n.op != "int":
            out["why"] = "the list of languages is not constant"
            return out, cx
        l = [entry(elem(q, I(k))) for k in range(n.a[0])]
        if None in l:
            out["why"] = "a listed language of unknown type"
            return out, cx
        if L is not None and L != l: out["why"] = "the list of languages varies"
        L = l
    out["listed"] = L
    for fn, key in (("from_code", "code"), ("from_name", "name")):
        R = run_fn(cx, "elasticlunr::lang::" + fn)
        if R is None or R.err:
            out["why"] = "%s: %s" % (fn, R.err if R else "not found")
            return out, cx
        a0 = R.args[0]
        cases = []
        for s, v in R.res:
            v = norm_under(v, s.facts)
            if v.op != "adt":
                out["why"] = "%s: result %s" % (fn, show(v, 3))
                return out, cx
            e = None
            if v.a[1] == 1:
                e = entry(v.a[2])
                if e is None:
                    out["why"] = "%s: a language of unknown type" % fn
                    return out, cx
            cases.append((s.facts, e))
        out[key] = (a0, cases)
    return out, cx


def lookup(a0, cases, text):
    """the language found for a constant argument: a set of candidates, '?' when undecided"""
    r = set()
    for f, e in cases:
        okf = True
        for k, s in f.items():
            if a0 not in syms_of(k): continue
            x = simp(subst(k, {a0: S(text)}), {})
            if x.op == "str": okf = okf and x.a[0] in s
            elif x.op == "int": okf = okf and x.a[0] in s
            elif x.op == "bool": okf = okf and (1 if x.a[0] else 0) in s
            else: r.add("?")
            if not okf: break
        if okf: r.add(e)
    return r


def cases_of(code):
    out = [""]
    for c in code: out = [x + y for x in out for y in ({c.lower(), c.upper()})]
    return sorted(out)


def constants(cases):
    """every text that the conditions of a lookup mention"""
    out = set()
    for f, _ in cases:
        for k, s in f.items():
            if s.kind == "S": out |= set(s.s)
            for x in subterms(k):
                if x.op == "str": out.add(x.a[0])
    return out


def C14(cx):
    cx.rule = "for every analysed feature set the tables denoted by languages(), from_code() and from_name() are read off the compiled program and compared with each other, with the languages' own name() and code(), and with the enabled features"
    m = build.manifest()
    allf = set(build.lang_features(m))
    sets = feature_sets(m, cx.tier)
    build.driver()
    build.deps()

    def one(fs):
        try: return fs, build.dump(list(fs)), ""
        except build.BuildError as e: return fs, None, str(e)
    with ThreadPoolExecutor(8) as ex: dumps = list(ex.map(one, sets))
    codes_all = {}
    for l in langs.languages(cx): codes_all[l.code] = l
    for fs, J, errtext in dumps:
        what = "features {%s}" % ", ".join(fs) if len(fs) < 6 else "all features but {%s}" % ", ".join(sorted(allf - set(fs)))
        if J is None:
            t = [x for x in errtext.splitlines() if x.startswith("error")][:2]
            cx.check(False, "build:" + ",".join(fs if len(fs) < 3 else ["-" + x for x in sorted(allf - set(fs))]), "Cargo features", "the crate does not compile with %s: %s" % (what, " ".join(t)), "builds")
            continue
        r, c2 = registry(J)
        cx.functions |= c2.functions
        cx.calls += c2.calls
        cx.paths += c2.paths
        if r["why"] or "name" not in r:
            cx.undecided("%s: %s" % (what, r["why"]))
            continue
        listed = r["listed"]
        own = r["types"]
        cx.check(len(set(listed)) == len(listed), "listed:twice", "lang::languages", "with %s a language is listed twice" % what, "registry")
        want = {"en"} | set(fs)
        have = {own[p][1] for p in listed}
        if None in have:
            cx.undecided("%s: a language's code is not constant" % what)
            continue
        for x in sorted(want - have): cx.check(False, "listed:" + x, "lang::languages", "with %s no language with the code %r is listed" % (what, x), "registry")
        for x in sorted(have - want): cx.check(False, "listed:" + x, "lang::languages", "with %s the language %r is listed although its feature is off" % (what, x), "registry")
        cx.check(True if want == have else None if False else want == have, "listed", "lang::languages", "with %s the listed languages are %s" % (what, sorted(have)), "registry")
        names = [own[p][0] for p in listed]
        cx.check(len(set(names)) == len(names) and len(have) == len(listed), "ambiguous", "lang::languages", "with %s two languages share a name or a code" % what, "registry")
        for kind, ix in (("code", 1), ("name", 0)):
            a0, cases = r[kind]
            fn = "lang::from_" + kind
            mentioned = constants(cases)
            for p in sorted(own):
                key = own[p][ix]
                if key is None:
                    cx.undecided("%s: %s of %s" % (what, kind, p))
                    continue
                exp = p if p in listed else None
                for k in (cases_of(key) if kind == "code" else [key]):
                    got = lookup(a0, cases, k)
                    okv = got == {exp}
                    if not okv and "?" in got: okv = None
                    cx.check(okv, "%s:%s" % (kind, key), fn, "with %s %s(%r) finds %s, expected %s" % (what, fn, k, "/".join(str(x) for x in got), exp), "lookup")
            # nothing else is found
            valid = {own[p][ix] for p in listed}
            probes = {x + y for x in valid for y in ("-x", " ", "_X", ".", "\0")} | {x for x in mentioned} | {x + "x" for x in valid} | {x[:-1] for x in valid} | {" " + x for x in valid} | {"", "zz"}
            probes |= {x.lower() for x in valid} | {x.upper() for x in valid} | {own[p][1 - ix] for p in listed}
            probes |= {own[p][ix] for p in own}
            probes |= {l.code if ix else l.name for l in langs.languages(cx)}
            # characters that the lookup itself mentions, and white space, around a valid key
            marks = {chr(x.a[0]) for f, _ in cases for k in f for x in subterms(k) if x.op == "int" and 0 < x.a[0] < 0xd800} | {x.a[0] for f, _ in cases for k in f for x in subterms(k) if x.op == "str" and 0 < len(x.a[0]) < 9}
            marks |= {chr(c) for f, _ in cases for k in f for x in subterms(k) for y in x.a if isinstance(y, IntSet) and y.r and y.lo() > 0 and y.size() < 64 for lo, hi in y.r for c in range(lo, hi + 1)}
            for c in sorted(marks | {"_", "-", "\t", "\n", "\u3000", "0"})[:64]: probes |= {x + c for x in valid} | {c + x for x in valid} | {x[:1] + c + x[1:] for x in valid} | {c}
            for k in sorted(x for x in probes if isinstance(x, str)):
                if (k.lower() if kind == "code" else k) in valid and (kind == "name" or k.isascii()): continue
                got = lookup(a0, cases, k)
                okv = got == {None}
                if not okv and "?" in got: okv = None
                cx.check(okv, "%s:extra" % kind, fn, "with %s %s(%r) finds %s although no language has that %s" % (what, fn, k, "/".join(str(x) for x in got), kind), "lookup")
            # the cases cover every argument, and outside the constants nothing is found
            for f, e in cases:
                if e is None: continue
                for k in f:
                    if f[k].kind == "S" and a0 in syms_of(k) and not (k is a0 or kind == "code" and k.op in ("alower", "lower", "aupper", "upper") and k.a[0] is a0):
                        cx.check(None, "%s:form" % kind, fn, "with %s the lookup compares %s" % (what, show(k, 6)), "lookup")
                ks = [k for k in f if a0 in syms_of(k)]
                if not any(f[k].kind == "S" and not f[k].n for k in ks) and not any(k.op == "eq" and f[k] == ONE for k in ks):
                    cx.check(None, "%s:open" % kind, fn, "with %s %s is found under a condition that is not a fixed %s: %s" % (what, e, kind, show_facts(f)[:200]), "lookup")
        # a language compiled in must be reachable
        for p in sorted(own):
            if p not in listed: cx.check(False, "unlisted:" + p, "lang::languages", "with %s %s is compiled in but not listed" % (what, p), "registry")
    cx.notes.append("feature sets analysed: %d" % len(sets))


# ---------------------------------------------------------------- C15
def base_kind(nm):
    return {"trimmer": "trimmer", "stopWordFilter": "stop", "stemmer": "stemmer"}.get(nm.split("-")[0])


def variant_name(cx, t):
    """name of the variant of an enum value"""
    if t is None or not isinstance(t, T): return None
    for x in subterms(t):
        if x.op == "adt" and x.a[0].endswith("Algorithm"):
            for a in cx.J["adts"]:
                if a["path"] == x.a[0]: return a["variants"][x.a[1]]["name"]
            for ty in cx.J["types"]:
                if ty and ty.get("k") == "adt" and ty.get("path") == x.a[0] and ty.get("variants"):
                    v = ty["variants"][x.a[1]]
                    return v.get("name")
    return None


ORDER = {"trimmer": 0, "stop": 1, "stemmer": 2}
NO_SW = {"ja"}              # lunr.ja.js's list is empty here; Japanese filters particles while tokenizing
ONLY_STEM = {"ar"}


def C15(cx):
    cx.rule = "make_pipeline of each language denotes a constant list; every element is classified by what its filter does (trims at the ends, drops a fixed set of words, stems), and kind, order, published name, word list and algorithm are compared with the language's own"
    L = langs.languages(cx)
    if not L: return cx.undecided("no languages found")
    lists = {}
    for l in L:
        P = "%s::make_pipeline" % l.short
        if l.queue is None:
            cx.undecided("%s: %s" % (P, l.why))
            continue
        suffix = "" if l.code == "en" else "-" + (l.code or "?")
        want = ["stemmer"] if l.code in ONLY_STEM else ["trimmer", "stemmer"] if l.code in NO_SW else ["trimmer", "stopWordFilter", "stemmer"]
        want = [w + suffix for w in want]
        names = []
        for e in l.queue:
            nm = langs.fn_name(cx, e)
            names.append(nm)
            if nm is None:
                cx.undecided("%s: the name of a function is not constant" % P)
                continue
            k = base_kind(nm)
            K = langs.kind_of(cx, e)
            if nm not in want:
                cx.check(False, "name:" + l.short, P, "a function is published as %r; lunr-languages registers %s" % (nm, ", ".join(want)), "names")
                continue
            have = K.kind
            okv = have == k or k == "stemmer" and have == "identity" and l.code in ("ja", "zh", "ko")
            if not okv and have == "other": okv = None
            if not okv and have == "identity" and k == "stop": okv = False
            cx.check(okv, "kind:%s:%s" % (l.short, nm), P, "the function published as %r %s" % (nm, {"trimmer": "trims tokens at their ends", "stop": "drops a fixed set of tokens",
                     "stemmer": "stems tokens", "identity": "does nothing"}.get(have, "was not classified: " + getattr(K, "why", ""))), "kinds")
            if k == "stemmer" and have == "stemmer" and isinstance(getattr(K, "alg", None), T):
                v = variant_name(cx, K.alg)
                cx.check(None if v is None else v == l.name, "algorithm:" + l.short, P, "%r stems with the algorithm %s" % (nm, v), "algorithms")
            if k == "stop":
                w = langs.listed_words(e)
                if w is None and K.kind == "stop":
                    w = set()
                    for f in K.none:
                        s = f.get(TOK)
                        if s is not None and s.kind == "S" and not s.n: w |= set(s.s)
                if w: lists[l.short] = (w, P)
        if None in names: continue
        if sorted(names) == sorted(want) or len(names) == len(want):
            cx.check(names == want, "order:" + l.short, P, "the functions run in the order %s, expected %s" % (names, want), "order")
        else: cx.check(False, "missing:" + l.short, P, "the functions are %s, expected %s" % (names, want), "order")
    done = sorted(lists)
    for n, a in enumerate(done):
        for b in done[n + 1:]:
            x, y = lists[a][0] - {""}, lists[b][0] - {""}
            if not x or not y: continue
            j = len(x & y) / len(x | y)
            cx.check(j < 0.6, "words:%s:%s" % (a, b), lists[a][1], "%s and %s drop the same words (%d of %d shared)" % (a, b, len(x & y), len(x | y)), "word lists")
    serialized(cx, L)


def serialized(cx, L):
    """the serializer writes the names of the queue's functions, in order"""
    try: import p_serde
    except ImportError: return
    p_serde.pipeline_names(cx)


# ---------------------------------------------------------------- C17
def C17(cx):
    cx.rule = "every non-empty word of a language's list is a fixed point of the tokenizer's lower-casing and of the language's trimmer, and holds no character at which the tokenizer cuts"
    for l in langs.languages(cx):
        if l.queue is None:
            cx.undecided("%s: %s" % (l.short, l.why))
            continue
        trims, seen = [], False
        for e in l.queue:
            K = langs.kind_of(cx, e)
            if K.kind == "trimmer": trims.append(K)
            if K.kind != "stop":
                if K.kind == "other": cx.undecided("%s: a function was not classified: %s" % (l.short, K.why))
                continue
            words = set()
            for f in K.none:
                s = f.get(TOK)
                if s is not None and s.kind == "S" and not s.n and set(f) == {TOK}: words |= set(s.s)
                else: cx.undecided("%s: words dropped under %s" % (l.short, show_facts(f)[:200]))
            lw = langs.listed_words(e)
            if lw: words |= lw
            for path, own in word_lists(cx, l):
                common = own & words
                if 2 * len(common) < len(own): continue
                for w in sorted(own):
                    if w: cx.check(w in words, "kept:%s:%s" % (l.code, w.encode("unicode_escape").decode("ascii") if "\ufeff" in w else w), path, "the word %r is listed, but the filter that %s installs does not drop it" % (w, l.short), "listed words")
            ws = l.code not in ("ja", "zh")
            for w in sorted(words - {""}):
                P = "%s::STOP_WORDS" % l.short
                why = None
                if ws:
                    if any(ord(c) in M.WS or c == "-" for c in w): why = "the tokenizer cuts it at a white space or hyphen"
                    else:
                        lo = M.lower(S(w))
                        if lo.op == "str" and lo.a[0] != w: why = "tokens are lower-cased (%s)" % lo.a[0]
                if why is None:
                    for T_ in trims:
                        r = through(T_, w)
                        if r is None: cx.undecided("%s: the trimmer on %r" % (l.short, w))
                        elif r != w: why = "the trimmer turns it into %r" % r
                cx.check(why is None, "word:%s:%s" % (l.code, w.encode("unicode_escape").decode("ascii") if "\ufeff" in w else w), P, "the listed word %r is never met: %s" % (w, why), "words")


def word_lists(cx, l):
    """the constant lists of words in the module of a language"""
    mod = l.path.rsplit("::", 1)[0] + "::"
    for c in cx.J.get("consts", []):
        if not c["path"].startswith(mod) or "::_::" in c["path"]: continue
        v = c["value"]
        while isinstance(v, dict) and "ref" in v: v = v["ref"]
        a = v.get("array") if isinstance(v, dict) else None
        if a and len(a) > 3 and all(isinstance(x, dict) and isinstance(x.get("str"), str) for x in a): yield c["path"], {x["str"] for x in a}


def through(K, w):
    """what a classified function makes of a constant token: a string, '' when dropped, None when open"""
    out = set()
    for f, v in K.outcomes:
        okf = True
        for k, s in f.items():
            x = simp(subst(k, {TOK: S(w)}), {})
            if x.op == "str": okf = x.a[0] in s
            elif x.op == "int": okf = x.a[0] in s
            elif x.op == "bool": okf = (1 if x.a[0] else 0) in s
            else: return None
            if not okf: break
        if not okf: continue
        if v.op != "adt": return None
        if v.a[1] == 0: out.add("")
        else:
            x = simp(subst(fld(v, 0), {TOK: S(w)}), {})
            if x.op != "str": return None
            out.add(x.a[0])
    return out.pop() if len(out) == 1 else None


# ---------------------------------------------------------------- C20
def js_sets():
    """(deleted characters, alef variants, replacement) of js/lunr.ar.js"""
    import os
    p = os.path.join(build.REPO, "js", "lunr.ar.js")
    try: t = open(p, encoding="utf-8").read()
    except OSError: return None
    t = re.sub(r"/\*.*?\*/", "", t, flags=re.S)
    t = re.sub(r"^\s*//.*$", "", t, flags=re.M)
    dele, alef, by = IntSet([]), IntSet([]), set()
    for m in re.finditer(r"\.replace\(\s*/(\[[^\]]*\])\+?/(\w*)\s*,\s*(['\"])(.*?)\3\s*\)", t):
        if "g" not in m.group(2): continue
        s = rx.as_set(rx.P(re.sub(r"\\u([0-9a-fA-F]{4})", r"\\u{\1}", m.group(1))).alt())
        r = re.sub(r"\\u([0-9a-fA-F]{4})", lambda k: chr(int(k.group(1), 16)), m.group(4))
        if r == "": dele = dele.union(s)
        elif len(r) == 1:
            alef = alef.union(s)
            by.add(r)
    if dele.empty() or alef.empty() or len(by) != 1: return None
    return dele, alef, by.pop()


def layers(t):
    """the replacements a value is made of, first applied first: [(set, replacement, every occurrence)], and their base"""
    out = []
    while True:
        if t.op == "repl1":
            out.append((t.a[1], t.a[2].a[0] if t.a[2].op == "str" else None, False))
            t = t.a[0]
            continue
        r = M.repl_parts(t) if hasattr(M, "repl_parts") else None
        if r:
            out.append((r[1], r[2], True))
            t = r[0]
            continue
        return out[::-1], t


def C20(cx):
    cx.rule = "the Arabic filter denotes: the token mapped character by character, deleting the characters and replacing the alef variants that js/lunr.ar.js names"
    js = js_sets()
    if js is None: return cx.undecided("js/lunr.ar.js was not understood")
    dele, alef, by = js
    ar = [l for l in langs.languages(cx) if l.code == "ar"]
    if not ar: return cx.undecided("no Arabic language")
    l = ar[0]
    if l.queue is None: return cx.undecided("Arabic: " + l.why)
    stem = [e for e in l.queue if (langs.fn_name(cx, e) or "").startswith("stemmer")]
    if not stem: return cx.check(False, "arabic:missing", "Arabic::make_pipeline", "there is no stemmer", "normalization")
    P = "the Arabic stemmer (%s)" % stem[0].a[0]
    K = langs.kind_of(cx, stem[0])
    if getattr(K, "gap", "") or getattr(K, "outcomes", None) is None: return cx.undecided(P + ": " + (getattr(K, "gap", "") or K.why))
    want = M.repl_chars(M.repl_chars(TOK, dele, S("")), alef, S(by))
    # tokens in which each kind of character occurs at most once
    ds, as_ = [chr(c) for c in ints(dele)], [chr(c) for c in ints(alef)]
    base = "\u0643\u062a\u0628"
    probes = ["x", base, "\u0627", "\u0643"] + [w for d in ds for w in (base[:1] + d + base[1:], d + "\u0628", "\u0628" + d)] + \
             [w for a in as_ for w in (a, a + base, base + a, base[:1] + a + base[1:], "x" * 30 + a)] + [a + ds[0] for a in as_] + [ds[-1] + a + "\u0628" for a in as_]
    for t in probes:
        v = langs.on_token(K.outcomes, t)
        if v is None or v.op != "adt": continue
        w = "".join(chr(c) if c not in alef else by for c in map(ord, t) if c not in dele)
        g = None if v.a[1] == 0 else fld(v, 0)
        if g is not None and g.op != "str": continue
        if (g.a[0] if g is not None else "") != w: cx.check(False, "arabic:token", P, "the token %r becomes %s, in js/lunr.ar.js %r" % (t, show(v), w), "normalization")
    for f, v in K.outcomes:
        if v.op != "adt":
            cx.undecided("%s: result %s" % (P, show(v, 3)))
            continue
        x = fld(v, 0) if v.a[1] == 1 else S("")
        import p_pipe
        if same(x, want, f) or v.a[1] == 0 and p_pipe.is_empty_under(want, f) or any(k.op == "eq" and t == ONE and x in k.a and any(same(y, want, f) for y in k.a if y is not x) for k, t in f.items()):
            cx.check(True, "arabic", P, "normalized", "normalization")
            continue
        # the value the function computes: through equalities of the path, the replaced token
        for k, s in f.items():
            if k.op == "eq" and s == ONE and x in k.a: x = next(y for y in k.a if y is not x)
            elif x is not TOK and x.op == "str" and s.kind == "S" and s.single() == x.a[0] and TOK in syms_of(k): x = k
        ls, b = layers(x)
        if b is not TOK or not ls or not any(not e for _, _, e in ls):
            d = char_diff(x, want, f)
            cx.check(False if d else None, "arabic", P, d or "the value %s was not understood" % show(x, 6)[:200], "normalization")
            continue
        D, A = IntSet([]), IntSet([])
        okv = True
        for s, r, every in ls:
            kind = "delete" if r == "" else "alef"
            if not every:
                cx.check(False, "first-only:" + kind, P, "only the first of the characters %r of a token is %s" % (s, "deleted" if r == "" else "replaced"), "every occurrence")
            if r == "": D = D.union(s)
            elif r == by: A = A.union(s)
            else:
                okv = False
                cx.check(False, "replacement", P, "characters %r are replaced by %r" % (s, r), "normalization")
        for nm, have, exp in (("delete", D, dele), ("alef", A.inter(D.compl()), alef)):
            more, less = have.inter(exp.compl()), exp.inter(have.compl())
            okv = more.empty() and less.empty()
            cx.check(okv, "set:" + nm, P, "" if okv else "U+%04X is %s, unlike in js/lunr.ar.js" % ((more if not more.empty() else less).lo(), "changed" if not more.empty() else "left alone"), "character sets")


def ints(s): return [c for a, b in s.r for c in range(a, b + 1)]


def char_map(x):
    """what a character-by-character rewriting of the token makes of one character"""
    if x.op != "ofchars" or len(x.a[0].a[0]) != 1 or x.a[0].a[0][0].op != "comp": return None
    c = x.a[0].a[0][0]
    sq = M.chars_of(TOK)
    if c.a[1] is not seqlen(sq): return None
    n = fresh("n")
    ch = sym("$c", "char")
    b = subst(app(c.a[0], n), {elem(sq, n): ch})
    return None if contains(b, n) or contains(b, TOK) else (ch, b)


def char_diff(x, want, f):
    """a character that the two rewritings treat differently"""
    a, b = char_map(x), char_map(want)
    if not a or not b: return None
    ch = a[0]
    for g, l in paths(a[1]):
        for h, k in paths(b[1]):
            if set(g) | set(h) > {ch}: return None
            s = g.get(ch, CHARS).inter(h.get(ch, CHARS)).inter(CHARS)
            if s.empty() or same(l, k, {ch: s}): continue
            c = s.lo()
            if same(subst(l, {ch: I(c)}), subst(k, {ch: I(c)}), {}):
                c = s.hi()
                if same(subst(l, {ch: I(c)}), subst(k, {ch: I(c)}), {}): return None
            return "U+%04X becomes %s, in js/lunr.ar.js %s" % (c, show(subst(l, {ch: I(c)}), 4), show(subst(k, {ch: I(c)}), 4))
    return None


RULES = {"C14": C14, "C15": C15, "C17": C17, "C20": C20}
