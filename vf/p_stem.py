"""C21, C22: the English stemmer, step by step, on words whose last letters are symbolic."""
from base import *
from p_struct import calls_of
from p_panic import contradictory, refined, detail, phi_rows
import model as M

EN = "elasticlunr::lang::en::"
BYTE = IntSet([(0, 255)])
W = 8               # letters at the end of a word that are looked at


# ---------------------------------------------------------------- finding the parts
class Stem:
    """the type of the stemmer, its fields and its functions"""

    def __init__(self, cx):
        self.cx, J = cx, cx.J
        self.why = ""
        self.ty = None
        for a in J["adts"]:
            if not a["path"].startswith(EN) or len(a["variants"]) != 1: continue
            fs = a["variants"][0]["fields"]
            if sum(f["tystr"] == "std::vec::Vec<u8>" for f in fs) == 1 and sum(f["tystr"] == "usize" for f in fs) >= 1:
                self.ty, self.fs = a["path"], fs
        if self.ty is None:
            self.why = "no stemmer with a byte buffer was found"
            return
        self.b = next(i for i, f in enumerate(self.fs) if f["tystr"] == "std::vec::Vec<u8>")
        us = [i for i, f in enumerate(self.fs) if f["tystr"] == "usize"]
        nm = {f["name"]: i for i, f in enumerate(self.fs)}
        self.k = nm["k"] if nm.get("k") in us else None
        self.j = nm["j"] if nm.get("j") in us else None
        self.fns = {}
        for i, x in enumerate(J["insts"]):
            if not (x and x.get("body") and x["path"].startswith(EN)) or "{closure" in x["path"]: continue
            b = x["body"]
            if not b["argc"]: continue
            t = J["types"][b["locals"][1]]
            if t["k"] == "ref" and self.types(t["to"]) == self.ty: self.fns[x["path"]] = (i, bool(t.get("mut")), b["argc"], J["types"][b["locals"][0]]["s"])
        if self.k is None or self.j is None:
            self.find_kj(us)
        if self.k is None: self.why = "the length of the stem was not found in %s" % self.ty

    def types(self, t):
        t = self.cx.J["types"][t]
        return t.get("path") if t["k"] == "adt" else None

    def find_kj(self, us):
        """k is the one that a new stemmer sets to the length of the buffer"""
        for i, x in enumerate(self.cx.J["insts"]):
            if not (x and x.get("body") and x["path"].startswith(EN) and "PorterStemmer" in x["path"] and x["path"].endswith("::new")): continue
            R = run_fn(self.cx, x["path"], inst=i)
            for s, v in R.res:
                w = v
                if w.op == "adt" and w.a[0] in (RES, OPT): w = w.a[2]
                ks = [u for u in us if fld(w, u).op in ("len", "blen") or fld(w, u) is seqlen(as_seq(fld(w, self.b)))]
                if len(ks) == 1:
                    self.k = ks[0]
                    r = [u for u in us if u != self.k]
                    if len(r) == 1: self.j = r[0]

    def steps(self):
        """the methods that change the stem by themselves; one that only calls others is looked through"""
        own = [p for p, (i, m, n, r) in self.fns.items() if m and n == 1]
        def calls(p): return {f.get("inst", -1) for f, t in calls_of(self.cx.J["insts"][self.fns[p][0]]["body"])} & {self.fns[q][0] for q in own if q != p}
        return [p for p in own if len(calls(p)) < 2]

    def method(self, *names):
        for n in names:
            for p in self.fns:
                if p.split("::")[-1] == n: return p
        return None

    def make(self, b, k, j):
        vs = []
        for i, f in enumerate(self.fs):
            vs.append(b if i == self.b else k if i == self.k else j if i == self.j else sym("field%d" % i, None))
        return adt(self.ty, 0, *vs)


# ---------------------------------------------------------------- words
class Word:
    """k symbolic letters (after an unknown start when general), then bytes past the end of the stem"""

    def __init__(self, m, general, tail=True):
        self.m, self.general = m, general
        self.P, self.T = sym("start", None), sym("rest", None)
        self.bs = [sym("b%d" % i, None) for i in range(m)]
        self.facts = {b: BYTE for b in self.bs}
        parts, self.n = [], I(0)
        if general:
            self.n = mk("len", self.P)
            parts.append(mk("sl", self.P, I(0), self.n))
            self.facts[self.n] = IntSet([(1, POS)])
        parts += [mk("one", b) for b in self.bs]
        self.buf = seq(*parts, mk("sl", self.T, I(0), mk("len", self.T))) if tail else seq(*parts)
        if tail: self.facts[mk("len", self.T)] = IntSet([(0, POS)])
        self.k = add(self.n, I(m))
        self.j = sym("j0", "usize")
        self.facts[self.j] = IntSet([(0, POS)])

    def letter(self, pos):
        """the letter at an offset from the start of the stem, if it is one of the known ones"""
        d = sub(pos, self.n)
        if d.op == "int" and 0 <= d.a[0] < self.m: return self.bs[d.a[0]]
        return None

    def name(self): return ("words of %d or more letters" % (self.m + 1)) if self.general else "words of %d letters" % self.m


def words(lo=1): return [Word(m, False) for m in range(max(lo, 1), W + 1)] + [Word(W, True)]


# ---------------------------------------------------------------- anchored helpers
def helper_terms(S, w_facts, oblige, inline):
    """anchors for the helpers that look at letters: pure functions of a prefix of the buffer"""
    A = {}

    def prefix(it, st, v, n): return slice_(as_seq(fld(v, S.b)), I(0), n)

    def need(it, st, v, n, where, what):
        """n <= len(buffer)"""
        h = seqlen(as_seq(fld(v, S.b)))
        d = simp(sub(h, n), st.facts)
        c, ps = lin_parts(d)
        # n > len is to be impossible: len - n <= -1
        if d.op == "int": bad = d.a[0] < 0
        else: bad = not contradictory(st.facts, [(-c - 1, {t: -x for t, x in ps})])
        if bad: it.panic(st, "bounds", where, what + " past the end of the buffer")

    def mk_anchor(op, has_j, ret):
        def f(it, st, args, fn, where, rty):
            v = it.load(st, args[0])
            n = it.load(st, args[1]) if len(args) > 1 else (fld(v, S.j) if S.j is not None else None)
            if n is None: return None
            n = simp(n, st.facts)
            if not has_j: n = add(n, I(1))
            need(it, st, v, n, where, op)
            t = mk(op, prefix(it, st, v, n))
            return [(st, ret(t, n))]
        return f
    p = S.method("is_consonant")
    if p: A[p] = mk_anchor("consonant", False, lambda t, n: inn(t, ONE))
    if not inline:
        p = S.method("measure")
        if p: A[p] = mk_anchor("measure", True, lambda t, n: t)
        p = S.method("has_vowel")
        if p: A[p] = mk_anchor("vowel", True, lambda t, n: inn(t, ONE))
    return A


def msr_facts(facts):
    """measure of n letters is between 0 and n / 2; facts excluded by that"""
    for k, s in facts.items():
        if k.op == "measure" and s.kind == "I":
            n = seqlen(as_seq(k.a[0]))
            hi = n.a[0] // 2 if n.op == "int" else POS
            if s.inter(IntSet([(0, hi)])).empty(): return None
        if k.op == "vowel" and s.kind == "I":
            n = seqlen(as_seq(k.a[0]))
            if n.op == "int" and n.a[0] == 0 and s.single() == 1: return None
    return facts


def run_step(cx, S, path, w, inline=None):
    i = S.fns[path][0]
    if inline is None: inline = not w.general and w.m <= 4
    A = helper_terms(S, w.facts, None, inline)

    def setup(it):
        it.anchors.update(A)
        it.unroll = 80
    return run_fn(cx, path, inst=i, selfval=S.make(w.buf, w.k, w.j), facts=w.facts, setup=setup, budget=400000)


def alive(facts, it=None):
    f = refined(facts)
    if f is None or contradictory(f, phi_rows(it) if it else ()): return None
    return msr_facts(f)


# ---------------------------------------------------------------- the algorithm
STEP2 = [("ational", "ate"), ("tional", "tion"), ("enci", "ence"), ("anci", "ance"), ("izer", "ize"), ("bli", "ble"), ("alli", "al"), ("entli", "ent"), ("eli", "e"), ("ousli", "ous"),
         ("ization", "ize"), ("ation", "ate"), ("ator", "ate"), ("alism", "al"), ("iveness", "ive"), ("fulness", "ful"), ("ousness", "ous"), ("aliti", "al"), ("iviti", "ive"),
         ("biliti", "ble"), ("logi", "log")]
STEP3 = [("icate", "ic"), ("ative", ""), ("alize", "al"), ("iciti", "ic"), ("ical", "ic"), ("ful", ""), ("ness", "")]
STEP4 = ["al", "ance", "ence", "er", "ic", "able", "ible", "ant", "ement", "ment", "ent", "ion", "ou", "ism", "ate", "iti", "ous", "ive", "ize"]


def longest(xs): return sorted(xs, key=lambda x: -len(x[0] if isinstance(x, tuple) else x))


def spec_1a(o):
    if not o.ends("s"): return
    if o.ends("sses") or o.ends("ies"): o.cut(2)
    elif o.k >= 2 and not o.letter(1, "s"): o.cut(1)


def spec_1b(o):
    if o.ends("eed"):
        if o.measure(3, 0): o.cut(1)
        return
    for x in ("ed", "ing"):
        if not o.ends(x): continue
        if not o.vowel(len(x)): return
        o.cut(len(x))
        if o.ends("at") or o.ends("bl") or o.ends("iz"): o.put(0, "e")
        elif o.double():
            if not o.letter(0, "lsz"): o.cut(1)
        elif o.cvc(0) and o.measure(0, 0) and not o.measure(0, 1): o.put(0, "e")
        return


def spec_1ab(o):
    spec_1a(o)
    spec_1b(o)


def spec_1c(o):
    if o.longer(2) and o.ends("y") and not o.letter(1, "aeiou"): o.put(1, "i")


def table(rows, least):
    def f(o):
        for x, y in longest(rows):
            if o.ends(x):
                if o.measure(len(x), least): o.put(len(x), y)
                return
    return f


def spec_4(o):
    for x in longest(STEP4):
        if o.ends(x):
            if x == "ion" and (not o.longer(3) or not o.letter(3, "st")): continue
            if o.measure(len(x), 1): o.cut(len(x))
            return


def spec_5(o):
    if o.ends("e"):
        # counted with the final e: a vowel adds nothing
        if o.measure(0, 1) or o.measure(0, 0) and not o.cvc(1): o.cut(1)
        elif not o.ends("l"): return
        m = 1 if o.cutby else 0
        if o.ends("l") and o.double() and o.measure_was(m): o.cut(1)
        return
    if o.ends("l") and o.double() and o.measure(0, 1): o.cut(1)


SPEC = {"1ab": spec_1ab, "1a": spec_1a, "1b": spec_1b, "1c": spec_1c, "2": table(STEP2, 0), "3": table(STEP3, 0), "4": spec_4, "5": spec_5}
ORDER = ["1ab", "1c", "2", "3", "4", "5"]
LEAST = {"1ab": 3, "1a": 3}
VOW = frozenset(map(ord, "aeiou"))


class Plain:
    """the algorithm on a known word"""

    def __init__(self, bs): self.b, self.cutby = list(bs), 0

    @property
    def k(self): return len(self.b)
    def ends(self, x): return self.k >= len(x) and bytes(self.b[self.k - len(x):]) == x.encode()
    def letter(self, back, cs): return self.k > back and self.b[self.k - 1 - back] in cs.encode()
    def longer(self, n): return self.k > n
    def cut(self, n):
        self.was = bytes(self.b)
        self.cutby += n
        self.b = self.b[:self.k - n]
    def put(self, n, x): self.b = self.b[:self.k - n] + list(x.encode())
    def measure(self, back, least): return count_vc(self.b[:self.k - back]) > least
    def measure_was(self, n): return count_vc(self.was if n else self.b) > 1
    def vowel(self, back): return any(not cons(self.b, i) for i in range(self.k - back))
    def double(self): return self.k >= 2 and self.b[-1] == self.b[-2] and self.b[-1] < 128 and cons(self.b, self.k - 1)
    def cvc(self, back):
        i = self.k - 1 - back
        return i >= 2 and cons(self.b, i) and not cons(self.b, i - 1) and cons(self.b, i - 2) and self.b[i] not in b"wxy"


def cons(b, i):
    if b[i] in VOW: return False
    return True if b[i] != ord("y") or i == 0 else not cons(b, i - 1)


def count_vc(b):
    cs = [cons(b, i) for i in range(len(b))]
    return sum(1 for i in range(1, len(cs)) if cs[i] and not cs[i - 1])


def plain(word, upto=None):
    """the stem of a word, or what it is before a step"""
    b = word.encode()
    if len(b) <= 2: return b
    o = Plain(b.lower())
    for n in ORDER:
        if n == upto: break
        p = Plain(o.b)
        SPEC[n](p)
        o = p
    return bytes(o.b)


class Dead(Exception): pass


class Sym:
    """the algorithm on a symbolic word: every question is decided by the facts of a path, or splits it"""

    def __init__(self, S, w, it, st, script, inline):
        self.S, self.w, self.it, self.st, self.script, self.inline = S, w, it, st, list(script), inline
        self.pos, self.more, self.b, self.cutby = 0, [], list(w.bs), 0
        self.orig = len(w.bs)

    @property
    def k(self): return len(self.b) + (1 if self.w.general else 0)
    def longer(self, n): return self.k > n

    def ask(self, cond):
        opts = []
        for s, v in self.it.decide(self.st, cond):
            f = alive_c(s.facts)
            if f is not None: opts.append((s, v))
        if not opts: raise Dead()
        n = 0
        if len(opts) > 1:
            if self.pos < len(self.script): n = self.script[self.pos]
            else:
                for i in range(1, len(opts)): self.more.append(self.script[:self.pos] + [i])
                self.script.append(0)
            self.pos += 1
        self.st = opts[n][0]
        return opts[n][1]

    def pick(self, back):
        i = len(self.b) - 1 - back
        if i < 0: raise Unknown("a letter in the unknown start")
        return self.b[i]

    def letter(self, back, cs):
        if not self.w.general and back >= len(self.b): return False
        t = self.pick(back)
        return self.ask(inn(t, IntSet([(ord(c), ord(c)) for c in sorted(cs)])))

    def ends(self, x):
        if not self.w.general and len(self.b) < len(x): return False
        return all(self.letter(i, c) for i, c in enumerate(reversed(x)))

    def cut(self, n):
        self.was = list(self.b)
        self.cutby += n
        self.b = self.b[:len(self.b) - n]
    def put(self, n, x): self.b = self.b[:len(self.b) - n] + [I(c) for c in x.encode()]

    def prefix(self, bs):
        return seq(*(([mk("sl", self.w.P, I(0), self.w.n)] if self.w.general else []) + [mk("one", b) for b in bs]))

    def msr(self, bs, least):
        if self.inline:
            n, prev = 0, None
            for i in range(len(bs)):
                c = self.cons(bs, i)
                if c and prev is False: n += 1
                prev = c
            return n > least
        if not self.w.general and len(bs) < 2: return False
        return self.ask(lt(I(least), mk("measure", strip_vowels(self.prefix(bs), self.st.facts))))

    def measure(self, back, least): return self.msr(self.b[:len(self.b) - back], least)
    def measure_was(self, n): return self.msr(self.was if n else self.b, 1)

    def cons(self, bs, i):
        if i < 0: raise Unknown("a letter in the unknown start")
        return self.ask(inn(mk("consonant", self.prefix(bs[:i + 1])), ONE))

    def vowel(self, back):
        bs = self.b[:len(self.b) - back]
        if self.inline: return any(not self.cons(bs, i) for i in range(len(bs)))
        return self.ask(inn(mk("vowel", self.prefix(bs)), ONE))

    def double(self):
        if self.k < 2: return False
        x, y = self.pick(0), self.pick(1)
        return self.ask(inn(sub(x, y), ZERO)) and self.ask(inn(x, IntSet([(0, 127)]))) and self.cons(self.b, len(self.b) - 1)

    def cvc(self, back):
        i = len(self.b) - 1 - back
        if not self.w.general and i < 2: return False
        return self.cons(self.b, i) and not self.cons(self.b, i - 1) and self.cons(self.b, i - 2) and not self.letter(back, "wxy")


class Unknown(Exception): pass


def strip_vowels(q, facts):
    """the measure does not change when a vowel is taken off the end"""
    q = as_seq(q)
    while q.a[0] and q.a[0][-1].op == "one":
        s = values(q.a[0][-1].a[0], facts)
        if not subset(s, VOW): break
        q = seq(*q.a[0][:-1])
    return q


def values(t, facts):
    """the values a letter can have"""
    s = bound(t, facts)
    if s.single() is None and t.op != "int":
        for k, q in facts.items():
            # a letter that equals another one
            if q.kind == "I" and q.single() == 0:
                c, ps = lin_parts(k)
                ts = dict(ps)
                if c == 0 and len(ts) == 2 and t in ts and sorted(ts.values()) == [-1, 1]: s = s.inter(bound(next(x for x in ts if x is not t), facts))
    return s


def letter_of(t, facts):
    t = norm_under(t, facts)
    c = values(t, facts).single() if t.op != "int" else None
    return t if c is None else I(c)


def subset(s, cs):
    return bool(s.r) and s.lo() >= 0 and s.hi() < 256 and all(c in cs for lo, hi in s.r for c in range(lo, hi + 1))


def cons_known(q, f):
    """(are all letters known ones, what is known of each known letter being a consonant)"""
    ps = q.a[0]
    whole = bool(ps) and all(p.op == "one" for p in ps) or not ps
    out, prev = [], None
    for i, p in enumerate(ps):
        if p.op != "one":
            out, prev = [], None
            continue
        x = values(p.a[0], f)
        c = None
        if subset(x, VOW): c = 0
        elif not any(v in x for v in VOW):
            if ord("y") not in x or i == 0: c = 1
            elif x.single() == ord("y") and prev is not None: c = 1 - prev
        fs = f.get(mk("consonant", seq(*ps[:i + 1])))
        if c is None and fs is not None and fs.kind == "I": c = 1 if 0 not in fs else 0 if 1 not in fs else None
        out.append(c)
        prev = c
    return whole, out


def vc_range(whole, cs):
    """the smallest and largest number of consonants that follow a vowel"""
    best = {}
    for last in ((None,) if whole else (0, 1)): best[last] = (0, 0)
    for c in cs:
        nxt = {}
        for v in ((0, 1) if c is None else (c,)):
            for last, (lo, hi) in best.items():
                d = 1 if v == 1 and last == 0 else 0
                o = nxt.get(v)
                nxt[v] = (lo + d, hi + d) if o is None else (min(o[0], lo + d), max(o[1], hi + d))
        best = nxt
    return min(lo for lo, _ in best.values()), max(hi for _, hi in best.values()) if whole else POS


def letters_in(cs): return IntSet(sorted((c, c) for c in cs))


ALL = set(range(256))
NOT_Y = IntSet([(0, ord("y") - 1), (ord("y") + 1, 255)])
MAYBE = {(0, True): letters_in(VOW), (1, True): letters_in(ALL - VOW), (0, False): letters_in(VOW | {ord("y")}), (1, False): letters_in(ALL - VOW)}


def alive_c(facts):
    """alive, given what a consonant, a vowel and the measure are"""
    f = alive(facts)
    if f is None: return None
    f = dict(f)
    for _ in range(2):
        for k, s in list(f.items()):
            if k.op != "consonant" or s.kind != "I": continue
            q = as_seq(k.a[0])
            if not q.a[0] or q.a[0][-1].op != "one": continue
            t, v = q.a[0][-1].a[0], s.single()
            if v is None: v = 1 if 0 not in s else 0 if 1 not in s else None
            if v is None: continue
            first = len(q.a[0]) == 1
            may = MAYBE[v, first]
            x = values(t, f).inter(may)
            prev = f.get(mk("consonant", seq(*q.a[0][:-1]))) if not first else None
            if prev is not None and prev.kind == "I":
                pv = 1 if 0 not in prev else 0 if 1 not in prev else None
                if pv == v: x = x.inter(NOT_Y)
            if x.empty(): return None
            if t.op == "sym": f[t] = x
    for k, s in f.items():
        if k.op == "sym" and s.kind == "I" and values(k, f).empty(): return None
    out = {}
    for k, s in f.items():
        if k.op == "measure" and s.kind == "I": k = mk("measure", strip_vowels(k.a[0], f))
        if k.op in ("measure", "vowel") and s.kind == "I":
            whole, cs = cons_known(as_seq(k.a[0]), f)
            if k.op == "vowel":
                if s.single() == 1 and whole and all(c == 1 for c in cs): return None
                if s.single() == 0 and 0 in cs: return None
            else:
                lo, hi = vc_range(whole, cs)
                if s.inter(IntSet([(lo, hi)])).empty(): return None
        if k in out and out[k].kind == s.kind: s = s.inter(out[k])
        if s.empty(): return None
        out[k] = s
    return out


def spec_paths(S, w, it, st, step, inline):
    """[(state, letters after the step)]: the algorithm's own paths under the facts of a state"""
    out, todo, n = [], [[]], 0
    while todo:
        script = todo.pop()
        n += 1
        if n > 400: raise Unknown("too many cases")
        o = Sym(S, w, it, st, script, inline)
        try: SPEC[step](o)
        except Dead: continue
        finally: todo.extend(o.more)
        out.append((o.st, o.b))
    return out


def compare_step(cx, S, path, step, lo):
    """(paths compared, mismatches, gap): the step against the algorithm on every word of at least lo bytes"""
    n, bad, gap = 0, [], ""
    for w in words(lo):
        inline = not w.general and w.m <= 4
        R = run_step(cx, S, path, w, inline)
        if R is None: return 0, [], "not found"
        gap = gap or gaps(R)
        for s, v in R.res:
            f = alive_c(s.facts)
            if f is None: continue
            s = s.copy()
            s.facts = f
            b, k, j = ends_of(R, S, s)
            try: rs = spec_paths(S, w, R.it, s, step, inline)
            except Unknown as e:
                gap = gap or str(e)
                continue
            for s2, want in rs:
                n += 1
                d = simp(sub(k, w.n), s2.facts)
                if d.op != "int":
                    gap = gap or "the length after the step is %s" % show(k, 4)
                    continue
                got = [letter_of(elem(b, add(w.n, I(i))), s2.facts) for i in range(max(d.a[0], 0))]
                exp = [letter_of(x, s2.facts) for x in want]
                if w.general and slice_(b, I(0), w.n) is not slice_(w.buf, I(0), w.n): got = None
                if got == exp: continue
                if got is not None and len(got) == len(exp) and all(x is y or x.op not in ("int", "sym") or y.op not in ("int", "sym") for x, y in zip(got, exp)):
                    gap = gap or "the letters after the step are %s" % show(b, 4)
                    continue
                bad.append((w, s2.facts, got, exp))
    return n, bad, gap


def text_bs(bs): return "".join(chr(b.a[0]) if b.op == "int" and 32 <= b.a[0] < 127 else "?" for b in bs)


STEPNAME = {"step1ab": "1ab", "step1a": "1a", "step1b": "1b", "step1c": "1c", "step2": "2", "step3": "3", "step4": "4", "step5": "5"}


def chain(cx, S):
    """how the steps are run: ([(path, steps in order)], gap)"""
    entry = find_entry(cx, S)
    if entry is None: return None, [], "no function that runs the steps was found"
    names = {}

    def anchor_for(path, ret):
        n = STEPNAME.get(path.split("::")[-1]) or path.split("::")[-1]
        def f(it, st, args, fn, where, rty):
            v = it.load(st, args[0])
            b = fld(v, S.b)
            c = names[b][1] if b in names and fld(v, S.k) is names[b][0] else None
            if c is None:
                if not (fld(v, S.k) is seqlen(as_seq(b)) and text_bytes(b)): c = ["?"]
                else: c = []
            nb, nk = mk("call", "step", n, b), sym("k%d" % len(names), "usize")
            names[nb] = (nk, c + [n])
            st = st.copy()
            st.facts[nk] = IntSet([(1, POS)])
            st.facts[sub(seqlen(as_seq(nb)), nk)] = IntSet([(0, POS)])
            it.store(st, args[0], S.make(nb, nk, sym("j%d" % len(names), "usize")))
            return [(st, UNIT if ret == "()" else sym("r%d" % len(names), None))]
        return f

    def utf(it, st, args, fn, where, rty):
        v = it.load(st, args[0])
        x = as_seq(v)
        for b, (k, c) in names.items():
            if x is slice_(as_seq(b), I(0), k) or x is as_seq(b) and bound(simp(sub(seqlen(x), k), st.facts), eq_close(st.facts)).single() == 0: return [(st, adt(RES, 0, mk("call", "stem", mk("str", ",".join(c)))))]
        return [(st, adt(RES, 0, mk("call", "stem?", v)))]

    def setup(it):
        for p in S.steps(): it.anchors[p] = anchor_for(p, S.fns[p][3])
        for n in ("std::string::String::from_utf8", "std::str::from_utf8"): it.anchors[n] = utf
    R = run_fn(cx, cx.J["insts"][entry]["path"], inst=entry, setup=setup)
    out = []
    for s, v in R.res:
        for g, l in paths(v):
            s2 = s.restrict(g)
            if s2 is None or alive(s2.facts) is None: continue
            out.append((s2.facts, l))
    return entry, out, gaps(R)


def steps_of(l):
    """the steps a result went through; None when that is not known"""
    if l.op == "adt" and l.a[0] == OPT and l.a[1] == 1: l = l.a[2]
    if l.op == "call" and l.a[0] == "stem" and "?" not in l.a[1].a[0].split(","): return l.a[1].a[0].split(",")
    if l.op == "sym": return []
    return None


def show_set(s): return ", ".join(str(a) if a == b else "%s to %s" % (a if a != NEG else "any", b if b != POS else "any") for a, b in s.r)


def unfold(ns):
    """1a,1b -> 1ab"""
    out = []
    for n in ns:
        if n == "1b" and out and out[-1] == "1a": out[-1] = "1ab"
        else: out.append(n)
    return out


def algorithm(cx, mine, what):
    """the steps in mine against the algorithm, and their place in the order"""
    S = Stem(cx)
    if S.why: return cx.undecided(S.why)
    _cand.clear()
    entry, res, gap = chain(cx, S)
    if entry is None: return cx.undecided(gap)
    P = cx.J["insts"][entry]["path"]
    open_ = False
    if gap: cx.undecided("%s: %s" % (P, gap)); open_ = True
    seen = 0
    for f, l in res:
        ns = steps_of(l)
        if "5" in mine and ns is not None:
            z = bound(mk("blen", sym("arg%d" % (cx.J["insts"][entry]["body"]["argc"] - 1), None)), eq_close(f))
            fit = z.hi() <= 2 if ns == [] else z.lo() >= 3
            w = None if fit else sweep(cx, S, entry, mine)
            cx.check(True if fit else False if w else None, "short", P, "words of %s bytes are %s%s" % (show_set(z), "not stemmed" if ns == [] else "stemmed", "; " + w if w else ""), "only words of at most two bytes are left alone")
            if not fit and not w: open_ = True
        if ns == []: continue
        seen += 1
        if ns is None or set(ns) - set(STEPNAME.values()):
            cx.undecided("%s: the steps could not be followed: %s" % (P, show(l, 5)))
            open_ = True
            continue
        ns = unfold(ns)
        if mine == ORDER: own = ns
        want = [n for n in ORDER if n in mine] if "2" in mine else ORDER
        have = [n for n in ns if n in mine] if "2" in mine else ns
        if have == want: cx.check(True, "order", P, "", "the steps run once each, in order")
        else:
            w = order_word(cx, entry, ns) or sweep(cx, S, entry, mine)
            cx.check(False if w else None, "order", P, "the steps are run as %s instead of %s%s" % (" ".join(have), " ".join(want), "; " + w if w else ""), "the steps run once each, in order")
    if not seen and not open_:
        cx.undecided("%s: no path runs the steps" % P)
        open_ = True
    for nm in ("is_consonant", "measure", "has_vowel"):
        if nm == "has_vowel" and "2" in mine: continue
        if nm == "is_consonant" or True: open_ = not helper_spec(cx, S, nm, entry, mine) or open_
    for p in sorted(S.fns):
        n = STEPNAME.get(p.split("::")[-1])
        if n is None or not (n in mine or n in ("1a", "1b") and "1ab" in mine) or p not in S.steps(): continue
        k, bad, gap = compare_step(cx, S, p, n, LEAST.get(n, 1))
        if gap:
            cx.undecided("%s: %s" % (p, gap))
            open_ = True
        if not bad: cx.check(True if not gap else None, "step:" + n, p, "", "%d cases of step %s" % (k, n))
        found = None
        left = [40000]
        for w, f, got, exp in sorted(bad, key=lambda x: not x[0].general)[:60]:
            found = confirm(cx, S, w, f, n, entry, got, exp, left)
            if found: break
        if bad:
            if not found: w, f, got, exp = bad[0]
            cx.check(False if found else None, "step:" + n, p, "%s, on %s ending in %s, leaves %s where the algorithm leaves %s, when %s%s" % (
                p.split("::")[-1], w.name(), text_bs([letter_of(x, f) for x in w.bs]), text_bs(got) if got is not None else "another start", text_bs(exp),
                show_facts({k2: v for k2, v in f.items() if v != BYTE}, 6), "; " + found if found else ""), "rewritten as the algorithm does")
            if not found: open_ = True
    if open_:
        w = sweep(cx, S, entry, mine)
        cx.check(False if w else True, "words", P, "%s: %s" % (what, w), "representative words, constants propagated (refutation only)")


def helper_spec(cx, S, nm, entry, mine):
    """is_consonant, measure and has_vowel against their definitions, on short prefixes; False when open"""
    p = S.method(nm)
    if p is None:
        cx.undecided("no function %s" % nm)
        return False
    i = S.fns[p][0]
    n, bad, gap = 0, [], ""
    for m in range(0, 7 if nm != "is_consonant" else 6):
        w = Word(m, False)
        if nm == "is_consonant":
            if m == 0: continue
            args, A = {0: S.make(w.buf, w.k, w.j), 1: I(m - 1)}, {}
        else:
            A = {q: f for q, f in helper_terms(S, w.facts, None, True).items() if q != p}
            args = {0: S.make(w.buf, add(w.k, I(2)), I(m)), 1: I(m)}

        def setup(it):
            it.anchors.update(A)
            it.unroll = 120
        R = run_fn(cx, p, inst=i, args=args, facts=w.facts, setup=setup, budget=400000)
        gap = gap or gaps(R)
        for s, v in R.res:
            f = (alive if nm == "is_consonant" else alive_c)(s.facts)
            if f is None: continue
            s = s.copy()
            s.facts = f
            todo = [[]]
            while todo:
                o = Sym(S, w, R.it, s, todo.pop(), True)
                try:
                    if nm == "is_consonant": want = cons_sym(o, m - 1)
                    elif nm == "has_vowel": want = o.vowel(0)
                    else:
                        want, prev = 0, None
                        for q in range(m):
                            c = o.cons(o.b, q)
                            if c and prev is False: want += 1
                            prev = c
                except Dead: continue
                finally: todo.extend(o.more)
                n += 1
                got = simp(v, o.st.facts)
                exp = (TRUE if want else FALSE) if isinstance(want, bool) else I(want)
                if got is exp: continue
                if got.op not in ("int", "bool"): gap = gap or "the result is %s" % show(got, 4)
                else: bad.append((w, o.st.facts, got, exp))
    if gap: cx.undecided("%s: %s" % (p, gap))
    if not bad:
        cx.check(True if not gap else None, nm, p, "", "%d cases of %s" % (n, nm))
        return not gap
    w, f, got, exp = bad[0]
    x = None
    for st, combo in states(w, f):
        for tail in ("ed", "ing", "ement", "ness", "able", "eed", "ll", "e"):
            try: x = differs(cx, entry, (bytes(combo) + tail.encode()).decode("utf-8"))
            except UnicodeDecodeError: pass
            if x or len(_cand) > 150: break
        if x or len(_cand) > 150: break
    x = x or sweep(cx, S, entry, mine) or sweep(cx, S, entry, ORDER)
    cx.check(False if x else None, nm, p, "%s gives %s instead of %s for the first %d letters when %s%s" % (nm, show(got), show(exp), w.m, show_facts({k: v for k, v in f.items() if v != BYTE}, 8), "; " + x if x else ""), "as defined")
    return bool(x)


def cons_sym(o, i):
    t = o.b[i]
    if o.ask(inn(t, IntSet([(c, c) for c in sorted(VOW)]))): return False
    if not o.ask(inn(t, ival(ord("y")))): return True
    return True if i == 0 else not cons_sym(o, i - 1)


def ival(n): return IntSet([(n, n)])


# ---------------------------------------------------------------- words that show a difference
_cand = {}


def const_stem(cx, entry, t):
    """what constants propagated through the stemmer give for a word: bytes, "panic" or None"""
    key = (id(cx.J), t)
    if key not in _cand:
        b = cx.J["insts"][entry]["body"]
        R = run_fn(cx, cx.J["insts"][entry]["path"], inst=entry, args={b["argc"] - 1: S_(t)}, unroll=400, budget=60000, setup=const_utf8)
        r = None
        if not R.err and not R.unknown:
            if R.panics and not R.res: r = "panic"
            elif len(R.res) == 1 and not R.panics:
                v = R.res[0][1]
                if v.op == "adt" and v.a[0] == OPT and v.a[1] == 1 and v.a[2].op == "str": r = v.a[2].a[0]
        _cand[key] = r
    return _cand[key]


def differs(cx, entry, t):
    g = const_stem(cx, entry, t)
    if g is None: return None
    e = plain(t).decode("utf-8", "replace")
    return None if g == e else "%r becomes %s, the algorithm gives %r" % (t, repr(g) if g != "panic" else "a panic", e)


def confirm(cx, S, w, f, step, entry, got, exp, left):
    """a word that reaches the step in a state that meets the facts, and whose stem differs"""
    tried, end = 0, left[0]
    before = "1ab" if step in ("1a", "1b") else step
    forced = [{}]
    for x in (y for y in (got, exp) if y):
        for suf in [a for a, _ in STEP2] + [a for a, _ in STEP3] + STEP4:
            m = ends_as(x, suf, w, f)
            if m and m not in forced: forced.append(m)
    for start, combo in (z for m in forced for z in states(w, f, m, 4000 if not m else 20)):
        left[0] -= 1
        if left[0] < 0: return None
        env = dict(zip(w.bs, combo))
        u = start + bytes(combo)
        g = None if got is None else conc(start, got, env)
        if g is not None:
            e = conc(start, exp, env)
            if e is None or plain_from(g, before) == plain_from(e, before): continue
        for t in (u, u + b"s", u + b"ed", u + b"ing"):
            try: x = t.decode("utf-8")
            except UnicodeDecodeError: continue
            if len(t) < 3 or plain(x, before) != u: continue
            tried += 1
            d = differs(cx, entry, x)
            if d: return d
            if tried > 8: return None
    return None


def conc(start, bs, env):
    out = start
    for b in bs:
        v = b.a[0] if b.op == "int" else env.get(b)
        if v is None: return None
        out += bytes([v])
    return out


def plain_from(b, step):
    """the steps that come after a step"""
    for n in ORDER[ORDER.index(step) + 1:]:
        if not b: return b
        p = Plain(b)
        SPEC[n](p)
        b = bytes(p.b)
    return b


def ends_as(bs, suf, w, f):
    """letters for which bs ends in suf"""
    if len(bs) < len(suf): return None
    m = {}
    for x, c in zip(reversed(bs), reversed(suf.encode())):
        if x.op == "int":
            if x.a[0] != c: return None
        elif x in w.facts:
            if m.setdefault(x, c) != c or c not in values(x, f): return None
        else: return None
    return m


def states(w, f, forced={}, most=4000):
    """stems that meet the facts: (start, letters)"""
    import itertools, random
    opts = []
    for b in w.bs:
        s = values(b, f)
        c = forced.get(b, s.single())
        opts.append([c] if c is not None else [x for x in b"abitleyszuonwrx" if x in s] or ([s.lo()] if s.r else []))
    size = 1
    for o in opts: size *= len(o)
    if size <= most: combos = itertools.product(*opts)
    else:
        rnd = random.Random(1)
        combos = (tuple(rnd.choice(o) for o in opts) for _ in range(most))
    for combo in combos:
        for st in (STARTS if w.general else [""]):
            st = st.encode()
            if w.general and not st: continue
            if meets(w, f, st, combo): yield st, combo


def meets(w, f, start, combo):
    env = dict(zip(w.bs, combo))

    def val(q):
        out = b""
        for p in as_seq(q).a[0]:
            if p.op == "one":
                x = p.a[0]
                if x.op == "int": out += bytes([x.a[0]])
                elif x in env: out += bytes([env[x]])
                else: return None
            elif p.op == "sl" and p.a[0] is w.P and p.a[1] is I(0) and p.a[2] is w.n: out += start
            else: return None
        return out
    for k, s in f.items():
        if s.kind != "I": continue
        if k in env: v = env[k]
        elif k is w.n: v = len(start)
        elif k.op == "lin":
            c, ps = lin_parts(k)
            if not all(t in env or t is w.n for t, _ in ps): continue
            v = c + sum((env[t] if t in env else len(start)) * x for t, x in ps)
        elif k.op in ("measure", "consonant", "vowel"):
            b = val(k.a[0])
            if b is None or (k.op == "consonant" and not b): continue
            v = count_vc(b) if k.op == "measure" else int(cons(b, len(b) - 1)) if k.op == "consonant" else int(any(not cons(b, i) for i in range(len(b))))
        else: continue
        if v not in s: return False
    return True


STEMS = ["", "b", "ab", "bab", "abab", "babab", "byb", "ybab"]
ONE_FIVE = ["caresses", "ponies", "ties", "caress", "cats", "feed", "agreed", "plastered", "bled", "motoring", "sing", "conflated", "troubled", "sized", "hopping", "tanned", "falling", "hissing", "fizzed",
            "failing", "filing", "happy", "sky", "say", "leeshyy", "probate", "rate", "cease", "controll", "roll", "babe", "abble", "gas", "this", "kiwis", "gaps", "snowed", "boxed", "trayed", "eyed", "ayed", "yed", "bys", "tying",
            "fuelled", "hoped", "wiing", "byed", "babyy", "bell", "controlle", "eel", "yell", "ye", "eye", "ooze", "see",
            "as", "be", "ed", "by", "us", "ss", "AB", "aed", "ies", "lll"]


def order_word(cx, entry, ns):
    """a word for which these steps, in this order, give another stem"""
    if set(ns) - set(SPEC): return None
    n = 0
    for st in STEMS[1:] + ["s", "ey", "ay"]:
        for x in ["", "y"] + [a for a, _ in STEP2] + [a for a, _ in STEP3] + STEP4:
            for tail in ("", "s", "ed", "ing", "y", "e", "ly", "ll", "ys", "yed"):
                t = st + x + tail
                if len(t) < 3: continue
                b = t.encode()
                for step in ns:
                    p = Plain(b)
                    SPEC[step](p)
                    b = bytes(p.b)
                    if not b: break
                if b and b != plain(t):
                    d = differs(cx, entry, t)
                    if d: return d
                    n += 1
                    if n > 5: return None
    return None


def sweep(cx, S, entry, mine):
    """the first representative word whose stem differs"""
    ws = []
    if "2" in mine:
        for x in [a for a, _ in STEP2] + [a for a, _ in STEP3] + STEP4:
            for st in STEMS[1:6] if x in STEP4 else STEMS[:5]: ws.append(st + ("t" if x == "ion" else "") + x)
        ws += ["babion", "ababzion", "ababsion", "ababxion", "bybational", "ybness", "abybness", "abaybment"]
    if "5" in mine: ws += ONE_FIVE
    for t in ws:
        d = differs(cx, entry, t)
        if d: return d
    return None


def C22(cx):
    cx.rule = ("every path of steps 2, 3 and 4, on words whose last %d letters are symbolic, leaves what the published table of suffixes leaves under the same facts about letters and measure; "
               "measure and is_consonant agree with their definitions on short prefixes; the steps run once each in order" % W)
    algorithm(cx, ["2", "3", "4"], "suffix rules")


def C34(cx):
    cx.rule = ("every path of steps 1 and 5, on words whose last %d letters are symbolic, leaves what the algorithm leaves under the same facts about letters, consonants, vowels and measure; "
               "the helpers agree with their definitions on short prefixes; all steps run once each in order" % W)
    algorithm(cx, ["1ab", "1c", "5"], "plurals, past tenses, y and final e")


# ---------------------------------------------------------------- C21
def ends_of(R, S, s):
    v = R.final(s)
    return as_seq(fld(v, S.b)), fld(v, S.k), fld(v, S.j) if S.j is not None else I(0)


def check_step(cx, S, path, lo):
    """the step on every stem of at least lo bytes: (smallest length afterwards, problems)"""
    least, probs, gap = None, [], ""
    for w in words(lo):
        R = run_step(cx, S, path, w)
        if R is None: return None, [], "not found"
        if gaps(R): gap = gaps(R)
        for p in R.panics:
            if alive(p["facts"]) is not None: probs.append((w, "panic", p["facts"], p["where"], "%s%s" % (p["kind"], (": " + detail(p)) if p["detail"] else "")))
        for s, v in R.res:
            if alive(s.facts) is None: continue
            b, k, j = ends_of(R, S, s)
            f = s.facts
            d = simp(sub(k, w.n), f)
            if d.op != "int" or k.op == "dd":
                gap = gap or "the length after the step is %s" % show(k, 4)
                continue
            d = d.a[0]
            # 1 <= k <= len(buffer)
            if not w.general and d < 1: probs.append((w, "empty", f, path, "leaves an empty stem"))
            if w.general and d < 0: probs.append((w, "empty", f, path, "may leave an empty stem"))
            if not at_most(k, seqlen(b), f): probs.append((w, "length", f, path, "leaves a stem longer than the buffer"))
            if S.j is not None and not at_most(j, seqlen(b), f) and j is not w.j: probs.append((w, "j", f, path, "leaves the start of the suffix past the end of the buffer"))
            e = utf8(w, b, k, f)
            if e: probs.append((w, "utf8", f, path, e))
            low = d if not w.general else 1 + d
            least = low if least is None else min(least, low)
    return least, probs, gap


def at_most(x, h, f):
    d = simp(sub(h, x), f)
    c, ps = lin_parts(d)
    if d.op == "int": return d.a[0] >= 0
    return contradictory(f, [(-c - 1, {t: -y for t, y in ps})])


def utf8(w, b, k, f):
    """is b[..k] valid UTF-8 when the word was; why not"""
    d = sub(k, w.n)
    d = d.a[0]
    # the unknown start must be untouched
    if w.general and slice_(b, I(0), w.n) is not slice_(w.buf, I(0), w.n): return "changes the start of a long word (%s)" % show(b, 4)
    p = None                                    # first changed letter
    for i in range(min(d, w.m)):
        e = norm_under(elem(b, add(w.n, I(i))), f)
        if e is w.bs[i] or decided(w.bs[i], f) is not None and e.op == "int" and e.a[0] == decided(w.bs[i], f):
            if p is not None:
                if not ascii_(w.bs[i], f): return "keeps letter %d after changed ones" % (i + 1)
            continue
        if e.op != "int" or e.a[0] > 127: return "puts %s into the stem" % show(e, 3)
        if p is None: p = i
        if not ascii_(w.bs[i], f): return "overwrites byte %s, which may be part of a longer character" % back(w, i)
    if d > w.m:
        for i in range(w.m, d):
            e = norm_under(elem(b, add(w.n, I(i))), f)
            if e.op != "int" or e.a[0] > 127: return "brings back a byte past the end of the stem"
    if d < w.m and not boundary(w.bs[d], f): return "cuts the stem before byte %s, which may be in the middle of a character" % back(w, d)
    return ""


def back(w, i): return "%d from the end" % (w.m - i)


def ascii_(t, f):
    s = bound(t, f)
    return s.lo() >= 0 and s.hi() <= 127


def boundary(t, f):
    s = bound(t, f)
    return s.inter(IntSet([(128, 191)])).empty()


def C21(cx):
    cx.rule = ("each step of the stemmer, on every word with its last %d bytes symbolic and the rest unknown: no arithmetic or index can go out of range, the stem keeps "
               "at least one byte and never outgrows the buffer, and a cut or an overwritten byte is ASCII on that path; the sequence of steps starts with the length that the guard gives" % W)
    S = Stem(cx)
    if S.why: return cx.undecided(S.why)
    # the helpers look only at the prefix that they are given
    for nm in ("is_consonant", "measure", "has_vowel"):
        p = S.method(nm)
        if p: helper_ok(cx, S, p, nm)
    memo = {}
    calls = []

    def lower(st, v):
        k = fld(v, S.k)
        s = bound(simp(k, st.facts), eq_close(st.facts))
        return s.lo()

    def anchor_for(path, ret):
        def f(it, st, args, fn, where, rty):
            v = it.load(st, args[0])
            lo = lower(st, v)
            ok_state = at_most(fld(v, S.k), seqlen(as_seq(fld(v, S.b))), st.facts) and valid(v, st)
            key = (path, max(lo, 0))
            if key not in memo: memo[key] = check_step(cx, S, path, max(lo, 1)) if lo >= 1 else (None, [], "the stem may be empty")
            calls.append((path, lo, ok_state))
            least, probs, gap = memo[key]
            b, k, j = sym("buf%d" % len(calls), None), sym("k%d" % len(calls), "usize"), sym("j%d" % len(calls), "usize")
            good.add((b, k))
            st = st.copy()
            h = seqlen(as_seq(b))
            st.facts[k] = IntSet([(max(least or 1, 1), POS)])
            st.facts[sub(h, k)] = IntSet([(0, POS)])
            if S.j is not None:
                st.facts[sub(h, j)] = IntSet([(0, POS)])
            it.store(st, args[0], S.make(b, k, j))
            return [(st, UNIT if ret == "()" else sym("r%d" % len(calls), None))]
        return f
    good = set()

    def valid(v, st):
        b, k = fld(v, S.b), fld(v, S.k)
        if (b, k) in good: return True
        return k is seqlen(as_seq(b)) and text_bytes(b)

    def utf(it, st, args, fn, where, rty):
        v = it.load(st, args[0])
        x = as_seq(v)
        for b, k in good:
            if x is slice_(as_seq(b), I(0), k): return [(st, adt(RES, 0, mk("call", "stem", v)))]
            if x is as_seq(b) and (bound(simp(sub(seqlen(x), k), st.facts), eq_close(st.facts)).single() == 0 or st.facts.get(lt(k, seqlen(x)))): return [(st, adt(RES, 0, mk("call", "stem", v)))]
        if text_bytes(v): return [(st, adt(RES, 0, mk("call", "stem", v)))]
        t = mk("call", "from_utf8", v)
        return [(st, t)]

    entry = find_entry(cx, S)
    if entry is None: return cx.undecided("no function that runs the steps was found")

    def setup(it):
        for p in S.steps(): it.anchors[p] = anchor_for(p, S.fns[p][3])
        for n in ("std::string::String::from_utf8", "std::str::from_utf8"): it.anchors[n] = utf
    R = run_fn(cx, cx.J["insts"][entry]["path"], inst=entry, setup=setup)
    g = gaps(R)
    P = R.path
    if g: cx.undecided("%s: %s" % (P, g))
    if not calls: cx.undecided("%s calls no step of the stemmer" % P)
    reported = False
    for path, lo, okst in calls:
        w = None if okst else witness(cx, S, None, None, entry)
        cx.check(True if okst else False if w else None, "start:" + path.split("::")[-1], P, "%s is called on a stem that is not known to be valid%s" % (path.split("::")[-1], "; %s is not stemmed to text" % w if w else ""), "steps called on valid stems")
    for (path, lo), (least, probs, gap) in memo.items():
        n = path.split("::")[-1]
        if gap: cx.undecided("%s: %s" % (path, gap))
        if not probs: cx.check(True if not gap else None, n, path, gap, "stems of at least %d bytes" % lo)
        for w, kind, f, where, text in probs[:6]:
            ws = witness(cx, S, w, f, entry)
            cx.check(False if ws else None, n + ":" + kind, where if "/src/" in str(where) and "rustlib" not in str(where) else path,
                     "%s, on %s, %s when %s%s" % (n, w.name(), text, show_facts({k: v for k, v in f.items() if v != BYTE}, 8), "; so does %s" % ws if ws else ""), "no panic, valid text")
    for p in R.panics:
        if alive(p["facts"]) is None: continue
        w = witness(cx, S, None, p["facts"], entry)
        cx.check(False if w else None, "get:panic", p["where"] if "rustlib" not in p["where"] else P, "%s can panic (%s) when %s%s" % (P.split("::")[-1], p["kind"], show_facts(p["facts"], 6), "; so does %s" % w if w else ""), "no panic")
    if R.res and not R.panics: cx.check(True, "get:panic", P, "", "no panic")


def text_bytes(v):
    """the bytes of some text"""
    v = as_seq(v)
    if len(v.a[0]) == 1 and v.a[0][0].op == "sl":
        q = v.a[0][0]
        return q.a[0].op == "bytes" and q.a[1] is I(0) and q.a[2] is baselen(q.a[0])
    return False


def find_entry(cx, S):
    """the function that makes a stemmer from a word and runs the steps"""
    for i, x in enumerate(cx.J["insts"]):
        if x and x.get("body") and re.match(r"<elasticlunr::lang::en::\w+ as elasticlunr::pipeline::PipelineFn>::filter$", x["path"]): return i
    return None


def helper_ok(cx, S, p, nm):
    """the helper never looks past its prefix"""
    w = sym("buf", None)
    k, j, i = sym("k", "usize"), sym("j", "usize"), sym("i", "usize")
    h = seqlen(as_seq(w))
    A = helper_terms(S, {}, None, nm != "is_consonant") if nm != "is_consonant" else {}
    if nm != "is_consonant": A = {q: f for q, f in A.items() if q != p}

    def setup(it): it.anchors.update(A)
    facts = {j: IntSet([(0, POS)]), i: IntSet([(0, POS)])}
    n = S.fns[p][2]
    if nm == "is_consonant": facts[sub(h, i)] = IntSet([(1, POS)])
    elif n == 1 and S.j is not None: facts[sub(h, j)] = IntSet([(0, POS)])
    elif n == 2: facts[sub(h, i)] = IntSet([(0, POS)])
    R = run_fn(cx, p, inst=S.fns[p][0], args={0: S.make(w, k, j), 1: i}, facts=facts, setup=setup)
    g = gaps(R)
    left = [q for q in R.panics if alive(q["facts"], R.it) is not None]
    cx.check(None if g or left else True, "helper:" + nm, p, g or "%s can panic: %s when %s" % (nm, left[0]["kind"], show_facts(left[0]["facts"])) if g or left else "", "helper stays inside its prefix")


# ---------------------------------------------------------------- witnesses
def witness(cx, S, w, f, entry, limit=40):
    """a word on which the constants propagated through the whole stemmer panic or leave invalid text"""
    for t in SWEEP:
        if bad_word(cx, entry, t): return repr(t)
    seen = 0
    for t in candidates(w, f) if w is not None else ():
        seen += 1
        if seen > limit or len(_bad) > 250: return None
        if bad_word(cx, entry, t): return repr(t)
    return None


def bad_word(cx, entry, t):
    b = cx.J["insts"][entry]["body"]
    key = (id(cx.J), t)
    if key not in _bad:
        R = run_fn(cx, cx.J["insts"][entry]["path"], inst=entry, args={b["argc"] - 1: S_(t)}, unroll=400, budget=60000, setup=const_utf8)
        _bad[key] = not R.err and not R.unknown and ((bool(R.panics) and not R.res) or len(t.encode()) > 2 and len(R.res) == 1 and not R.panics and is_empty(R.res[0][1]))
    return _bad[key]


_bad = {}


def S_(t): return mk("str", t)


def is_empty(v):
    if v.op == "adt" and v.a[0] == OPT and v.a[1] == 1: v = v.a[2]
    return v.op == "str" and v.a[0] == ""


def const_utf8(it):
    def utf(it, st, args, fn, where, rty):
        v = as_seq(it.load(st, args[0]))
        bs = []
        for q in v.a[0]:
            if q.op == "one" and q.a[0].op == "int": bs.append(q.a[0].a[0])
            else: return [(st, mk("call", "from_utf8", v))]
        try: return [(st, adt(RES, 0, S_(bytes(bs).decode("utf-8"))))]
        except (UnicodeDecodeError, ValueError): return [(st, adt(RES, 1, mk("call", "utf8 error")))]
    for n in ("std::string::String::from_utf8", "std::str::from_utf8"): it.anchors[n] = utf


STARTS = ["", "a", "b", "ab", "ba", "bab", "abab", "babab", "\u00e9", "\u0924", "b\u0924", "ab\u0924", "a\u00e9", "\U00010400", "bb", "aa", "y", "yy"]


def candidates(w, f):
    """words that may meet the facts"""
    import itertools
    opts = []
    for b in w.bs:
        s = bound(b, f)
        c = s.single()
        if c is not None: opts.append([c])
        else:
            o = [x for x in (ord("a"), ord("b"), ord("s"), ord("t"), ord("l"), ord("y"), ord("e")) if x in s]
            o = o[:3] or ([s.lo()] if s.r else [])
            hi = [0xA9] if 0xA9 in s else []
            opts.append((hi + o) if hi else o)
    n = 0
    for combo in itertools.product(*opts):
        n += 1
        if n > 4000: break
        t = text_of(combo)
        if t is None: continue
        for st in (STARTS if w.general else [""]):
            x = st + t
            # later steps see what earlier ones leave: endings that vanish first
            for suffix in ("", "s", "ed", "ing"):
                y = x + suffix
                if len(y.encode()) > 2: yield y


def text_of(bs):
    """bytes as text; a lone continuation byte gets its lead"""
    out, i = b"", 0
    bs = list(bs)
    while i < len(bs):
        if bs[i] < 128: out += bytes([bs[i]])
        elif bs[i] == 0xA9:
            if out and not out[-1:].isascii(): return None
            out = out[:-1] + b"\xc3\xa9" if out else b"\xc3\xa9"
        else: return None
        i += 1
    try: return out.decode("utf-8")
    except UnicodeDecodeError: return None


SWEEP = ["eing", "ion", "ing", "\u0924", "\u0924ing", "a\u0924ed", "a\u0924ing", "bed", "aed", "sss", "ies", "eed", "ie\u00e9", "yyy", "abc", "ational", "a\u00e9s", "\u00e9y", "bab\u00e9e", "aab",
         "s", "a", "e", "l", "\u00e9", "\u00e9\u00e9\u00e9", "a\u00e9a", "\u0130\u0130", "\u212a\u212a", "all", "alling", "fitted", "sky", "eye", "sies"]


RULES = {"C21": C21, "C22": C22, "C34": C34}
