"""The regular expressions of the analysed code, as character sets and anchored runs. The Unicode
tables are the ones of the regex-syntax release that Cargo.lock names."""
import glob, os, re
from functools import lru_cache
from terms import *
from interp import Limit


class Bad(Exception):
    pass


@lru_cache(None)
def tables():
    repo = os.environ.get("VF_REPO", "/repo")
    ver = None
    try:
        m = re.search(r'name = "regex-syntax"\s+version = "([^"]+)"', open(repo + "/Cargo.lock").read())
        ver = m and m.group(1)
    except OSError: pass
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    c = glob.glob(home + "/registry/src/*/regex-syntax-%s/src/unicode_tables" % (ver or "*"))
    if not c: c = glob.glob(home + "/registry/src/*/regex-syntax-*/src/unicode_tables")
    if not c: raise Bad("no Unicode tables")
    return c[-1]


def unesc(s):
    if s.startswith("\\u{"): return int(s[3:-1], 16)
    if s.startswith("\\x"): return int(s[2:], 16)
    if s.startswith("\\"): return {"n": 10, "t": 9, "r": 13, "0": 0, "'": 39, "\\": 92, '"': 34}[s[1]]
    return ord(s)


@lru_cache(None)
def table(f, name):
    t = open(os.path.join(tables(), f + ".rs"), encoding="utf-8").read()
    m = re.search(r"pub const %s: &'static \[\(char, char\)\] =\s*&\[(.*?)\];" % re.escape(name.upper()), t, re.S)
    if not m: raise Bad("no table " + name)
    return IntSet([(unesc(a), unesc(b)) for a, b in re.findall(r"\('(\\u\{\w+\}|\\x\w\w|\\.|[^'\\])',\s*'(\\u\{\w+\}|\\x\w\w|\\.|[^'\\])'\)", m.group(1))])


@lru_cache(None)
def prop(name):
    n = name.replace(" ", "_").replace("-", "_")
    gc = {"L": "LETTER", "N": "NUMBER", "P": "PUNCTUATION", "Lu": "UPPERCASE_LETTER", "Ll": "LOWERCASE_LETTER", "Nd": "DECIMAL_NUMBER", "M": "MARK", "Z": "SEPARATOR", "S": "SYMBOL"}
    if "=" in n:
        k, n = n.split("=", 1)
        return table("script" if k.lower() in ("script", "sc") else "general_category", n)
    if n in gc: return table("general_category", gc[n])
    for f in ("script", "property_bool", "general_category"):
        try: return table(f, n)
        except Bad: pass
    raise Bad("unknown property " + name)


class P:
    def __init__(self, s): self.s, self.i = s, 0

    def peek(self): return self.s[self.i] if self.i < len(self.s) else ""

    def take(self):
        c = self.peek()
        self.i += 1
        return c

    def alt(self):
        out = [self.cat()]
        while self.peek() == "|":
            self.take()
            out.append(self.cat())
        return ("alt", out) if len(out) > 1 else out[0]

    def cat(self):
        out = []
        while self.peek() and self.peek() not in "|)":
            a = self.atom()
            while self.peek() and self.peek() in "+*?":
                q = self.take()
                if self.peek() == "?":
                    self.take()
                    a = ("cnt", {"+": 1, "*": 0, "?": 0}[q], 1 if q == "?" else None, a, True)
                else: a = ("rep", q, a)
            if self.peek() == "{":
                m = re.match(r"\{(\d+)(,(\d*))?\}(\??)", self.s[self.i:])
                if not m: raise Bad("counted")
                self.i += m.end()
                lo = int(m.group(1))
                a = ("cnt", lo, lo if m.group(2) is None else int(m.group(3)) if m.group(3) else None, a, bool(m.group(4)))
            out.append(a)
        return ("cat", out)

    def atom(self):
        c = self.take()
        if c == "^": return ("bot",)
        if c == "$": return ("eot",)
        if c == "(":
            if self.s.startswith("?:", self.i): self.i += 2
            elif self.peek() == "?": raise Bad("group flags")
            r = self.alt()
            if self.take() != ")": raise Bad("group")
            return r
        if c == "[": return ("set", self.cls())
        if c == "\\":
            if self.peek() in "Az": return ("bot",) if self.take() == "A" else ("eot",)
            if self.peek() in "bB": return ("wb", self.take() == "b")
            return ("set", self.esc())
        if c == ".": return ("set", IntSet([(10, 10)]).compl().inter(CHARS))
        if c in "+*?{": raise Bad("repetition of nothing")
        return ("set", IntSet([(ord(c), ord(c))]))

    def esc(self):
        c = self.take()
        if c in "pP":
            if self.peek() == "{":
                j = self.s.index("}", self.i)
                n = self.s[self.i + 1:j]
                self.i = j + 1
            else: n = self.take()
            neg = c == "P"
            if n.startswith("^"): neg, n = not neg, n[1:]
            r = prop(n)
            return r.compl().inter(CHARS) if neg else r
        if c in "wW":
            r = table("perl_word", "PERL_WORD")
            return r if c == "w" else r.compl().inter(CHARS)
        if c in "dD":
            r = table("general_category", "DECIMAL_NUMBER")
            return r if c == "d" else r.compl().inter(CHARS)
        if c in "sS":
            import model
            return model.WS if c == "s" else model.WS.compl().inter(CHARS)
        if c in "bBAzZ": 
            if c == "A": raise Bad("anchor")
            raise Bad("anchor")
        if c in "xuU":
            if self.peek() == "{":
                j = self.s.index("}", self.i)
                v = int(self.s[self.i + 1:j], 16)
                self.i = j + 1
            else:
                k = {"x": 2, "u": 4, "U": 8}[c]
                v = int(self.s[self.i:self.i + k], 16)
                self.i += k
            return IntSet([(v, v)])
        if c in "ntrfv": v = {"n": 10, "t": 9, "r": 13, "f": 12, "v": 11}[c]
        elif c and not c.isalnum(): v = ord(c)
        else: raise Bad("escape " + c)
        return IntSet([(v, v)])

    def cls(self):
        neg = False
        if self.peek() == "^":
            self.take()
            neg = True
        r = IntSet([])
        first = True
        while True:
            c = self.take()
            if c == "": raise Bad("class")
            if c == "]" and not first: break
            first = False
            if c == "[":
                m = re.match(r":(\^?)(\w+):\]", self.s[self.i:])
                if m:
                    tab = {"alpha": [(65, 90), (97, 122)], "alnum": [(48, 57), (65, 90), (97, 122)], "digit": [(48, 57)],
                           "lower": [(97, 122)], "upper": [(65, 90)], "space": [(9, 13), (32, 32)], "word": [(48, 57), (65, 90), (95, 95), (97, 122)],
                           "punct": [(33, 47), (58, 64), (91, 96), (123, 126)]}
                    if m.group(2) not in tab: raise Bad("posix class")
                    x = IntSet(tab[m.group(2)])
                    self.i += m.end()
                    r = r.union(x.compl().inter(CHARS) if m.group(1) else x)
                    continue
                r = r.union(self.cls())
                continue
            if c in "&-~" and self.peek() == c: raise Bad("set operation")
            s = self.esc() if c == "\\" else IntSet([(ord(c), ord(c))])
            if self.peek() == "-" and self.i + 1 < len(self.s) and self.s[self.i + 1] != "]" and s.single() is not None:
                self.take()
                d = self.take()
                e = self.esc() if d == "\\" else IntSet([(ord(d), ord(d))])
                if e.single() is None: raise Bad("range")
                s = IntSet([(s.single(), e.single())])
            r = r.union(s)
        return r.compl().inter(CHARS) if neg else r


@lru_cache(None)
def parse(p):
    x = P(p)
    r = x.alt()
    if x.i != len(p): raise Bad("trailing " + p[x.i:])
    return r


def valid(p):
    """None when the expression is outside what is understood"""
    try: parse(p)
    except (Bad, ValueError, KeyError, IndexError): return False
    return True


def matches(t, x, i):
    """ends of the matches of the expression that begin at i, in order of preference"""
    k = t[0]
    if k == "set":
        if i < len(x) and ord(x[i]) in t[1]: yield i + 1
    elif k == "bot":
        if i == 0: yield i
    elif k == "eot":
        if i == len(x): yield i
    elif k == "wb":
        w = table("perl_word", "PERL_WORD")
        a, b = i > 0 and ord(x[i - 1]) in w, i < len(x) and ord(x[i]) in w
        if (a != b) == t[1]: yield i
    elif k == "alt":
        for a in t[1]: yield from matches(a, x, i)
    elif k == "cat":
        def go(n, j):
            if n == len(t[1]): yield j
            else:
                for e in matches(t[1][n], x, j): yield from go(n + 1, e)
        yield from go(0, i)
    else:
        lo, hi, a, lazy = ({"+": 1, "*": 0, "?": 0}[t[1]], 1 if t[1] == "?" else None, t[2], False) if k == "rep" else t[1:]

        def rp(n, j):
            more = hi is None or n < hi
            if n >= lo and lazy: yield j
            if more:
                for e in matches(a, x, j):
                    if e > j or n < lo: yield from rp(n + 1, e)
            if n >= lo and not lazy: yield j
        yield from rp(0, i)


def find_all(t, x):
    out, i, last = [], 0, -1
    while i <= len(x):
        e = next(matches(t, x, i), None)
        if e is None or e == i and i == last: i += 1; continue
        out.append((i, e))
        last = e
        i = e if e > i else i + 1
    return out


@reb("rxrep")
def _reb_rxrep(r, s, by, all_):
    if s.op == "str" and by.op == "str" and "$" not in by.a[0] and r.op == "regex" and r.a[0].op == "str" and len(s.a[0]) < 200:
        try: t = parse(r.a[0].a[0])
        except (Bad, ValueError, KeyError, IndexError): return mk("rxrep", r, s, by, all_)
        x, out, k = s.a[0], "", 0
        for a, b in find_all(t, x)[:None if all_ is True else 1 if all_ is False else all_]:
            out += x[k:a] + by.a[0]
            k = b
        return S(out + x[k:])
    return mk("rxrep", r, s, by, all_)


@reb("repl1")
def _reb_repl1(s, cs, by):
    if s.op == "str" and by.op == "str":
        x = s.a[0]
        k = next((k for k, c in enumerate(x) if ord(c) in cs), None)
        return s if k is None else S(x[:k] + by.a[0] + x[k + 1:])
    return mk("repl1", s, cs, by)


def one(t):
    while t[0] == "cat" and len(t[1]) == 1: t = t[1][0]
    return t


def as_set(t):
    t = one(t)
    if t[0] == "set": return t[1]
    if t[0] == "alt":
        ss = [as_set(x) for x in t[1]]
        if all(s is not None for s in ss):
            r = ss[0]
            for s in ss[1:]: r = r.union(s)
            return r
    return None


def run_of(t):
    """a greedy run of a character set: (set, at least one)"""
    t = one(t)
    if t[0] == "rep" and t[1] in "+*":
        s = as_set(t[2])
        if s is not None: return s, t[1] == "+"
    return None


def ends(t):
    """(set trimmed at the start, set trimmed at the end) of an expression that matches only runs at the ends"""
    lo = hi = IntSet([])
    for a in (t[1] if t[0] == "alt" else [t]):
        if a[0] != "cat" or len(a[1]) != 2: return None
        x, y = a[1]
        if x == ("bot",):
            r = run_of(y)
            if not r or not lo.empty(): return None
            lo = r[0]
        elif y == ("eot",):
            r = run_of(x)
            if not r or not hi.empty(): return None
            hi = r[0]
        else: return None
    return lo, hi


def replace(r, s, by, all_):
    import model
    if r.op != "regex" or r.a[0].op != "str" or by.op != "str" or "$" in by.a[0]:
        return _reb_rxrep(r, s, by, all_)
    try: t = parse(r.a[0].a[0])
    except (Bad, ValueError, KeyError, IndexError): return mk("rxrep", r, s, by, all_)
    cs = as_set(t)
    if cs is not None and all_ in (True, False):
        if all_: return model.repl_chars(s, cs, by)
        return _reb_repl1(s, cs, by)
    rr = run_of(t)
    if all_ not in (True, False): return _reb_rxrep(r, s, by, all_)
    if rr and all_ and rr[1] and by.a[0] == "": return model.repl_chars(s, rr[0], by)
    e = ends(t)
    if e and by.a[0] == "":
        lo, hi = e
        if lo.empty() or hi.empty() or all_: return model.trimset(s, lo, hi)
    return _reb_rxrep(r, s, by, all_)
