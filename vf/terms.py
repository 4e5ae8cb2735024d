"""The abstract value domain: hash-consed terms in a normal form (value numbering), with exact
interval sets and string sets for branch conditions and canonical decision diagrams for values
that depend on branches."""
from functools import lru_cache

NEG, POS = -10 ** 30, 10 ** 30


class IntSet:
    __slots__ = ("r", "_h")
    kind = "I"

    def __init__(self, ranges):
        rs = sorted((a, b) for a, b in ranges if a <= b)
        out = []
        for a, b in rs:
            if out and a <= out[-1][1] + 1:
                out[-1] = (out[-1][0], max(b, out[-1][1]))
            else:
                out.append((a, b))
        self.r = tuple(out)
        self._h = hash(self.r)

    def __hash__(self): return self._h
    def __eq__(self, o): return isinstance(o, IntSet) and self.r == o.r
    def inter(self, o):
        out = []
        i = j = 0
        A, B = self.r, o.r
        while i < len(A) and j < len(B):
            lo, hi = max(A[i][0], B[j][0]), min(A[i][1], B[j][1])
            if lo <= hi: out.append((lo, hi))
            if A[i][1] < B[j][1]: i += 1
            else: j += 1
        return IntSet(out)
    def union(self, o): return IntSet(self.r + o.r)
    def compl(self):
        out = []
        p = NEG
        for a, b in self.r:
            if a > p: out.append((p, a - 1))
            p = b + 1
        if p <= POS: out.append((p, POS))
        return IntSet(out)
    def empty(self): return not self.r
    def shift(self, k): return IntSet([(a if a == NEG else a + k, b if b == POS else b + k) for a, b in self.r])
    def neg(self): return IntSet([(-b, -a) for a, b in self.r])
    def single(self): return self.r[0][0] if len(self.r) == 1 and self.r[0][0] == self.r[0][1] else None
    def lo(self): return self.r[0][0]
    def hi(self): return self.r[-1][1]
    def size(self): return sum(b - a + 1 for a, b in self.r)
    def __contains__(self, x): return any(a <= x <= b for a, b in self.r)
    def key(self): return (0,) + self.r[:1] + (len(self.r),)
    def __repr__(self):
        def f(x): return "-inf" if x == NEG else "inf" if x == POS else str(x)
        s = ",".join(f(a) if a == b else f(a) + ".." + f(b) for a, b in self.r[:12])
        return "{" + s + (",…" if len(self.r) > 12 else "") + "}"


class StrSet:
    __slots__ = ("n", "s", "_h")
    kind = "S"

    def __init__(self, strs, neg=False):
        self.s = frozenset(strs)
        self.n = neg
        self._h = hash((self.n, self.s))
    def __hash__(self): return self._h
    def __eq__(self, o): return isinstance(o, StrSet) and self.n == o.n and self.s == o.s
    def compl(self): return StrSet(self.s, not self.n)
    def inter(self, o):
        if not self.n and not o.n: return StrSet(self.s & o.s)
        if self.n and o.n: return StrSet(self.s | o.s, True)
        a, b = (self, o) if not self.n else (o, self)
        return StrSet(a.s - b.s)
    def union(self, o): return self.compl().inter(o.compl()).compl()
    def empty(self): return not self.n and not self.s
    def single(self): return next(iter(self.s)) if not self.n and len(self.s) == 1 else None
    def __contains__(self, x): return (x in self.s) != self.n
    def key(self): return (1, self.n, tuple(sorted(self.s))[:1], len(self.s))
    def __repr__(self):
        l = sorted(self.s)
        return ("not" if self.n else "") + "{" + ",".join(map(repr, l[:6])) + (",…%d" % len(l) if len(l) > 6 else "") + "}"


ALL_I = IntSet([(NEG, POS)])
NONNEG = IntSet([(0, POS)])
BOOLS = IntSet([(0, 1)])
ONE = IntSet([(1, 1)])
ZERO = IntSet([(0, 0)])
CHARS = IntSet([(0, 0xD7FF), (0xE000, 0x10FFFF)])
ALL_S = StrSet((), True)


class T:
    __slots__ = ("op", "a", "id", "_lvl", "_phis", "_ops", "size")

    def __repr__(self): return show(self)
    def __lt__(self, o): return self.id < o.id


_tab = {}
_n = [0]


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a = op, a
        _n[0] += 1
        t.id = _n[0]
        t._lvl = t._phis = t._ops = None
        _tab[k] = t
    return t


def kids(t):
    out = []
    st = list(t.a)
    while st:
        x = st.pop()
        if isinstance(x, T): out.append(x)
        elif isinstance(x, tuple): st.extend(x)
    return out


def _mapa(x, f):
    if isinstance(x, T): return f(x)
    if isinstance(x, tuple): return tuple(_mapa(y, f) for y in x)
    return x


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        st.extend(kids(x))
    return seen


def contains(t, x):
    return x in subterms(t)


LEAFSYM = ("phi", "n", "bv", "hav", "sym")


def syms_of(t):
    """set of leaf symbols (phi, n, bv, hav, sym) in t"""
    if t._phis is None:
        s = set()
        if t.op in LEAFSYM: s.add(t)
        for c in kids(t): s |= syms_of(c)
        t._phis = frozenset(s)
    return t._phis


def maxbv(t):
    if t._lvl is None:
        m = t.a[0] if t.op in ("bv",) else (t.a[0] if t.op == "lam" else 0)
        for c in kids(t): m = max(m, maxbv(c))
        t._lvl = m
    return t._lvl


# ---------------------------------------------------------------- rebuild / substitution
REB = {}


def reb(op):
    def d(f):
        REB[op] = f
        return f
    return d


def rebuild(op, args):
    f = REB.get(op)
    if f: return f(*args)
    return mk(op, *args)


def subst(t, m, memo=None):
    if not m: return t
    memo = {} if memo is None else memo
    want = frozenset(m)
    leaf = all(k.op in LEAFSYM for k in m)

    def go(x):
        if x in m: return m[x]
        if leaf and not (syms_of(x) & want): return x
        r = memo.get(x)
        if r is None:
            na = tuple(_mapa(y, go) for y in x.a)
            r = x if na == x.a else rebuild(x.op, na)
            memo[x] = r
        return r
    import sys
    return go(t)


# ---------------------------------------------------------------- constants and integers
def I(n): return mk("int", n)
def S(s): return mk("str", s)
def fl(x): return mk("float", repr(float(x)))
def B(b): return TRUE if b else FALSE
TRUE, FALSE = mk("bool", True), mk("bool", False)
UNIT = mk("tup")
UNDEF = mk("undef")
PANIC = mk("panic")


def adt(path, variant, *f): return mk("adt", path, variant, *f)
OPT = "std::option::Option"
RES = "std::result::Result"
CF = "std::ops::ControlFlow"
def some(x): return adt(OPT, 1, x)
NONE = adt(OPT, 0)
def ok(x): return adt(RES, 0, x)
def err(x): return adt(RES, 1, x)
def tup(*a): return mk("tup", *a)
def sym(n, ty=None): return mk("sym", n, ty)


def lin_parts(t):
    if t.op == "int": return t.a[0], ()
    if t.op == "lin": return t.a[0], t.a[1]
    if t.op == "dd" and is_boolish(t): return 0, ((t, 1),)
    return 0, ((t, 1),)


def mk_lin(c, parts):
    d = {}
    for t, k in parts: d[t] = d.get(t, 0) + k
    p = tuple(sorted(((t, k) for t, k in d.items() if k), key=lambda x: x[0].id))
    if not p: return I(c)
    if c == 0 and len(p) == 1 and p[0][1] == 1: return p[0][0]
    return mk("lin", c, p)


@reb("lin")
def _reb_lin(c, parts):
    cc, ps = c, []
    for t, k in parts:
        c2, p2 = lin_parts(t)
        cc += c2 * k
        ps += [(x, y * k) for x, y in p2]
    return mk_lin(cc, ps)


def add(a, b, k=1):
    ca, pa = lin_parts(a)
    cb, pb = lin_parts(b)
    return mk_lin(ca + k * cb, list(pa) + [(t, k * x) for t, x in pb])


def sub(a, b): return add(a, b, -1)


def mulc(a, k):
    c, p = lin_parts(a)
    return mk_lin(c * k, [(t, x * k) for t, x in p])


def is_const(t): return t.op in ("int", "str", "bool", "float", "bytes")


# ---------------------------------------------------------------- branch keys
def universe(key):
    op = key.op
    if op in ("len", "blen", "mlen", "cnt", "n", "first", "b2i", "max0"): return NONNEG
    if op == "sym" and key.a[1] in ("u", "usize", "u64", "u32", "u8", "u16"): return NONNEG
    if op == "disc": return IntSet([(0, key.a[1] - 1)]) if key.a[1] else NONNEG
    if op in ("eq", "has", "any", "bcall", "cpred", "spred", "islt", "wmiss", "feq"): return BOOLS
    if op == "sym" and key.a[1] == "bool": return BOOLS
    if op == "sym" and key.a[1] == "char": return CHARS
    if op == "elem" and key.a[0].op in ("chars", "lowerc", "upperc"): return CHARS
    if op == "elem" and key.a[0].op == "bytes": return IntSet([(0, 255)])
    if op == "lin":
        # all positive coefficients on non-negative parts
        lo = key.a[0]
        for t, k in key.a[1]:
            u = universe(t)
            if u is not None and u.kind == "I" and k > 0 and u.r and u.r[0][0] > NEG: lo += k * u.r[0][0]
            else: return ALL_I
        return IntSet([(lo, POS)])
    return None


def is_boolish(t):
    return t.op == "bool" or (t.op == "dd" and all(is_boolish(c) for _, c in t.a[1]))


def norm_key(key, s):
    """canonical (key, set), or a bool when decided"""
    if s.kind == "I":
        if key.op in ("int", "lin"):
            c, p = lin_parts(key)
            if not p: return c in s
            if p[0][1] < 0:
                p = tuple((t, -k) for t, k in p)
                s = s.shift(-c).neg()
            else:
                s = s.shift(-c)
            from math import gcd
            g = 0
            for _, k in p: g = gcd(g, abs(k))
            if g > 1:
                p = tuple((t, k // g) for t, k in p)
                s = IntSet([(a if a == NEG else -((-a) // g), b if b == POS else b // g) for a, b in s.r])
            key = mk_lin(0, p)
        if key.op == "bool": return (1 if key.a[0] else 0) in s
        if key.op == "b2i":
            return ("sub", key.a[0], s)
        if key.op == "len" and key.a[0].op == "seq" and len(key.a[0].a[0]) == 1:
            p = key.a[0].a[0][0]
        if key.op in ("len", "blen"):
            u = s.inter(NONNEG)
            if u == ZERO or u == IntSet([(1, POS)]):
                st = None
                if key.op == "blen": st = key.a[0]
                elif key.a[0].op == "chars": st = key.a[0].a[0]
                if st is not None:
                    return norm_key(st, StrSet([""], u != ZERO))
        u = universe(key)
        if u is not None:
            s = s.inter(u)
            if s == u: return True
        if s.empty(): return False
        if s == ALL_I: return True
        return key, s
    if key.op == "str": return key.a[0] in s
    if s.empty(): return False
    if s.n and not s.s: return True
    if key.op in ("lower", "alower", "upper") and (s.s == frozenset([""])):
        return norm_key(key.a[0], s)
    if key.op == "cat" and s.s == frozenset([""]):
        if any(p.op == "str" and p.a[0] for p in key.a[0]): return s.n
    if key.op == "ofchars" and s.s == frozenset([""]):
        r = norm_key(seqlen(key.a[0]), ZERO if not s.n else IntSet([(1, POS)]))
        return r
    if key.op == "ofchars" and key.a[0].op == "seq":
        # a text that is given character by character
        ps = key.a[0].a[0]
        n = sum(1 for p in ps if p.op == "one")
        exact = n == len(ps)
        fit = frozenset(x for x in s.s if (len(x) == n if exact else len(x) >= n))
        if exact and n == 1: return norm_key(ps[0].a[0], IntSet([(ord(x), ord(x)) for x in fit]).compl() if s.n else IntSet([(ord(x), ord(x)) for x in fit]))
        if len(fit) != len(s.s):
            if not fit: return s.n
            s = StrSet(fit, s.n)
    return key, s


def inn(key, s):
    """the boolean term key ∈ s"""
    if key.op == "dd":
        return ddcases([(g, inn(l, s)) for g, l in paths(key)])
    r = norm_key(key, s)
    if isinstance(r, bool): return B(r)
    if r[0] == "sub":
        b, s = r[1], r[2]
        return map_leaves(b, lambda l: B((1 if l is TRUE else 0) in s))
    key, s = r
    u = universe(key)
    c = s.compl() if u is None else s.compl().inter(u)
    return mk_dd(key, [(s, TRUE), (c, FALSE)])


def mk_dd(key, br):
    by = {}
    for s, c in br:
        if s.empty(): continue
        by[c] = by[c].union(s) if c in by else s
    if len(by) == 1: return next(iter(by))
    if not by: return UNDEF
    l = sorted(by.items(), key=lambda x: x[1].key() if True else 0)
    return mk("dd", key, tuple((s, c) for c, s in l))


def paths(t, g=None):
    """decision paths of a term: list of (guard dict, leaf)"""
    g = g or {}
    if t.op != "dd": return [(g, t)]
    out = []
    for s, c in t.a[1]:
        s2 = s if t.a[0] not in g else g[t.a[0]].inter(s)
        if s2.empty(): continue
        g2 = dict(g)
        g2[t.a[0]] = s2
        out += paths(c, g2)
    return out


def mdd(cases):
    """canonical decision diagram of guarded leaves"""
    if not cases: return UNDEF
    first = cases[0][1]
    if all(l is first for _, l in cases): return first
    keys = set()
    for g, _ in cases: keys |= set(g)
    if not keys: return first
    key = min(keys, key=lambda k: k.id)
    u = universe(key)
    rest0 = None
    classes = []
    for g, _ in cases:
        s = g.get(key)
        if s is None: continue
        if rest0 is None: rest0 = (ALL_I if s.kind == "I" else ALL_S) if u is None else u
    classes = [rest0]
    for g, _ in cases:
        s = g.get(key)
        if s is None: continue
        nc = []
        for c in classes:
            a = c.inter(s)
            if a == c or a.empty():
                nc.append(c)
                continue
            nc += [a, c.inter(s.compl())]
        classes = nc
    br = []
    for c in classes:
        if c.empty(): continue
        sub_ = []
        for g, l in cases:
            s = g.get(key)
            if s is not None and s.inter(c).empty(): continue
            g2 = {k: v for k, v in g.items() if k is not key}
            sub_.append((g2, l))
        ch = mdd(sub_)
        if ch is UNDEF: continue
        br.append((c, ch))
    return mk_dd(key, br)


def expand_leaves(cases):
    out = []
    for g, l in cases:
        for g2, l2 in paths(l):
            g3 = conj(g, g2)
            if g3 is not None: out.append((g3, l2))
    return out


def conj(g, h):
    r = dict(g)
    for k, s in h.items():
        if k in r:
            s = r[k].inter(s)
            if s.empty(): return None
        r[k] = s
    return r


def ddcases(cases): return mdd(expand_leaves(cases))


@reb("dd")
def _reb_dd(key, br):
    cases = []
    for s, c in br:
        t = inn(key, s)
        for g, l in paths(t):
            if l is TRUE: cases.append((g, c))
    return ddcases(cases)


_ORD = {}


def ordered(t):
    """keys strictly increase along every path"""
    if t.op != "dd": return True
    r = _ORD.get(t)
    if r is None:
        r = _ORD[t] = all(c.op != "dd" or c.a[0].id > t.a[0].id and ordered(c) for _, c in t.a[1])
    return r


def map_leaves(t, f):
    return ddcases([(g, f(l)) for g, l in paths(t)])


def bnot(t):
    if t.op in ("bool", "dd"): return map_leaves(t, lambda l: B(not l.a[0]) if l.op == "bool" else mk("not", l))
    return bnot(as_bool(t))


def as_bool(t):
    """an opaque boolean term as a decision diagram"""
    if t.op in ("bool", "dd"): return t
    return inn(t, ONE)


_APPLY = {}


def apply2(tag, f, a, b):
    """a binary operation on ordered decision diagrams, leaf by leaf"""
    k = (tag, a, b)
    r = _APPLY.get(k)
    if r is not None: return r
    if a.op != "dd" and b.op != "dd": r = f(a, b)
    else:
        ka = a.a[0] if a.op == "dd" else None
        kb = b.a[0] if b.op == "dd" else None
        key = ka if kb is None or ka is not None and ka.id <= kb.id else kb
        br = []
        if ka is key and kb is key:
            for s, c in a.a[1]:
                for t, d in b.a[1]:
                    i = s.inter(t)
                    if not i.empty(): br.append((i, apply2(tag, f, c, d)))
        elif ka is key: br = [(s, apply2(tag, f, c, b)) for s, c in a.a[1]]
        else: br = [(s, apply2(tag, f, a, c)) for s, c in b.a[1]]
        r = mk_dd(key, [(s, c) for s, c in br if c is not UNDEF])
    _APPLY[k] = r
    return r


BOOL_OPS = {}


def bool2(f, a, b):
    a, b = as_bool(a), as_bool(b)
    if ordered(a) and ordered(b): return apply2(f.__code__, lambda x, y: B(f(x.a[0], y.a[0])) if x.op == "bool" and y.op == "bool" else UNDEF, a, b)
    return ddcases([(conj(g, h), B(f(x.a[0], y.a[0]))) for g, x in paths(a) for h, y in paths(b)
                    if conj(g, h) is not None and x.op == "bool" and y.op == "bool"])


def band(a, b):
    if as_bool(a) is FALSE: return FALSE
    return bool2(lambda x, y: x and y, a, b)


def bor(a, b):
    if as_bool(a) is TRUE: return TRUE
    return bool2(lambda x, y: x or y, a, b)


def ite(c, a, b):
    return ddcases([(g, a if l is TRUE else b) for g, l in paths(as_bool(c))])


def b2i(t):
    t = as_bool(t)
    if t.op == "bool": return I(1 if t.a[0] else 0)
    return mk("b2i", t)
REB["b2i"] = b2i


def lt(a, b): return inn(sub(a, b), IntSet([(NEG, -1)]))
def le(a, b): return inn(sub(a, b), IntSet([(NEG, 0)]))


INTOPS = {"int", "lin", "len", "blen", "mlen", "cnt", "n", "first", "b2i", "disc", "boff"}


def eq(a, b):
    if a is b: return TRUE
    if a.op in ("bool", "dd") and is_boolish(a) or b.op in ("bool", "dd") and is_boolish(b):
        return bool2(lambda x, y: x == y, a, b)
    if a.op == "dd" or b.op == "dd":
        return ddcases([(conj(g, h), eq(x, y)) for g, x in paths(a) for h, y in paths(b) if conj(g, h) is not None])
    if a.op in INTOPS or b.op in INTOPS: return inn(sub(a, b), ZERO)
    if a.op == "str": return inn(b, StrSet([a.a[0]]))
    if b.op == "str": return inn(a, StrSet([b.a[0]]))
    if a.op == "adt" and b.op == "adt":
        if a.a[:2] != b.a[:2]: return FALSE
        r = TRUE
        for x, y in zip(a.a[2:], b.a[2:]): r = band(r, eq(x, y))
        return r
    if a.op == "adt" and a.a[0] in (OPT,) and b.op != "adt": a, b = b, a
    if b.op == "adt" and b.a[0] in (OPT,):
        if b.a[1] == 0: return inn(disc(a, 2), ZERO)
        return ite(inn(disc(a, 2), ONE), eq(fld(a, 0, 1), b.a[2]), FALSE)
    if a.op == "tup" and b.op == "tup" and len(a.a) == len(b.a):
        r = TRUE
        for x, y in zip(a.a, b.a): r = band(r, eq(x, y))
        return r
    if a.op == "seq" and b.op == "seq":
        x, y = a.a[0], b.a[0]
        if all(p.op == "one" for p in x + y) and any(all(p.a[0].op == "int" for p in z) for z in (x, y)):
            if len(x) != len(y): return FALSE
            r = TRUE
            for p, q in zip(x, y): r = band(r, eq(p.a[0], q.a[0]))
            return r
    if a.id > b.id: a, b = b, a
    if a.op in ("ref", "seq") or b.op in ("ref",): return inn(mk("eq", a, b), ONE)
    if a.op == "seq" or b.op == "seq": return inn(mk("eq", a, b), ONE)
    return inn(mk("eq", a, b), ONE)


@reb("eq")
def _reb_eq(a, b):
    r = eq(a, b)
    return r


# ---------------------------------------------------------------- fields and discriminants
def fld(t, i, v=None):
    op = t.op
    if op == "tup":
        return t.a[i] if i < len(t.a) else UNDEF
    if op == "adt":
        if v is not None and t.a[0] == "$Entry": return t
        if v is not None and t.a[1] != v: return UNDEF
        return t.a[2 + i] if 2 + i < len(t.a) else UNDEF
    if op == "clo": return t.a[1][i]
    if op == "rec":
        for j, x in t.a[1]:
            if j == i: return x
        return fld(t.a[0], i, v)
    if op == "dd":
        ls = [l for _, l in paths(t)]
        if all(l.op in ("adt", "tup", "rec") or l.op in ("undef", "panic") for l in ls):
            return map_leaves(t, lambda l: fld(l, i, v))
    if op in ("undef",): return UNDEF
    return mk("fld", t, i, v)
REB["fld"] = fld


def upd(t, i, x):
    if t.op in ("tup",):
        return mk("tup", *[x if j == i else y for j, y in enumerate(t.a)])
    if t.op == "adt":
        f = list(t.a[2:])
        while len(f) <= i: f.append(UNDEF)
        f[i] = x
        return mk("adt", t.a[0], t.a[1], *f)
    if t.op == "clo":
        c = list(t.a[1])
        c[i] = x
        return mk("clo", t.a[0], tuple(c))
    base, m = (t.a[0], dict(t.a[1])) if t.op == "rec" else (t, {})
    if fld(base, i) is x: m.pop(i, None)
    else: m[i] = x
    if not m: return base
    return mk("rec", base, tuple(sorted(m.items())))


@reb("rec")
def _reb_rec(b, m):
    r = b
    for i, x in m: r = upd(r, i, x)
    return r


def disc(t, n=None):
    if t.op == "adt": return I(t.a[1])
    if t.op == "bool": return I(1 if t.a[0] else 0)
    if t.op == "dd":
        return map_leaves(t, lambda l: disc(l, n))
    return mk("disc", t, n)
REB["disc"] = disc


# ---------------------------------------------------------------- lambda
def lam(var, body):
    """abstracts the symbol var out of body"""
    l = maxbv(body) + 1
    return mk("lam", l, subst(body, {var: mk("bv", l)}))


def lam2(v1, v2, body):
    l = maxbv(body) + 1
    return mk("lam", l + 1, subst(body, {v1: mk("bv", l), v2: mk("bv", l + 1)}), l)


def app(f, x):
    return subst(f.a[1], {mk("bv", f.a[0]): x})


def app2(f, x, y):
    return subst(f.a[1], {mk("bv", f.a[2]): x, mk("bv", f.a[0]): y})


@reb("lam")
def _reb_lam(l, body, l1=None):
    if l1 is None:
        v = mk("bv", l)
        nl = 1 + max([maxbv_except(body, {l})])
        if nl != l: body = subst(body, {v: mk("bv", nl)})
        return mk("lam", nl, body)
    nl = 1 + maxbv_except(body, {l, l1})
    if nl != l1: body = subst(body, {mk("bv", l1): mk("bv", -1), mk("bv", l): mk("bv", -2)})
    if nl != l1: body = subst(body, {mk("bv", -1): mk("bv", nl), mk("bv", -2): mk("bv", nl + 1)})
    return mk("lam", nl + 1, body, nl)


def maxbv_except(t, ex):
    m = 0
    for x in subterms(t):
        if x.op == "bv" and x.a[0] not in ex: m = max(m, x.a[0])
        if x.op == "lam": m = max(m, x.a[0])
    return m


# ---------------------------------------------------------------- sequences
# 'seq'(pieces): concatenation of pieces
#   'sl'(S, a, b)   elements a..b of the base sequence S
#   'one'(x)
#   'comp'(lam, h)  for n in 0..h the sequence lam(n)
# base sequences: any other term
def seq(*pieces):
    out = []
    for p in pieces:
        if p.op == "seq": ps = p.a[0]
        elif p.op in ("sl", "one", "comp"): ps = (p,)
        else: ps = (mk("sl", p, I(0), baselen(p)),)
        for q in ps: _push_piece(out, q)
    return mk("seq", tuple(out))


def _piece_as_slice(q):
    if q.op == "one" and q.a[0].op == "elem":
        e = q.a[0]
        return e.a[0], e.a[1], add(e.a[1], I(1))
    if q.op == "sl": return q.a
    return None


def _push_piece(out, q):
    if q.op == "sl":
        if q.a[1] is q.a[2]: return
        n = sub(q.a[2], q.a[1])
        if n.op == "int" and n.a[0] <= 0: return
        if n.op == "int" and n.a[0] <= 4:
            for k in range(n.a[0]): _push_piece(out, mk("one", elem1(q.a[0], add(q.a[1], I(k)))))
            return
    if q.op == "comp":
        h = q.a[1]
        if h.op == "int" and h.a[0] == 0: return
    if out:
        a, b = _piece_as_slice(out[-1]), _piece_as_slice(q)
        if a and b and a[0] is b[0] and a[2] is b[1]:
            out[-1] = mk("sl", a[0], a[1], b[2])
            return
    out.append(q)


EMPTY = mk("seq", ())


@reb("seq")
def _reb_seq(pieces): return seq(*pieces)


@reb("sl")
def _reb_sl(s, a, b):
    if s.op == "seq": return slice_(s, a, b)
    return mk("sl", s, a, b)


def is_seq(t): return t.op == "seq"


def baselen(s):
    if s.op == "seq": return seqlen(s)
    if s.op == "zip":
        a, b = seqlen(as_seq(s.a[0])), seqlen(as_seq(s.a[1]))
        return a if a is b else mk("min", *sorted([a, b]))
    if s.op == "rev": return seqlen(as_seq(s.a[0]))
    if s.op in ("mitems", "hitems"): return mlen(s.a[0])
    if s.op == "bytes" and isinstance(s.a[0], T): return REB["blen"](s.a[0])
    if s.op == "huniq": return baselen(mk("uniq", s.a[0]))
    if s.op == "range": return mk("max0", sub(s.a[1], s.a[0])) if not _nonneg(sub(s.a[1], s.a[0])) else sub(s.a[1], s.a[0])
    return mk("len", s)


@reb("max0")
def _max0(x):
    if _nonneg(x): return x
    if x.op == "int": return I(max(0, x.a[0]))
    return mk("max0", x)


@reb("min")
def _min(a, b):
    if a is b: return a
    if a.op == "int" and b.op == "int": return I(min(a.a[0], b.a[0]))
    return mk("min", *sorted([a, b]))


def _nonneg(t):
    if t.op == "int": return t.a[0] >= 0
    u = universe(t)
    return u is not None and bool(u.r) and u.r[0][0] >= 0


@reb("len")
def _reb_len(s): return seqlen(s)


def as_seq(t):
    if t.op == "seq": return t
    return seq(t)


def seqlen(s):
    if s.op != "seq": return baselen(s)
    r = I(0)
    for p in s.a[0]:
        if p.op == "sl": r = add(r, sub(p.a[2], p.a[1]))
        elif p.op == "one": r = add(r, I(1))
        else:
            f, h = p.a
            k = comp_width(f)
            if k is not None: r = add(r, mulc(h, k))
            else:
                # the number of elements does not depend on what they are
                b = map_leaves(f.a[1], lambda l: mk("seq", tuple(mk("one", UNIT) if x.op == "one" else x for x in l.a[0])) if l.op == "seq" else l)
                r = add(r, mk("len", mk("seq", (mk("comp", mk("lam", f.a[0], b), h),))))
    return r


def comp_width(f):
    """number of elements per step, if constant"""
    ws = set()
    for _, l in paths(f.a[1]):
        if l.op != "seq" or any(p.op != "one" for p in l.a[0]): return None
        ws.add(len(l.a[0]))
    return ws.pop() if len(ws) == 1 else None


def elem(s, n):
    """element n of a sequence"""
    if s.op != "seq": return elem1(s, n)
    off = n
    for k, p in enumerate(s.a[0]):
        last = k == len(s.a[0]) - 1
        if p.op == "one":
            if off.op == "int" and off.a[0] == 0: return p.a[0]
            if last and k == 0: return p.a[0]
            off2 = sub(off, I(1))
            if off2.op == "int" and off2.a[0] < 0: return UNDEF
            # is the offset certainly behind this piece?
            if off.op == "int" or _nonneg(off2): off = off2; continue
            break
        if p.op == "sl":
            ln = sub(p.a[2], p.a[1])
            if last: return elem1(p.a[0], add(p.a[1], off))
            d = sub(off, ln)
            if _nonneg(d): off = d; continue
            if d.op == "int" and d.a[0] < 0: return elem1(p.a[0], add(p.a[1], off))
            break
        f, h = p.a
        if comp_width(f) == 1:
            if last or _nonneg(sub(h, add(off, I(1)))):
                return map_leaves(app(f, off), lambda l: l.a[0][0].a[0] if l.op == "seq" else l)
            d = sub(off, h)
            if _nonneg(d): off = d; continue
        break
    return mk("elem", s, n)


def elem1(s, n):
    if s.op == "seq": return elem(s, n)
    if s.op == "zip": return tup(elem(as_seq(s.a[0]), n), elem(as_seq(s.a[1]), n))
    if s.op == "rev":
        b = as_seq(s.a[0])
        return elem(b, sub(sub(seqlen(b), I(1)), n))
    if s.op == "mitems":
        m = s.a[0]
        k = mkey(m, n)
        return tup(k, mget(m, k))
    if s.op == "hitems":
        m = s.a[0]
        k = mkey(m, n, "h")
        return tup(k, mget(m, k))
    if s.op == "range": return add(s.a[0], n)
    return mk("elem", s, n)
REB["elem"] = elem


@reb("supd")
def _reb_supd(s, n, x):
    """the sequence s with element n replaced, where s is spelled out"""
    if s.op == "seq" and n.op == "int" and 0 <= n.a[0] < len(s.a[0]) and all(p.op == "one" for p in s.a[0]):
        return seq(*[mk("one", x) if k == n.a[0] else p for k, p in enumerate(s.a[0])])
    return mk("supd", s, n, x)


_fresh = [0]


def fresh(op="n", *rest):
    _fresh[0] += 1
    return mk(op, "%s%d" % (op, _fresh[0]), *rest)


def comp(f, h):
    """the sequence of lam(n) for n in 0..h, in canonical form"""
    return _comp(f, h)


def _comp(f, h):
    if h.op == "int":
        if h.a[0] <= 0: return EMPTY
        if h.a[0] <= 64 or not _depends(f):
            parts = [app(f, I(k)) for k in range(h.a[0])] if h.a[0] <= 4096 else None
            if parts is not None and all(p.op == "seq" for p in parts): return seq(*parts)
            if parts is not None and 1 < h.a[0] <= 6 and all(p.op in ("seq", "dd") for p in parts):
                return seq(*[p if p.op == "seq" else comp(lam(fresh("n"), p), I(1)) for p in parts])
    body, l = f.a[1], f.a[0]
    v = mk("bv", l)
    if body.op == "seq":
        if not body.a[0]: return EMPTY
        if len(body.a[0]) == 1 and body.a[0][0].op == "one":
            x = body.a[0][0].a[0]
            if x.op == "elem" and not contains(x.a[0], v):
                off = sub(x.a[1], v)
                if not contains(off, v):
                    return seq(mk("sl", x.a[0], off, add(off, h)))
    # fusion: the body looks at one element of another comprehension only
    es = [x for x in subterms(body) if x.op == "elem" and x.a[0].op == "seq" and x.a[1] is v and not contains(x.a[0], v)]
    if len(es) == 1:
        e = es[0]
        y = mk("sym", "$fuse", None)
        b2 = subst(body, {e: y})
        if not contains(b2, v) and h is seqlen(e.a[0]):
            out = []
            for p in e.a[0].a[0]:
                if p.op == "one": out.append(subst(b2, {y: p.a[0]}))
                elif p.op == "sl":
                    w = fresh("n")
                    out.append(comp(lam(w, subst(b2, {y: elem1(p.a[0], add(p.a[1], w))})), sub(p.a[2], p.a[1])))
                else:
                    w = fresh("n")
                    inner = app(p.a[0], w)
                    def leaf(q):
                        if q.op != "seq": return q
                        r = []
                        for z in q.a[0]:
                            if z.op == "one": r.append(subst(b2, {y: z.a[0]}))
                            elif z.op == "sl":
                                w2 = fresh("n")
                                r.append(comp(lam(w2, subst(b2, {y: elem1(z.a[0], add(z.a[1], w2))})), sub(z.a[2], z.a[1])))
                            else: return None
                        return dd_concat(r)
                    ls = [(g, leaf(q)) for g, q in paths(inner)]
                    if any(x is None for _, x in ls): return mk("seq", (mk("comp", f, h),))
                    out.append(comp(lam(w, ddcases(ls)), p.a[1]))
            if all(o.op == "seq" for o in out): return seq(*out)
    return mk("seq", (mk("comp", f, h),))


def dd_concat(r):
    if not r: return EMPTY
    acc = [({}, EMPTY)]
    for x in r:
        acc = [(conj(g, h), seq(s, y) if y.op == "seq" else y) for g, s in acc for h, y in paths(x) if conj(g, h) is not None]
    return mdd(acc)


def _depends(f):
    return contains(f.a[1], mk("bv", f.a[0]))


@reb("comp")
def _reb_comp(f, h): return _comp(f, h)


def slice_(s, a, b):
    """elements a..b of a sequence term"""
    if s.op != "seq": return seq(mk("sl", s, a, b))
    if a.op == "int" and a.a[0] == 0 and b is seqlen(s): return s
    ps = list(s.a[0])
    # drop whole pieces from the front
    while ps and _nonneg(a) and not (a.op == "int" and a.a[0] == 0):
        p = ps[0]
        ln = seqlen(mk("seq", (p,)))
        d = sub(a, ln)
        if _nonneg(d) and d.op == "int" or d is I(0):
            ps.pop(0)
            a, b = d, sub(b, ln)
            continue
        break
    rest = mk("seq", tuple(ps))
    if a.op == "int" and a.a[0] == 0 and b is seqlen(rest): return rest
    if len(ps) == 1 and ps[0].op == "sl":
        p = ps[0]
        return seq(mk("sl", p.a[0], add(p.a[1], a), add(p.a[1], b)))
    if len(ps) == 1 and ps[0].op == "comp" and comp_width(ps[0].a[0]) == 1:
        f, h = ps[0].a
        v = fresh("n")
        return comp(lam(v, app(f, add(v, a))), sub(b, a))
    if a.op == "int" and b.op == "int" and all(p.op == "one" for p in ps):
        return seq(*ps[a.a[0]:b.a[0]])
    # drop whole pieces from the back
    while ps:
        p = ps[-1]
        ln = seqlen(mk("seq", (p,)))
        rl = seqlen(mk("seq", tuple(ps)))
        d = sub(sub(rl, ln), b)
        if d.op == "int" and d.a[0] >= 0:
            ps.pop()
            continue
        break
    rest2 = mk("seq", tuple(ps))
    if rest2 is not rest: return slice_(rest2, a, b)
    if ps and a.op == "int" and a.a[0] == 0:
        # cut within the last piece
        p = ps[-1]
        before = seqlen(mk("seq", tuple(ps[:-1])))
        if len(ps) > 1 and p.op == "sl" and _nonneg(sub(b, before)):
            return seq(*(ps[:-1] + [mk("sl", p.a[0], p.a[1], add(p.a[1], sub(b, before)))]))
    return mk("seq", (mk("sl", rest, a, b),))


def flatmap(s, fn):
    """fn(elem, n) -> seq-valued term"""
    n = fresh("n")
    s = as_seq(s)
    e = elem(s, n)
    return comp(lam(n, fn(e, n)), seqlen(s))


@reb("first")
def first_(f, h):
    """the least n in 0..h with lam(n); h when there is none"""
    if h.op == "int" and h.a[0] <= 512:
        for k in range(h.a[0]):
            b = app(f, I(k))
            if b is TRUE: return I(k)
            if b is not FALSE: break
    return mk("first", f, h)


def any_(f, h):
    """exists n in 0..h with lam(n)"""
    if f.a[1] is FALSE: return FALSE
    if h.op == "int":
        r = FALSE
        if h.a[0] <= 4096:
            for k in range(h.a[0]): 
                r = _or_fast(r, app(f, I(k)))
            return r
    body, v = f.a[1], mk("bv", f.a[0])
    es = [x for x in subterms(body) if x.op == "elem" and x.a[0].op == "seq" and x.a[1] is v and not contains(x.a[0], v)]
    if len(es) == 1:
        e = es[0]
        y = mk("sym", "$fuse", None)
        b2 = subst(body, {e: y})
        if not contains(b2, v) and h is seqlen(e.a[0]):
            r = FALSE
            for p in e.a[0].a[0]:
                if p.op == "one": r = _or_fast(r, subst(b2, {y: p.a[0]}))
                elif p.op == "sl":
                    w = fresh("n")
                    r = bor(r, any_(lam(w, subst(b2, {y: elem1(p.a[0], add(p.a[1], w))})), sub(p.a[2], p.a[1])))
                else:
                    w = fresh("n")
                    def leaf(q):
                        z = FALSE
                        if q.op != "seq": return q
                        for x in q.a[0]:
                            if x.op != "one": return None
                            z = bor(z, subst(b2, {y: x.a[0]}))
                        return z
                    ls = [(g, leaf(q)) for g, q in paths(app(p.a[0], w))]
                    if any(x is None for _, x in ls): return inn(mk("any", f, h), ONE)
                    r = bor(r, any_(lam(w, ddcases(ls)), p.a[1]))
            return r
    return inn(mk("any", f, h), ONE)


def _or_fast(r, x):
    # unions of string-set tests on one key, without going through the general product
    if r is FALSE: return x
    if r.op == "dd" and x.op == "dd" and r.a[0] is x.a[0] and len(r.a[1]) == 2 and len(x.a[1]) == 2:
        ra = [s for s, c in r.a[1] if c is TRUE]
        xa = [s for s, c in x.a[1] if c is TRUE]
        if ra and xa and all(c in (TRUE, FALSE) for _, c in r.a[1] + x.a[1]):
            return inn(r.a[0], ra[0].union(xa[0]))
    return bor(r, x)


@reb("any")
def _reb_any(f, h):
    return any_(f, h)


# ---------------------------------------------------------------- maps
MEMPTY = mk("mempty")


def has(m, k):
    op = m.op
    if op == "mempty": return FALSE
    if op == "mins": return bor(eq(m.a[1], k), has(m.a[0], k))
    if op == "mrem": return band(bnot(eq(m.a[1], k)), has(m.a[0], k))
    if op == "mmap": return has(m.a[0], k)
    if op == "mkeep": return band(has(m.a[0], k), as_bool(app(m.a[1], k)))
    if op == "setof":
        s = as_seq(m.a[0])
        n = fresh("n")
        return any_(lam(n, eq(elem(s, n), k)), seqlen(s))
    if k.op in ("key", "hkey") and k.a[0] is m: return TRUE
    if op == "fold":
        r = _fold_keys(m)
        if r is not None:
            init, s = r
            n = fresh("n")
            return bor(has(init, k), any_(lam(n, eq(elem(s, n), k)), seqlen(s)))
    if op == "dd":
        return ddcases([(g, has(l, k)) for g, l in paths(m)])
    return inn(mk("has", m, k), ONE)


@reb("has")
def _reb_has(m, k): return has(m, k)


def mget(m, k):
    op = m.op
    if op == "mins":
        e = eq(m.a[1], k)
        if e is TRUE: return m.a[2]
        if e is FALSE: return mget(m.a[0], k)
        return ddcases([(g, m.a[2] if l is TRUE else mget(m.a[0], k)) for g, l in paths(e)])
    if op == "mrem":
        e = eq(m.a[1], k)
        if e is FALSE: return mget(m.a[0], k)
    if op == "mempty": return UNDEF
    if op == "mmap": return app(m.a[1], k)
    if op == "mkeep": return mget(m.a[0], k)
    if op == "dd": return ddcases([(g, mget(l, k)) for g, l in paths(m)])
    if op == "fold":
        r = _fold_count(m)
        if r is not None: return mk("cnt", r, k)
    return mk("mget", m, k)
REB["mget"] = mget


def mgetd(m, k, d):
    h = has(m, k)
    return ddcases([(g, mget_under(m, k, g) if l is TRUE else d) for g, l in paths(h)])


def mget_under(m, k, g):
    return simp(mget(m, k), g)


def mins(m, k, v):
    if m.op == "mins" and m.a[1] is k: return mins(m.a[0], k, v)
    if m.op == "mrem" and m.a[1] is k: return mins(m.a[0], k, v)
    if m.op == "mins" and eq(m.a[1], k) is FALSE and k.id < m.a[1].id:
        return mk("mins", mins(m.a[0], k, v), m.a[1], m.a[2])
    return mk("mins", m, k, v)
REB["mins"] = mins


def mrem(m, k):
    if m.op == "mempty": return m
    if m.op in ("mins", "mrem") and m.a[1] is k: return mrem(m.a[0], k)
    if m.op == "mins" and eq(m.a[1], k) is FALSE: return mins(mrem(m.a[0], k), m.a[1], m.a[2])
    return mk("mrem", m, k)
REB["mrem"] = mrem


def mlen(m):
    if m.op == "mmap": return mlen(m.a[0])
    if m.op == "mempty": return I(0)
    if m.op == "mins": return add(mlen(m.a[0]), b2i(bnot(has(m.a[0], m.a[1]))))
    if m.op == "mrem": return sub(mlen(m.a[0]), b2i(has(m.a[0], m.a[1])))
    if m.op == "setof": return seqlen(seq(mk("uniq", as_seq(m.a[0]))))
    if m.op == "fold":
        r = _fold_keys(m)
        if r is not None and r[0].op == "mempty": return seqlen(seq(mk("uniq", r[1])))
    return mk("mlen", m)
REB["mlen"] = mlen


def mkey(m, n, h=""):
    """key number n of a map; h: in the order of a hash table"""
    if m.op == "mmap": return mkey(m.a[0], n, h)
    if m.op == "setof": return elem1(mk(h + "uniq", as_seq(m.a[0])), n)
    if m.op == "fold":
        r = _fold_keys(m)
        if r is not None and r[0].op == "mempty": return elem1(mk(h + "uniq", r[1]), n)
    return mk(h + "key", m, n)


@reb("hkey")
def _reb_hkey(m, n): return mkey(m, n, "h")
REB["key"] = mkey


# 'fold'(lam2(acc, n), init, h): acc after h steps
def fold(f, init, h):
    if h.op == "int":
        if h.a[0] <= 0: return init
        if h.a[0] <= 8:
            r = init
            for k in range(h.a[0]): r = app2(f, r, I(k))
            return r
    body = f.a[1]
    acc, v = mk("bv", f.a[2]), mk("bv", f.a[0])
    if body is acc: return init
    if init.op == "mempty" and body.op == "mins" and body.a[0] is acc and body.a[1].op in ("key", "hkey") and body.a[1].a[1] is v and h is mlen(body.a[1].a[0]):
        k = body.a[1]
        D = k.a[0]
        if acc not in subterms(body.a[2]) and v not in subterms(D):
            w = fresh("n")
            val = subst(body.a[2], {k: w})
            if v not in subterms(val): return mmap(D, lam(w, val))
    es = [x for x in subterms(body) if x.op == "elem" and x.a[0].op == "seq" and x.a[1] is v and not contains(x.a[0], v) and not contains(x.a[0], acc)]
    if len(es) == 1:
        e = es[0]
        y = mk("sym", "$fuse", None)
        b2 = subst(body, {e: y})
        if not contains(b2, v) and h is seqlen(e.a[0]):
            r = init
            okk = True
            for p in e.a[0].a[0]:
                A, w = fresh("phi"), fresh("n")
                b3 = subst(b2, {acc: A})
                if p.op == "one": r = subst(b3, {y: p.a[0], A: r})
                elif p.op == "sl": r = fold(lam2(A, w, subst(b3, {y: elem1(p.a[0], add(p.a[1], w))})), r, sub(p.a[2], p.a[1]))
                else:
                    def leaf(q):
                        if q.op != "seq": return q
                        z = A
                        for x in q.a[0]:
                            if x.op != "one": return None
                            z = subst(b3, {y: x.a[0], A: z})
                        return z
                    ls = [(g, leaf(q)) for g, q in paths(app(p.a[0], w))]
                    if any(x is None for _, x in ls): okk = False; break
                    r = fold(lam2(A, w, ddcases(ls)), r, p.a[1])
            if okk: return r
    return mk("fold", f, init, h)


@reb("fold")
def _reb_fold(f, init, h): return fold(f, init, h)


def mmap(D, f):
    """the map with the keys of D and the values f(key)"""
    if f.a[1] is mget(D, mk("bv", f.a[0])): return D
    if D.op == "mempty": return D
    return mk("mmap", D, f)
REB["mmap"] = mmap


def mkeep(m, f):
    """the entries of a map whose keys satisfy f"""
    if m.op == "mempty" or f.a[1] is TRUE: return m
    b = as_bool(f.a[1])
    v = mk("bv", f.a[0])
    if b.op == "dd" and b.a[0].op == "eq" and v in b.a[0].a:
        x = [y for y in b.a[0].a if y is not v]
        if len(x) == 1 and not contains(x[0], v) and bnot(eq(v, x[0])) is b: return mrem(m, x[0])
    return mk("mkeep", m, f)
REB["mkeep"] = mkeep


@lru_cache(maxsize=None)
def _fold_keys(m):
    """a fold that only inserts one key per step: (initial map, sequence of the keys)"""
    f, init, h = m.a
    acc, v = mk("bv", f.a[2]), mk("bv", f.a[0])
    ks = []
    only = {l.a[1] for _, l in paths(f.a[1]) if l.op == "mins"}
    hk = mk("has", acc, next(iter(only))) if len(only) == 1 else None
    for g, l in paths(f.a[1]):
        if l is acc:
            # a step that leaves the map alone because the key is there
            if hk is not None and g.get(hk) == ONE: ks.append(({x: y for x, y in g.items() if not contains(x, acc)}, mk("seq", (mk("one", next(iter(only))),))))
            else: ks.append((g, EMPTY))
            continue
        if l.op == "mins" and l.a[0] is acc and not contains(l.a[1], acc):
            ks.append(({x: y for x, y in g.items() if not contains(x, acc)} if hk is not None else g, mk("seq", (mk("one", l.a[1]),))))
            continue
        return None
    ks = list({(tuple(sorted((x.id, y.r if y.kind == "I" else (tuple(sorted(y.s)), y.n)) for x, y in g.items())), l.id): (g, l) for g, l in ks}.values())
    if hk is not None and any(l is EMPTY for g, l in ks) and any(l is not EMPTY for g, l in ks):
        # skipping must exclude inserting
        for g, l in ks:
            for g2, l2 in ks:
                if l is EMPTY and l2 is not EMPTY and not any(x in g2 and g[x].inter(g2[x]).empty() for x in g): return None
    # whether a step inserts must not depend on the accumulator
    k = ddcases(ks)
    if contains(k, acc): return None
    w = fresh("n")
    return init, comp(lam(w, subst(k, {v: w})), h)


@lru_cache(maxsize=None)
def _fold_count(m):
    """a fold that counts the elements of a sequence in a map: that sequence"""
    f, init, h = m.a
    if init.op != "mempty": return None
    acc, v = mk("bv", f.a[2]), mk("bv", f.a[0])
    ks = []
    for g, l in paths(f.a[1]):
        if l is acc:
            if any(contains(x, acc) for x in g): return None
            ks.append((g, EMPTY))
            continue
        if l.op != "mins" or l.a[0] is not acc: return None
        k = l.a[1]
        if contains(k, acc): return None
        hk = mk("has", acc, k)
        g2 = {x: s for x, s in g.items() if x is not hk}
        if any(contains(x, acc) for x in g2): return None
        val = simp(add(mgetd(acc, k, I(0)), I(1)), g)
        if hk not in g: return None
        if g[hk] == ONE: want = add(mk("mget", acc, k), I(1))
        else: want = I(1)
        if l.a[2] is not want: return None
        ks.append((g2, mk("seq", (mk("one", k),))))
    k = ddcases(ks)
    if contains(k, acc): return None
    w = fresh("n")
    return comp(lam(w, subst(k, {v: w})), h)


# ---------------------------------------------------------------- recursive maps (tries)
# wget(root, i, seq): the node reached from root through field i by the keys of seq
def _above(root, i, s):
    """the root before writes further up the walk that leave the steps below alone"""
    while root.op == "wput" and root.a[1] == i and root.a[2] is not s and starts_with(s, root.a[2]) and root.a[3].op == "rec":
        b, m = root.a[3].a
        if b.op not in ("wget", "wgetd") or b.a[0] is not _above(root.a[0], i, root.a[2]) or b.a[2] is not root.a[2] or any(j == i for j, _ in m): break
        root = root.a[0]
    return root


def wget(root, i, s):
    if s is EMPTY: return root
    if root.op in ("wput", "ens") and root.a[1] == i:
        if root.a[2] is s:
            return root.a[3] if root.op == "wput" else wgetd(root.a[0], i, s, root.a[3])
    if root.op == "wget" and root.a[1] == i: return wget(root.a[0], i, seq(root.a[2], s))
    r = _above(root, i, s)
    if r is not root: return wget(r, i, s)
    return mk("wget", root, i, s)
REB["wget"] = wget


def wgetd(root, i, s, d):
    if s is EMPTY: return root
    r = _above(root, i, s)
    if r is not root: return wgetd(r, i, s, d)
    return mk("wgetd", root, i, s, d)
REB["wgetd"] = wgetd


def ens(root, i, s, d):
    if s is EMPTY: return root
    if root.op == "ens" and root.a[1] == i and root.a[3] is d and starts_with(s, root.a[2]): return ens(root.a[0], i, s, d)
    return mk("ens", root, i, s, d)
REB["ens"] = ens


def wput(root, i, s, v, d=None):
    if s is EMPTY: return v
    if root.op == "ens" and root.a[1] == i and root.a[2] is s: return wput(root.a[0], i, s, v, root.a[3])
    if root.op == "wput" and root.a[1] == i and root.a[2] is s: return wput(root.a[0], i, s, v, root.a[4])
    return mk("wput", root, i, s, v, d)
REB["wput"] = wput


def starts_with(s, p):
    a, b = s.a[0], p.a[0]
    if not b: return True
    if len(b) > len(a): return False
    if a[:len(b)] == b: return True
    if a[:len(b) - 1] != b[:-1]: return False
    x, y = _piece_as_slice(a[len(b) - 1]), _piece_as_slice(b[-1])
    return bool(x and y and x[0] is y[0] and x[1] is y[1] and _nonneg(sub(x[2], y[2])))


# ---------------------------------------------------------------- simplification under facts
def simp(t, facts):
    """the term with the branch facts applied"""
    if not facts: return t
    memo = {}
    eqs = {}
    for k, s in facts.items():
        v = s.single()
        if v is not None and k.op not in ("eq", "has", "any", "bcall", "cpred", "disc"):
            if s.kind == "S": eqs[k] = S(v)
            elif s.kind == "I" and k.op != "lin" and k.op not in ("sym",): eqs[k] = I(v)
    relevant = set(facts)

    def go(x):
        r = memo.get(x)
        if r is not None: return r
        if x.op == "dd":
            k = x.a[0]
            f = facts.get(k)
            if f is not None:
                br = [(s.inter(f), c) for s, c in x.a[1]]
                br = [(s, c) for s, c in br if not s.empty()]
                if len(br) == 1: r = go(br[0][1])
                else: r = rebuild("dd", (go1(k), tuple((s, go(c)) for s, c in br)))
            else:
                r = rebuild("dd", (go1(k), tuple((s, go(c)) for s, c in x.a[1])))
                if r.op == "dd" and r.a[0] is not k and r.a[0] in facts: r = go(r)
        elif x in eqs: r = eqs[x]
        else:
            na = tuple(_mapa(y, go) for y in x.a)
            r = x if na == x.a else rebuild(x.op, na)
            if r is not x and r.op == "dd": r = go(r)
        if r.op == "mins" and r.a[2].op == "mget" and r.a[2].a[0] is r.a[0] and r.a[2].a[1] is r.a[1]:
            if _known(facts, has(r.a[0], r.a[1])) is True: r = r.a[0]
        if r.op == "mrem" and _known(facts, has(r.a[0], r.a[1])) is False: r = r.a[0]
        memo[x] = r
        return r

    def go1(k):
        na = tuple(_mapa(y, go) for y in k.a)
        return k if na == k.a else rebuild(k.op, na)
    return go(t)


def _known(facts, b):
    """truth of a boolean term under the facts, or None"""
    if b.op == "bool": return b.a[0]
    if b.op != "dd": return None
    vals = set()
    for g, l in paths(b):
        feas = True
        for k, s in g.items():
            f = facts.get(k)
            if f is not None and f.inter(s).empty(): feas = False; break
        if feas: vals.add(l)
    if vals == {TRUE}: return True
    if vals == {FALSE}: return False
    return None


# ---------------------------------------------------------------- printing
def show(t, d=6):
    if d < 0: return "…"
    op, a = t.op, t.a
    sh = lambda x: show(x, d - 1)
    if op in ("int",): return str(a[0])
    if op == "str": return repr(a[0])
    if op == "bool": return str(a[0]).lower()
    if op == "sym": return a[0]
    if op in ("phi", "n", "hav"): return a[0]
    if op == "bv": return "$%d" % a[0]
    if op == "tup": return "(" + ", ".join(map(sh, a)) + ")"
    if op == "adt":
        nm = a[0].split("::")[-1]
        if a[0] == OPT: return "Some(%s)" % sh(a[2]) if a[1] else "None"
        if a[0] == RES: return ("Err(%s)" if a[1] else "Ok(%s)") % (sh(a[2]) if len(a) > 2 else "")
        return "%s%s{%s}" % (nm, "@%d" % a[1] if a[1] else "", ", ".join(map(sh, a[2:])))
    if op == "lin":
        s = " + ".join((sh(x) if k == 1 else "%d*%s" % (k, sh(x))) for x, k in a[1])
        return "(%s%s)" % (s, " %+d" % a[0] if a[0] else "")
    if op == "dd":
        return "[" + "; ".join("%s∈%r: %s" % (sh(a[0]), s, sh(c)) for s, c in a[1]) + "]"
    if op == "seq": return "⟨" + ", ".join(map(sh, a[0])) + "⟩"
    if op == "sl": return "%s[%s..%s]" % (sh(a[0]), sh(a[1]), sh(a[2]))
    if op == "one": return sh(a[0])
    if op == "comp": return "for %s<%s: %s" % ("$%d" % a[0].a[0], sh(a[1]), sh(a[0].a[1]))
    if op == "lam": return "λ%s.%s" % (a[0], sh(a[1]))
    if op == "fld": return "%s.%s" % (sh(a[0]), a[1])
    if op == "elem": return "%s[%s]" % (sh(a[0]), sh(a[1]))
    if op == "ref": return "&mut %s%s" % (a[0], "".join("." + str(p) for p in a[1]))
    def g(x):
        if isinstance(x, T): return sh(x)
        if isinstance(x, tuple): return "(" + ",".join(map(g, x)) + ")"
        return str(x)
    return "%s(%s)" % (op, ", ".join(map(g, a)))
