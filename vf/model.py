"""Models of the standard-library operations that the analysed code uses."""
import re
from terms import *
from interp import State, Limit, Impure, norm_path, bound

MODELS = {}


def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d


# ---------------------------------------------------------------- strings
def smap(f, t):
    if t.op == "dd": return map_leaves(t, f)
    return f(t)


def chars_of(s):
    if s.op == "str": return seq(*[mk("one", I(ord(c))) for c in s.a[0]])
    if s.op == "ofchars": return s.a[0]
    if s.op == "encbuf": return seq(mk("one", s.a[0]))
    return seq(mk("chars", s))


def mkstr(sq):
    if sq.op == "dd": return map_leaves(sq, mkstr)
    sq = as_seq(sq)
    ps = sq.a[0]
    if all(p.op == "one" and p.a[0].op == "int" for p in ps):
        return S("".join(chr(p.a[0].a[0]) for p in ps))
    if len(ps) == 1 and ps[0].op == "sl" and ps[0].a[0].op == "chars" and ps[0].a[1] is I(0) and ps[0].a[2] is baselen(ps[0].a[0]):
        return ps[0].a[0].a[0]
    return mk("ofchars", sq)
REB["ofchars"] = mkstr


@reb("chars")
def _reb_chars(s):
    if s.op in ("str", "ofchars"): return chars_of(s)
    return mk("chars", s)


def concat(*ss):
    return mkstr(seq(*[chars_of(s) for s in ss]))


def charset(v, t):
    """the set of characters c for which the boolean term t over the character v holds, or None"""
    r = IntSet([])
    for g, l in paths(as_bool(t)):
        if l.op != "bool": return None
        if any(k is not v for k in g): return None
        if l is TRUE: r = r.union(g.get(v, CHARS))
    return r.inter(CHARS)


WS = IntSet([(9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029),
             (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)])
CSET = {
    "is_whitespace": WS,
    "is_ascii": IntSet([(0, 127)]),
    "is_ascii_alphabetic": IntSet([(65, 90), (97, 122)]),
    "is_ascii_digit": IntSet([(48, 57)]),
    "is_ascii_alphanumeric": IntSet([(48, 57), (65, 90), (97, 122)]),
    "is_ascii_lowercase": IntSet([(97, 122)]),
    "is_ascii_uppercase": IntSet([(65, 90)]),
    "is_ascii_whitespace": IntSet([(9, 10), (12, 13), (32, 32)]),
    "is_ascii_punctuation": IntSet([(33, 47), (58, 64), (91, 96), (123, 126)]),
    "is_ascii_graphic": IntSet([(33, 126)]),
    "is_ascii_control": IntSet([(0, 31), (127, 127)]),
    "is_ascii_hexdigit": IntSet([(48, 57), (65, 70), (97, 102)]),
    "is_control": IntSet([(0, 31), (127, 159)]),
}


def digits(r):
    s = IntSet([(48, 48 + min(r, 10) - 1)])
    if r > 10: s = s.union(IntSet([(65, 65 + r - 11), (97, 97 + r - 11)]))
    return s


def _cset(name):
    def f(cx):
        v = cx.v(0)
        return cx.ret(inn(v, CSET[name]))
    return f
for _n_ in CSET:
    MODELS["char::" + _n_] = _cset(_n_)
    if "ascii" in _n_: MODELS["u8::" + _n_] = _cset(_n_)


def _cpred(name):
    def f(cx):
        v = cx.v(0)
        if v.op == "int":
            c = chr(v.a[0])
            if v.a[0] < 128: return cx.ret(B({"is_alphabetic": c.isalpha(), "is_numeric": c.isnumeric(), "is_alphanumeric": c.isalnum(),
                                              "is_lowercase": c.islower(), "is_uppercase": c.isupper()}[name]))
        return cx.ret(inn(mk("cpred", name, v), ONE))
    return f
for _n_ in ("is_alphabetic", "is_numeric", "is_alphanumeric", "is_lowercase", "is_uppercase"):
    MODELS["char::" + _n_] = _cpred(_n_)


@model("char::is_digit")
def m_isdigit(cx):
    r = cx.v(1)
    if r.op != "int": return None
    return cx.ret(inn(cx.v(0), digits(r.a[0])))


@model("char::to_digit")
def m_todigit(cx):
    r, v = cx.v(1), cx.v(0)
    if r.op != "int": return None
    b = inn(v, digits(r.a[0]))
    return cx.ret(ite(b, some(mk("digit", v, r)), NONE))


@model("char::len_utf8")
def m_lenutf8(cx): return cx.ret(blen_chars(seq(mk("one", cx.v(0)))))


@model("char::encode_utf8")
def m_encode(cx):
    return cx.ret(mkstr(seq(mk("one", cx.v(0)))))


@model("char::to_lowercase", "char::to_uppercase")
def m_clower(cx):
    op = "lowerc" if "lower" in cx.name else "upperc"
    return cx.ret(mkit(as_seq(casec(op, cx.v(0)))))


def casec(op, c):
    """the characters of the other case"""
    if c.op == "int":
        x = chr(c.a[0])
        return seq(*[mk("one", I(ord(y))) for y in (x.lower() if op == "lowerc" else x.upper())])
    return mk(op, c)
REB["lowerc"] = lambda c: casec("lowerc", c)
REB["upperc"] = lambda c: casec("upperc", c)


@model("char::to_ascii_lowercase", "u8::to_ascii_lowercase")
def m_calower(cx):
    v = cx.v(0)
    return cx.ret(ddcases([(g, add(v, I(32)) if l is TRUE else v) for g, l in paths(inn(v, IntSet([(65, 90)])))]))


@model("char::eq_ignore_ascii_case", "u8::eq_ignore_ascii_case")
def m_ceqi(cx):
    lo = lambda v: ddcases([(g, add(v, I(32)) if l is TRUE else v) for g, l in paths(inn(v, IntSet([(65, 90)])))])
    return cx.ret(chareq(lo(cx.v(0)), lo(cx.v(1))))


def chareq(a, b):
    if a.op == "dd" or b.op == "dd":
        return ddcases([(conj(g, h), chareq(x, y)) for g, x in paths(a) for h, y in paths(b) if conj(g, h) is not None])
    return inn(sub(a, b), ZERO)


@model("char::from_u32", "char::from_digit")
def m_cfrom(cx): return None


ID = ("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "BorrowMut::borrow_mut", "ToOwned::to_owned", "ToString::to_string",
      "String::as_str", "String::into_boxed_str", "str::into_string", "String::as_mut_str", "Vec::as_slice", "Vec::as_mut_slice", "Vec::into_boxed_slice",
      "slice::into_vec", "slice::to_vec", "Into::into", "From::from", "Clone::clone", "Box::new", "Box::into_inner",
      "Box::pin", "Rc::new", "Arc::new", "hint::must_use", "must_use", "identity", "convert::identity", "str::as_bytes_ref", "Cow::into_owned",
      "boxed::box_assume_init_into_vec_unsafe", "Box::leak", "slice::as_ref", "String::into_string", "str::to_owned_", "Vec::into_vec", "AsRef::as_ref",
      "TryInto::try_into_", "Vec::shrink_to_fit_", "iter::by_ref", "Option::as_deref_id", "array::as_slice", "Cell::new", "RefCell::new", "slice::as_slice",
      "str::as_str", "black_box", "hint::black_box", "array::each_ref", "into_boxed_str", "String::from_str", "alloc::from", "Iterator::by_ref",
      "str::to_string", "String::clone_id", "Box::from", "str::as_ref", "str::borrow", "str::to_owned", "Cow::to_mut_")


def m_id(cx): return cx.ret(cx.args[0])


def m_idv(cx):
    v = cx.args[0]
    return cx.ret(v)
for _n_ in ID: MODELS[_n_] = m_id


@model("Clone::clone", "ToOwned::to_owned", "str::to_owned", "ToString::to_string")
def m_clone(cx):
    v = cx.v(0)
    if cx.name.endswith("to_string"):
        t = cx.it.strip(cx.ty(0)) if cx.ty(0) is not None else None
        if t and t["k"] == "char": return cx.ret(mkstr(seq(mk("one", v))))
        if t and t["k"] in ("int", "float", "bool"): return cx.ret(mk("fmt", t["s"], v))
        if t and t["k"] == "adt" and t.get("local"): return None
    return cx.ret(cx.it.deep(cx.st, v) if v.op in ("tup", "adt") else v)


@model("Into::into", "From::from")
def m_into(cx):
    # From<char> for String, From<u8> for numbers and characters are value changes only in kind
    v = cx.args[0]
    rt = cx.it.ty(cx.rty)
    at = cx.it.strip(cx.atys[0]) if cx.atys else None
    if rt and rt["k"] == "adt":
        p = rt["path"].split("::")[-1]
        if p == "String" and at and at["k"] == "char": return cx.ret(mkstr(seq(mk("one", cx.v(0)))))
        if p in ("BTreeMap", "HashMap", "BTreeSet", "HashSet") and at and not at.get("path", "").endswith(p):
            return cx.ret(collect_to(cx, cx.rty, contents(cx.it, cx.st, cx.v(0))))
        if rt.get("local"): return None
        if p == "Option" and not (at and at.get("path", "").endswith("Option")): return cx.ret(some(v))
        if p == "Vec" and at and at["k"] == "str": return cx.ret(mk("bytes", cx.v(0)))
        if p == "Vec" and at and at.get("path", "").endswith("String"): return cx.ret(mk("bytes", cx.v(0)))
    if rt and rt["k"] == "float": return cx.ret(mk("i2f", rt["s"], cx.v(0)) if at and at["k"] == "int" else v)
    if rt and rt["k"] == "int" and at and at["k"] == "bool": return cx.ret(b2i(as_bool(cx.v(0))))
    return cx.ret(v)


@model("String::new", "String::with_capacity")
def m_snew(cx): return cx.ret(S(""))


@model("Vec::new", "Vec::with_capacity", "VecDeque::new")
def m_vnew(cx): return cx.ret(EMPTY)


@model("BTreeMap::new", "HashMap::new", "HashMap::with_capacity", "BTreeSet::new", "HashSet::new", "HashSet::with_capacity",
       "HashMap::with_hasher", "HashSet::with_hasher")
def m_mnew(cx): return cx.ret(MEMPTY)


@model("Default::default")
def m_default(cx):
    v = default_of(cx.it, cx.rty, cx.st)
    return cx.ret(v) if v is not None else None


def default_of(it, tid, st):
    t = it.ty(tid)
    if not t: return None
    k = t["k"]
    if k == "int": return I(0)
    if k == "bool": return FALSE
    if k == "float": return fl(0.0)
    if k == "char": return I(0)
    if k == "tuple":
        vs = [default_of(it, e, st) for e in t["elems"]]
        return tup(*vs) if all(v is not None for v in vs) else None
    if k == "ref":
        x = it.ty(t["to"])
        if x and x["k"] == "str": return S("")
        return None
    if k == "adt":
        p = t["path"].split("::")[-1]
        if p in ("BTreeMap", "HashMap", "BTreeSet", "HashSet"): return MEMPTY
        if p in ("Vec", "VecDeque"): return EMPTY
        if p == "String": return S("")
        if p == "Option": return NONE
        if p == "Box": return default_of(it, t["args"][0], st)
        if t.get("local"):
            for i in it.find(r"^<.* as std::default::Default>::default$"):
                b = it.insts[i]["body"]
                if b["locals"][0] == tid:
                    r = it.call_inst(i, [], st.copy())
                    if len(r) == 1: return r[0][1]
    return None


def fconst(v): return v.op == "float"


@model("str::len", "String::len")
def m_blen(cx): return cx.ret(blen(cx.v(0)))


def blen(s):
    if s.op == "dd": return map_leaves(s, blen)
    if s.op == "str": return I(len(s.a[0].encode()))
    if s.op == "ofchars": return blen_chars(s.a[0])
    if s.op == "bsub": return sub(s.a[2], s.a[1])
    if s.op == "alower": return blen(s.a[0])
    return mk("blen", s)
REB["blen"] = blen


def blen_chars(sq):
    ps = sq.a[0]
    if all(p.op == "one" and p.a[0].op == "int" for p in ps): return I(sum(len(chr(p.a[0].a[0]).encode()) for p in ps))
    if len(ps) == 1 and ps[0].op == "sl" and ps[0].a[0].op == "chars":
        s, a, b = ps[0].a[0].a[0], ps[0].a[1], ps[0].a[2]
        return sub(boff(s, b), boff(s, a))
    return mk("blen", mk("ofchars", sq))


def boff(s, n):
    """byte offset of character n"""
    if n is I(0): return I(0)
    if s.op == "str" and n.op == "int" and 0 <= n.a[0] <= len(s.a[0]): return I(len(s.a[0][:n.a[0]].encode()))
    if n is seqlen(chars_of(s)): return mk("blen", s)
    return mk("boff", s, n)
REB["boff"] = boff


@model("str::is_empty", "String::is_empty")
def m_sempty(cx): return cx.ret(smap(lambda s: inn(s, StrSet([""])), cx.v(0)))


@model("str::chars")
def m_chars(cx): return cx.ret(smap(lambda s: mkit(chars_of(s)), cx.v(0)))


@model("str::char_indices")
def m_cind(cx):
    def each(s):
        q = chars_of(s)
        n = fresh("n")
        return mkit(comp(lam(n, seq(mk("one", tup(boff(s, n), elem(q, n))))), seqlen(q)))
    return cx.ret(smap(each, cx.v(0)))
from terms import elem1 as _e1


@model("str::bytes", "str::as_bytes", "String::into_bytes", "String::as_bytes", "str::into_bytes")
def m_bytes(cx):
    s = cx.v(0)
    b = seq(*[mk("one", I(x)) for x in s.a[0].encode()]) if s.op == "str" else seq(mk("bytes", s))
    if cx.name.endswith("::bytes"): return cx.ret(mkit(b))
    return cx.ret(b)


@model("String::push")
def m_spush(cx):
    s = cx.st.copy()
    cx.it.store(s, cx.args[0], concat(cx.v(0), mkstr(seq(mk("one", cx.v(1))))))
    return (s, UNIT)


@model("String::push_str")
def m_spushs(cx):
    s = cx.st.copy()
    cx.it.store(s, cx.args[0], concat(cx.v(0), cx.v(1)))
    return (s, UNIT)


@model("String::clear")
def m_sclear(cx):
    s = cx.st.copy()
    cx.it.store(s, cx.args[0], S(""))
    return (s, UNIT)


@model("Add::add")
def m_add(cx):
    t = cx.it.strip(cx.atys[0])
    if t and t["k"] == "adt" and t["path"].endswith("String"): return cx.ret(concat(cx.v(0), cx.v(1)))
    if t and t["k"] == "int": return cx.ret(add(cx.v(0), cx.v(1)))
    return _arith("Add")(cx)


@model("Sub::sub")
def m_sub(cx):
    t = cx.it.strip(cx.atys[0])
    if t and t["k"] == "int": return cx.ret(sub(cx.v(0), cx.v(1)))
    return _arith("Sub")(cx)


def _arith(op):
    def f(cx):
        t = cx.it.strip(cx.atys[0])
        u = cx.it.strip(cx.atys[1]) if len(cx.atys) > 1 else t
        if t and u and t["k"] == "float" and u["k"] == "float":
            return cx.ret(cx.it.binop(op, cx.v(0), cx.v(1), cx.it.stripid(cx.atys[0]), False))
        if t and u and t["k"] == "int" and u["k"] == "int":
            if op in ("Add", "Sub"): return cx.ret((add if op == "Add" else sub)(cx.v(0), cx.v(1)))
            return cx.ret(cx.it.binop(op, cx.v(0), cx.v(1), cx.it.stripid(cx.atys[0]), False))
        return None
    return f
for _o_ in ("Mul", "Div", "Rem"): MODELS["%s::%s" % (_o_, _o_.lower())] = _arith(_o_)


@model("AddAssign::add_assign", "SubAssign::sub_assign")
def m_addassign(cx):
    t = cx.it.strip(cx.atys[0])
    s = cx.st.copy()
    if t and t["k"] == "int":
        cx.it.store(s, cx.args[0], (add if "Add" in cx.f["fn"] else sub)(cx.v(0), cx.v(1)))
        return (s, UNIT)
    if t and t["k"] == "adt" and t["path"].endswith("String"):
        cx.it.store(s, cx.args[0], concat(cx.v(0), cx.v(1)))
        return (s, UNIT)
    return None


def lower(s):
    if s.op == "dd": return map_leaves(s, lower)
    if s.op == "str": return S(rust_lower(s.a[0]))
    if s.op == "lower": return s
    return mk("lower", s)
REB["lower"] = lower


def rust_lower(x): return x.lower()


@model("str::to_lowercase")
def m_lower(cx): return cx.ret(lower(cx.v(0)))


def upper(s):
    if s.op == "dd": return map_leaves(s, upper)
    return S(s.a[0].upper()) if s.op == "str" else mk("upper", s)
REB["upper"] = upper


@model("str::to_uppercase")
def m_upper(cx): return cx.ret(upper(cx.v(0)))


def alower(s):
    if s.op == "dd": return map_leaves(s, alower)
    if s.op == "str": return S("".join(c.lower() if ord(c) < 128 else c for c in s.a[0]))
    if s.op == "alower": return s
    return mk("alower", s)
REB["alower"] = alower


def aupper(s):
    if s.op == "dd": return map_leaves(s, aupper)
    if s.op == "str": return S("".join(c.upper() if ord(c) < 128 else c for c in s.a[0]))
    if s.op == "aupper": return s
    return mk("aupper", s)
REB["aupper"] = aupper


@model("str::to_ascii_lowercase", "str::to_ascii_uppercase", "String::to_ascii_lowercase")
def m_alower(cx): return cx.ret(alower(cx.v(0)) if "lower" in cx.name else aupper(cx.v(0)))


@model("str::make_ascii_lowercase", "String::make_ascii_lowercase", "str::make_ascii_uppercase", "String::make_ascii_uppercase")
def m_malower(cx):
    s = cx.st.copy()
    cx.it.store(s, cx.args[0], (alower if "lower" in cx.name else aupper)(cx.v(0)))
    return (s, UNIT)


@model("str::eq_ignore_ascii_case")
def m_seqi(cx): return cx.ret(eq(alower(cx.v(0)), alower(cx.v(1))))


def alower_norm(t):
    return t


def pattern(cx, p, pty):
    """the character set of a string pattern argument, or None"""
    t = cx.it.ty(pty)
    v = cx.it.load(cx.st, p)
    if t and t["k"] == "char" or v.op == "int": return IntSet([(v.a[0], v.a[0])]) if v.op == "int" else None
    if v.op in ("clo", "fnp"):
        c = sym("$c", "char")
        b = cx.it.pure(cx.st, p, [c])
        return charset(c, b)
    st = cx.it.strip(pty)
    if v.op == "seq" and all(x.op == "one" and x.a[0].op == "int" for x in v.a[0]):
        return IntSet([(x.a[0].a[0], x.a[0].a[0]) for x in v.a[0]])
    if v.op == "str" and st and st["k"] == "str" and len(v.a[0]) == 1: return IntSet([(ord(v.a[0]), ord(v.a[0]))])
    return None


NONCASED = WS.union(IntSet([(45, 45)]))


def split_of(s, cs):
    if s.op == "lower" and cs.inter(NONCASED) == cs:
        b = seq(mk("split", s.a[0], cs))
        n = fresh("n")
        return comp(lam(n, seq(mk("one", lower(elem(b, n))))), seqlen(b))
    if s.op == "str":
        out, cur = [], ""
        for c in s.a[0]:
            if ord(c) in cs: out.append(cur); cur = ""
            else: cur += c
        return seq(*[mk("one", S(x)) for x in out + [cur]])
    return seq(mk("split", s, cs))


@reb("split")
def _reb_split(s, cs):
    return split_of(s, cs) if s.op in ("lower", "str") else mk("split", s, cs)


@model("str::split")
def m_split(cx):
    cs = pattern(cx, cx.args[1], cx.atys[1])
    if cs is None: return m_sfn(cx)
    return cx.ret(mkit(split_of(cx.v(0), cs)))


@model("str::split_whitespace", "str::split_ascii_whitespace")
def m_splitws(cx):
    return cx.ret(mkit(nonempty(split_of(cx.v(0), WS if "ascii" not in cx.name else CSET["is_ascii_whitespace"]))))


def nonempty(sq):
    n = fresh("n")
    e = elem(sq, n)
    return comp(lam(n, ite(inn(e, StrSet([""])), EMPTY, seq(mk("one", e)))), seqlen(sq))


def trimset(s, lo, hi):
    if s.op == "dd": return map_leaves(s, lambda l: trimset(l, lo, hi))
    if lo.empty() and hi.empty(): return s
    if s.op == "str":
        x = s.a[0]
        while x and ord(x[0]) in lo: x = x[1:]
        while x and ord(x[-1]) in hi: x = x[:-1]
        return S(x)
    if s.op == "elem" and s.a[0].op == "split":
        cs = s.a[0].a[1]
        lo, hi = lo.inter(cs.compl()), hi.inter(cs.compl())
        if lo.empty() and hi.empty(): return s
    if s.op == "lower" and lo.inter(NONCASED) == lo and hi.inter(NONCASED) == hi: return lower(trimset(s.a[0], lo, hi))
    if s.op == "trimset":
        # trimming both ends in two steps
        if s.a[1].inter(lo) == s.a[1] and hi.inter(s.a[2]) == hi and s.a[2].inter(lo) == s.a[2] and False: pass
        if s.a[2].empty() and lo.empty() and s.a[1] == hi: return mk("trimset", s.a[0], s.a[1], hi)
        if s.a[1].empty() and hi.empty() and s.a[2] == lo: return mk("trimset", s.a[0], lo, s.a[2])
        if s.a[1] == lo and s.a[2] == hi: return s
    return mk("trimset", s, lo, hi)
REB["trimset"] = trimset
NOCH = IntSet([])


@model("str::trim", "str::trim_start", "str::trim_end", "str::trim_left", "str::trim_right",
       "str::trim_matches", "str::trim_start_matches", "str::trim_end_matches", "str::trim_left_matches", "str::trim_right_matches")
def m_trim(cx):
    if "matches" in cx.name:
        cs = pattern(cx, cx.args[1], cx.atys[1])
        if cs is None:
            a = sargs(cx)
            nm = cx.name.split("::")[-1].replace("_left_", "_start_").replace("_right_", "_end_")
            return None if a is None else cx.ret(sfn("trim_matches_str" if nm == "trim_matches" else nm, cx.v(0), *a))
    else: cs = WS
    n = cx.name
    return cx.ret(trimset(cx.v(0), NOCH if "_end" in n or "_right" in n else cs, NOCH if "_start" in n or "_left" in n else cs))


def spred(cx, name):
    a = cx.v(0)
    t = cx.it.strip(cx.atys[1])
    b = cx.it.load(cx.st, cx.args[1])
    if b.op == "int": b = S(chr(b.a[0]))
    if b.op in ("clo", "fnp") or (b.op == "seq"):
        cs = pattern(cx, cx.args[1], cx.atys[1])
        if cs is None: return None
        if name == "contains":
            sq = chars_of(a)
            n = fresh("n")
            return any_(lam(n, inn(elem(sq, n), cs)), seqlen(sq))
        return inn(mk("spred", name, a, cs), ONE)
    if a.op == "str" and b.op == "str":
        return B({"contains": b.a[0] in a.a[0], "starts_with": a.a[0].startswith(b.a[0]), "ends_with": a.a[0].endswith(b.a[0])}[name])
    if b.op == "str" and b.a[0] == "": return TRUE
    return inn(mk("spred", name, a, b), ONE)


@reb("spred")
def _reb_spred(name, a, b):
    if name == "rx":
        if b.op == "str" and a.op == "regex" and a.a[0].op == "str":
            import rx
            try: return B(bool(rx.find_all(rx.parse(a.a[0].a[0]), b.a[0])))
            except (rx.Bad, ValueError, KeyError, IndexError): pass
        return mk("spred", name, a, b)
    if a.op == "str" and isinstance(b, T) and b.op == "str":
        return B({"contains": b.a[0] in a.a[0], "starts_with": a.a[0].startswith(b.a[0]), "ends_with": a.a[0].endswith(b.a[0])}[name])
    if a.op == "str" and isinstance(b, IntSet):
        x = a.a[0]
        if name == "contains": return B(any(ord(c) in b for c in x))
        return B(bool(x) and ord(x[0] if name == "starts_with" else x[-1]) in b)
    return mk("spred", name, a, b)


# string functions kept as symbols, folded on constant texts
def _boff(x, k): return I(len(x[:k].encode("utf-8", "surrogatepass")))


def _hit(x, p, rev=False):
    """(begin, end) of the first or last match of a text or character set"""
    if isinstance(p, str):
        k = x.rfind(p) if rev else x.find(p)
        return (k, k + len(p)) if k >= 0 else None
    ks = [k for k, c in enumerate(x) if ord(c) in p]
    return (ks[-1 if rev else 0],) * 1 + (ks[-1 if rev else 0] + 1,) if ks else None


def _cuts(x, p):
    if isinstance(p, str) and p == "": return None
    out, k = [], 0
    while True:
        h = _hit(x[k:], p)
        if h is None: break
        out.append((k + h[0], k + h[1])); k += h[1]
    return out


def _strs(xs): return seq(*[mk("one", S(x)) for x in xs])


def _pieces(x, p, cuts=None):
    cuts = _cuts(x, p) if cuts is None else cuts
    if cuts is None: return None
    out, k = [], 0
    for a, b in cuts: out.append(x[k:a]); k = b
    return out + [x[k:]]


def _f_replace(x, p, by):
    ps = _pieces(x, p)
    return None if ps is None else S(by.join(ps))


def _f_replacen(x, p, by, n):
    c = _cuts(x, p)
    return None if c is None else S(by.join(_pieces(x, p, c[:n])))


def _f_strip(x, p, end):
    if isinstance(p, str):
        ok = x.endswith(p) if end else x.startswith(p)
        return some(S(x[:len(x) - len(p)] if end else x[len(p):])) if ok else NONE
    ok = x and ord(x[-1 if end else 0]) in p
    return some(S(x[:-1] if end else x[1:])) if ok else NONE


def _f_find(x, p, rev=False):
    h = _hit(x, p, rev)
    return NONE if h is None else some(_boff(x, h[0]))


def _f_once(x, p, rev=False):
    h = _hit(x, p, rev)
    return NONE if h is None else some(tup(S(x[:h[0]]), S(x[h[1]:])))


def _f_splitn(x, n, p):
    c = _cuts(x, p)
    if c is None: return None
    return EMPTY if n == 0 else _strs(_pieces(x, p, c[:n - 1]))


def _f_rsplitn(x, n, p):
    c = _cuts(x, p)
    if c is None: return None
    return EMPTY if n == 0 else _strs(reversed(_pieces(x, p, c[max(0, len(c) - (n - 1)):] if n > 1 else [])))


def _f_term(x, p):
    ps = _pieces(x, p)
    if ps is None: return None
    return _strs(ps[:-1] if ps[-1] == "" else ps)


def _f_incl(x, p):
    c = _cuts(x, p)
    if c is None: return None
    out, k = [], 0
    for a, b in c: out.append(x[k:b]); k = b
    return _strs(out + ([x[k:]] if k < len(x) else []))


def _f_lines(x):
    ps = x.split("\n")
    if ps[-1] == "": ps = ps[:-1]
    return _strs([y[:-1] if y.endswith("\r") else y for y in ps])


def _f_trim(x, p, lo, hi):
    if p == "": return None
    while lo and x.startswith(p): x = x[len(p):]
    while hi and x.endswith(p): x = x[:len(x) - len(p)]
    return S(x)


SFN = {
    "replace": _f_replace, "replacen": _f_replacen,
    "strip_prefix": lambda x, p: _f_strip(x, p, False), "strip_suffix": lambda x, p: _f_strip(x, p, True),
    "find": _f_find, "rfind": lambda x, p: _f_find(x, p, True),
    "split_once": _f_once, "rsplit_once": lambda x, p: _f_once(x, p, True),
    "split": lambda x, p: (lambda ps: None if ps is None else _strs(ps))(_pieces(x, p)),
    "rsplit": lambda x, p: (lambda ps: None if ps is None else _strs(reversed(ps)))(_pieces(x, p)),
    "splitn": _f_splitn, "rsplitn": _f_rsplitn, "split_terminator": _f_term, "split_inclusive": _f_incl, "lines": _f_lines,
    "matches": lambda x, p: (lambda c: None if c is None else _strs([x[a:b] for a, b in c]))(_cuts(x, p)),
    "repeat": lambda x, n: S(x * n) if len(x) * n < 10000 else None,
    "trim_start_matches": lambda x, p: _f_trim(x, p, True, False), "trim_end_matches": lambda x, p: _f_trim(x, p, False, True), "trim_matches_str": lambda x, p: _f_trim(x, p, True, True),
}
SFN_SEQ = {"split", "rsplit", "splitn", "rsplitn", "split_terminator", "split_inclusive", "lines", "matches"}


@reb("sfn")
def sfn(name, *args):
    raw = []
    for a in args:
        if isinstance(a, T):
            if a.op == "dd": return map_leaves(a, lambda l: sfn(name, *[l if y is a else y for y in args]))
            if a.op not in ("str", "int"): return mk("sfn", name, *args)
            raw.append(a.a[0])
        else: raw.append(a)
    r = SFN[name](*raw)
    return mk("sfn", name, *args) if r is None else r


def sargs(cx, k0=1):
    """pattern and text arguments as terms or character sets; None when a pattern is not known"""
    out = []
    for k in range(k0, len(cx.args)):
        v = cx.it.load(cx.st, cx.args[k])
        if v.op in ("str", "int") and not (v.op == "int" and cx.it.ty(cx.atys[k]) and cx.it.ty(cx.atys[k])["k"] == "char"): out.append(v); continue
        if v.op == "int": out.append(S(chr(v.a[0]))); continue
        if v.op in ("clo", "fnp", "seq"):
            cs = pattern(cx, cx.args[k], cx.atys[k])
            if cs is None: return None
            out.append(cs)
            continue
        t = cx.it.strip(cx.atys[k])
        if t and t["k"] == "char": v = mkstr(seq(mk("one", v)))
        out.append(v)
    return out


@model("str::strip_prefix", "str::strip_suffix", "str::find", "str::rfind", "str::split_once", "str::rsplit_once", "str::replacen", "str::repeat",
       "str::rsplit", "str::splitn", "str::rsplitn", "str::split_terminator", "str::split_inclusive", "str::lines", "str::matches")
def m_sfn(cx):
    name = cx.name.split("::")[-1]
    a = sargs(cx)
    if a is None: return None
    v = sfn(name, cx.v(0), *a)
    if name in SFN_SEQ: return cx.ret(mkit(as_seq(v)))
    return cx.ret(v)


@model("str::contains", "str::starts_with", "str::ends_with")
def m_spred(cx):
    r = spred(cx, cx.name.split("::")[-1])
    return cx.ret(r) if r is not None else None


@model("str::replace")
def m_replace(cx):
    cs = pattern(cx, cx.args[1], cx.atys[1])
    if cs is None:
        a = sargs(cx)
        return None if a is None else cx.ret(sfn("replace", cx.v(0), *a))
    return cx.ret(repl_chars(cx.v(0), cs, cx.v(2)))


def repl_chars(s, cs, by):
    sq = chars_of(s)
    n = fresh("n")
    e = elem(sq, n)
    return mkstr(comp(lam(n, ite(inn(e, cs), chars_of(by), seq(mk("one", e)))), seqlen(sq)))


@model("String::retain")
def m_sretain(cx):
    sq = chars_of(cx.v(0))
    n, t = cx.it.lam_over(cx.st, cx.args[1], sq)
    e = elem(sq, n)
    s = cx.st.copy()
    cx.it.store(s, cx.args[0], mkstr(comp(lam(n, ite(t, seq(mk("one", e)), EMPTY)), seqlen(sq))))
    return (s, UNIT)


# ---------------------------------------------------------------- formatting
def tmpl(bs):
    out, i = [], 0
    lit = b""
    while i < len(bs):
        b = bs[i]
        if b == 0: break
        if b < 0x80:
            out.append(("lit", bytes(bs[i + 1:i + 1 + b]).decode()))
            i += 1 + b
        elif b == 0x80:
            n = bs[i + 1] | bs[i + 2] << 8
            out.append(("lit", bytes(bs[i + 3:i + 3 + n]).decode()))
            i += 3 + n
        else:
            f = b
            i += 1
            spec = 0
            if f & 1: spec = 1; i += 4
            if f & 2: spec = 1; i += 2
            if f & 4: spec = 1; i += 2
            ix = None
            if f & 8:
                ix = bs[i] | bs[i + 1] << 8
                i += 2
            out.append(("arg", ix, spec))
    return out


@model("core::fmt::rt::Argument::new_display", "Argument::new_display", "Argument::new_debug", "Argument::new_lower_hex")
def m_arg(cx):
    t = cx.it.strip(cx.ty(0)) if cx.ty(0) is not None else None
    if t is None and cx.atys: t = cx.it.strip(cx.atys[0])
    kind = "?"
    if t:
        kind = t["k"]
        if t["k"] == "adt" and t["path"].endswith("String"): kind = "str"
        if t["k"] == "adt" and t["path"].endswith("Cow"): kind = "str"
    return cx.ret(mk("fa", cx.name.split("_")[-1], kind, cx.v(0)))


@model("Arguments::new", "Arguments::new_v1", "Arguments::new_const", "Arguments::from_str", "Arguments::from_str_nonconst")
def m_args(cx):
    return cx.ret(mk("fargs", *[cx.v(k) for k in range(len(cx.args))]))


def fmt_text(fa):
    a = fa.a
    if len(a) == 1: return a[0]
    t, args = a[0], as_seq(a[1])
    if t.op == "seq" and all(p.op == "one" and p.a[0].op == "int" for p in t.a[0]): t = mk("bytes", tuple(p.a[0].a[0] for p in t.a[0]))
    if t.op == "adt" and len(t.a) == 3: t = t.a[2]
    if t.op != "bytes" or not isinstance(t.a[0], tuple): return None
    parts, k = [], 0
    for p in tmpl(t.a[0]):
        if p[0] == "lit": parts.append(S(p[1]))
        else:
            ix = p[1] if p[1] is not None else k
            k = ix + 1
            x = elem(args, I(ix))
            if x.op != "fa" or x.a[0] != "display" or p[2]: parts.append(mk("fmt", "spec", x)); continue
            if x.a[1] == "str": parts.append(x.a[2])
            elif x.a[1] == "char": parts.append(mkstr(seq(mk("one", x.a[2]))))
            elif x.a[1] == "int" and x.a[2].op == "int": parts.append(S(str(x.a[2].a[0])))
            else: parts.append(mk("fmt", x.a[1], x.a[2]))
    return concat(*parts) if parts else S("")


@model("fmt::format", "std::fmt::format", "alloc::fmt::format")
def m_format(cx):
    fa = cx.v(0)
    r = fmt_text(fa) if fa.op == "fargs" else None
    return cx.ret(r if r is not None else mk("fmt", "unknown", fa))


PANICS = re.compile(r"(^|::)(panic|panic_fmt|panic_display|panic_str|unreachable_display|panic_explicit|panic_nounwind|panic_bounds_check|unwrap_failed|expect_failed|"
                    r"slice_error_fail|begin_panic|assert_failed|panic_any|panic_str_2015|unreachable|assert_failed_inner|option_unwrap_failed|resume_unwind|abort|exit)$")


def is_panic(p):
    return bool(PANICS.search(re.sub(r"::<.*", "", p))) and not p.startswith("regex")


def panic_text(it, st, args):
    out = []
    for a in args:
        v = it.load(st, a)
        if v.op == "fargs":
            t = fmt_text(v)
            out.append(show(t) if t is not None else "")
        elif v.op == "str": out.append(v.a[0])
    return " ".join(out)


# ---------------------------------------------------------------- Option helpers that must not fork
def opt(b, v):
    """Some(v) when b"""
    return ddcases([(g, some(simp(v, g)) if l is TRUE else NONE) for g, l in paths(as_bool(b))])


@model("Option::as_ref", "Option::as_deref", "Option::cloned", "Option::copied", "Option::as_slice_", "Result::as_ref", "Option::as_deref_id")
def m_optid(cx): 
    v = cx.v(0)
    return cx.ret(v)


@model("Option::as_mut", "Option::as_deref_mut", "Option::insert_")
def m_optmut(cx):
    r = cx.args[0]
    if r.op != "ref": return None
    out = []
    for s, l in cx.it.split(cx.st, disc(cx.v(0), 2)):
        pass
    v = cx.v(0)
    for s, b in cx.it.decide(cx.st, inn(disc(v, 2), ONE)):
        r2 = cx.it.target(s, r)
        out.append((s, some(mk("ref", r2.a[0], r2.a[1] + (("f", 0, False, 1),))) if b else NONE))
    return out


@model("Option::is_some", "Option::is_none")
def m_optis(cx):
    return cx.ret(inn(disc(cx.v(0), 2), ONE if "some" in cx.name else ZERO))


@model("Option::take")
def m_opttake(cx):
    v = cx.v(0)
    s = cx.st.copy()
    cx.it.store(s, cx.args[0], NONE)
    return (s, v)


@model("Option::insert", "Option::get_or_insert_with_")
def m_optins(cx):
    s = cx.st.copy()
    cx.it.store(s, cx.args[0], some(cx.args[1]))
    r = cx.it.target(s, cx.args[0])
    return (s, mk("ref", r.a[0], r.a[1] + (("f", 0, False, 1),)))


@model("Option::iter", "Option::into_iter_")
def m_optiter(cx):
    return [(s, mkit(contents(cx.it, s, v))) for s, v in cx.it.split(cx.st, cx.v(0))]


# ---------------------------------------------------------------- memory
@model("mem::take")
def m_memtake(cx):
    v = cx.v(0)
    d = default_of(cx.it, cx.it.ty(cx.atys[0])["to"], cx.st)
    if d is None: return None
    s = cx.st.copy()
    cx.it.store(s, cx.args[0], d)
    return (s, v)


@model("mem::replace", "Option::replace")
def m_memreplace(cx):
    v = cx.v(0)
    s = cx.st.copy()
    cx.it.store(s, cx.args[0], cx.args[1] if cx.name.startswith("mem") else some(cx.args[1]))
    return (s, v)


@model("mem::swap")
def m_memswap(cx):
    a, b = cx.v(0), cx.v(1)
    s = cx.st.copy()
    cx.it.store(s, cx.args[0], b)
    cx.it.store(s, cx.args[1], a)
    return (s, UNIT)


@model("mem::drop", "drop", "mem::forget")
def m_drop(cx): return cx.ret(UNIT)


@model("mem::size_of", "mem::align_of", "mem::needs_drop")
def m_sizeof(cx): return cx.ret(mk("sym", cx.name + str(cx.f.get("args")), "usize"))


@model("Box::new_uninit", "boxed::box_new_uninit", "MaybeUninit::uninit")
def m_uninit(cx):
    if "Box" in cx.name or "box" in cx.name: return cx.ret(UNDEF)
    return cx.ret(UNDEF)


@model("Box::write")
def m_boxwrite(cx): return cx.ret(cx.args[1])


@model("Box::assume_init", "MaybeUninit::assume_init")
def m_assume(cx): return cx.ret(cx.args[0])


# ---------------------------------------------------------------- comparison
ORD = "std::cmp::Ordering"


@model("PartialEq::eq", "PartialEq::ne")
def m_eq(cx):
    t = cx.it.strip(cx.atys[0])
    a, b = cx.it.deep(cx.st, cx.args[0]), cx.it.deep(cx.st, cx.args[1])
    if t and t["k"] in ("int", "char"): e = chareq(a, b)
    elif t and t["k"] == "float": e = inn(mk("feq", *sorted([a, b])), ONE)
    elif t and t["k"] == "adt" and t.get("local") and t["path"] in cx.it.uninterp_eq:
        e = eq(a, b)
    elif t and t["k"] == "adt" and t.get("local"): return None
    else: e = eq(a, b)
    return cx.ret(e if cx.f["fn"].endswith("eq") else bnot(e))


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def m_ord(cx):
    t = cx.it.strip(cx.atys[0])
    a, b = cx.v(0), cx.v(1)
    m = cx.f["fn"].split("::")[-1]
    if t and t["k"] in ("int", "char"):
        return cx.ret({"lt": lt(a, b), "le": le(a, b), "gt": lt(b, a), "ge": le(b, a)}[m])
    return cx.ret(inn(mk("bcall", "ord:" + m, a, b), ONE))


@model("Ord::cmp", "PartialOrd::partial_cmp")
def m_cmp(cx):
    t = cx.it.strip(cx.atys[0])
    a, b = cx.v(0), cx.v(1)
    if t and t["k"] in ("int", "char"):
        d = sub(a, b)
        r = ddcases([(g, adt(ORD, i)) for i, s in ((0, IntSet([(NEG, -1)])), (1, ZERO), (2, IntSet([(1, POS)])))
                     for g, l in paths(inn(d, s)) if l is TRUE])
        return cx.ret(r if cx.f["fn"].endswith("::cmp") else map_leaves(r, some))
    return None


@model("Ord::max", "Ord::min", "cmp::max", "cmp::min")
def m_maxmin(cx):
    t = cx.it.ty(cx.rty)
    if not t or t["k"] != "int": return None
    a, b = cx.v(0), cx.v(1)
    mx = cx.f["fn"].endswith("max")
    return cx.ret(ddcases([(g, (b if l is TRUE else a) if mx else (a if l is TRUE else b)) for g, l in paths(lt(a, b))]))


# ---------------------------------------------------------------- numbers
def _num(op):
    def f(cx): return cx.ret(mk(op, *[cx.v(k) for k in range(len(cx.args))]))
    return f
MODELS["f64::sqrt"] = lambda cx: cx.ret(mk("sqrt", "f64", cx.v(0)))
MODELS["f32::sqrt"] = lambda cx: cx.ret(mk("sqrt", "f32", cx.v(0)))
MODELS["std::f64::<impl f64>::sqrt"] = MODELS["f64::sqrt"]


@model(*[t + "::" + n for t in ("f64", "f32", "std::f64::<impl f64>") for n in "powf powi ln log10 abs floor ceil round cbrt log2 exp trunc ln_1p recip min max signum mul_add hypot rem_euclid clamp log exp2".split()])
def m_f(cx):
    if cx.name.endswith("f64::powf") and cx.v(1).op == "float" and cx.v(1).a[-1] in (0.5, "0.5"): return cx.ret(mk("sqrt", "f64", cx.v(0)))
    return cx.ret(mk("fn", cx.name, *[cx.v(k) for k in range(len(cx.args))]))


for _t_ in ("usize", "u64", "u32", "i64", "i32", "u8", "u16", "isize"):
    def _mk(op, tt):
        def f(cx):
            a, b = cx.v(0), cx.v(1)
            if op == "saturating_sub": return cx.ret(ite(lt(a, b), I(0), sub(a, b)) if tt[0] == "u" else sub(a, b))
            if op in ("wrapping_add", "saturating_add"): return cx.ret(add(a, b) if tt in ("usize", "u64", "i64") or op == "x" else mk("trunc", tt + op, add(a, b)))
            if op == "wrapping_sub": return cx.ret(sub(a, b) if tt == "i64" else map_leaves(ite(lt(a, b), mk("wrap", tt, sub(a, b)), sub(a, b)), lambda x: x))
            if op == "checked_sub": return cx.ret(ite(lt(a, b), NONE, some(sub(a, b))) if tt[0] == "u" else some(sub(a, b)))
            if op == "checked_add": return cx.ret(some(add(a, b)) if tt in ("usize", "u64", "i64") else mk("call", "checked_add" + tt, a, b))
            return None
        return f
    for _o_ in ("saturating_sub", "wrapping_add", "saturating_add", "wrapping_sub", "checked_sub", "checked_add"):
        MODELS[_t_ + "::" + _o_] = _mk(_o_, _t_)


# ---------------------------------------------------------------- iterators
RANGE = "std::ops::Range"


def mkit(sq, lo=None, hi=None):
    sq = as_seq(sq)
    return mk("it", sq, lo or I(0), hi or seqlen(sq))


def rest(v):
    """the sequence of the elements still to come"""
    s, lo, hi = v.a
    return slice_(s, lo, hi)


def contents(it, st, v):
    """elements of a collection or iterator value as a sequence"""
    v = it.load(st, v)
    if v.op == "it": return rest(v)
    if v.op == "seq": return v
    if v.op == "adt":
        p = v.a[0]
        if p == RANGE: return seq(mk("range", v.a[2], v.a[3]))
        if p == OPT: return seq(mk("one", v.a[2])) if v.a[1] else EMPTY
        if p == RES: return seq(mk("one", v.a[2])) if v.a[1] == 0 else EMPTY
        if p.startswith("$"): raise Impure("lazy " + p)
    if v.op == "dd":
        return None
    if v.op in ("mempty", "mins", "mrem", "setof"): return items(v)
    if v.op == "fold": return items(v)
    return seq(v)


def items(m, what="mitems"):
    if m.op == "mempty": return EMPTY
    return seq(mk(what, m))


@reb("mitems")
def _reb_mitems(m): return EMPTY if m.op == "mempty" else mk("mitems", m)


@reb("hitems")
def _reb_hitems(m): return EMPTY if m.op == "mempty" else mk("hitems", m)


def hashy(t):
    return t and t["k"] == "adt" and t["path"].split("::")[-1] in ("HashMap", "HashSet")


def coll_seq(it, st, v, tid, part=None):
    """sequence iterated by a collection of the given type"""
    t = it.strip(tid) if tid is not None else None
    v = it.load(st, v)
    if v.op in ("it",): return rest(v)
    if t and t["k"] == "adt":
        p = t["path"].split("::")[-1]
        if p in ("BTreeMap", "HashMap", "BTreeSet", "HashSet"):
            if v.op == "mempty": return EMPTY
            pre = "h" if p.startswith("Hash") else "m"
            if pre == "h": it.hash_iter.append(show(v))
            isset = p.endswith("Set")
            base = seq(mk("hitems", v)) if pre == "h" else seq(mk("mitems", v))
            if part is None and not isset: return base
            n = fresh("n")
            e = elem(base, n)
            return comp(lam(n, seq(mk("one", fld(e, 1) if part == 1 else fld(e, 0)))), seqlen(base))
        if p == "String": return chars_of(v)
        if p in ("Option", "Result") and v.op not in ("adt", "dd", "seq"):
            k = 1 if p == "Option" else 0
            b = ite(inn(disc(v, 2), IntSet([(k, k)])), seq(mk("one", fld(v, 0, k))), EMPTY)
            return comp(lam(fresh("n"), b), I(1))
    return contents(it, st, v)


@model("IntoIterator::into_iter", "slice::iter", "Vec::iter", "BTreeMap::iter", "HashMap::iter", "HashSet::iter", "BTreeSet::iter", "array::iter",
       "BTreeMap::into_iter", "VecDeque::iter")
def m_iter(cx):
    t = cx.it.ty(cx.atys[0]) if cx.atys else None
    v = cx.args[0]
    if v.op == "ref":
        tv = cx.it.load(cx.st, v)
        if tv.op == "it" or (tv.op == "adt" and (tv.a[0].startswith("$") or tv.a[0] == RANGE)): return cx.ret(v)
        if t and t["k"] == "ref" and t.get("mut"):
            inner = cx.it.strip(cx.atys[0])
            if inner and (inner["k"] in ("slice", "array") or inner.get("path", "").split("::")[-1] in ("Vec",)):
                return cx.ret(mutit(cx, v))
            return cx.ret(v) if inner and inner["k"] not in ("adt",) else None
    v = cx.v(0)
    if v.op == "it" or (v.op == "adt" and (v.a[0].startswith("$") or v.a[0] == RANGE)): return cx.ret(v)
    st = cx.it.strip(cx.atys[0]) if cx.atys else None
    if st and st["k"] == "adt" and st["path"].startswith("std::") and ("iter" in st["path"].split("::") or st["path"].split("::")[-1] in ("Drain", "Chars", "Iter", "IntoIter")) and v.op != "seq":
        if v.op not in ("mins", "mempty", "mrem"): return cx.ret(mkit(seq(v)))
    out = []
    for s, l in cx.it.split(cx.st, v):
        sq = coll_seq(cx.it, s, l, cx.atys[0] if cx.atys else None)
        if sq is None: return None
        out.append((s, mkit(sq)))
    return out


def mutit(cx, ref):
    r = cx.it.target(cx.st, ref)
    return adt("$Mut", 0, r, I(0), seqlen(as_seq(cx.it.load(cx.st, r))))


@model("slice::iter_mut", "Vec::iter_mut")
def m_itermut(cx):
    if cx.args[0].op != "ref": return None
    return cx.ret(mutit(cx, cx.args[0]))


@model("BTreeMap::keys", "BTreeMap::values", "HashMap::keys", "HashMap::values", "BTreeMap::into_keys", "BTreeMap::into_values", "HashMap::into_values", "HashMap::into_keys")
def m_keys(cx):
    return cx.ret(mkit(coll_seq(cx.it, cx.st, cx.v(0), cx.atys[0], 0 if "keys" in cx.name else 1)))


@model("BTreeMap::values_mut", "HashMap::values_mut", "BTreeMap::iter_mut", "HashMap::iter_mut")
def m_valuesmut(cx): return None


@model("Vec::drain")
def m_drain(cx):
    sq = as_seq(cx.v(0))
    r = cx.v(1)
    h = seqlen(sq)
    lo, hi = range_bounds(r, h)
    if lo is None: return None
    out = []
    for s, b in cx.it.decide(cx.st, band(le(lo, hi), le(hi, h))):
        if not b: cx.panic(s, "drain range"); continue
        s = s.copy()
        cx.it.store(s, cx.args[0], seq(slice_(sq, I(0), lo), slice_(sq, hi, h)))
        out.append((s, mkit(slice_(sq, lo, hi))))
    return out


def range_bounds(r, n):
    if r.op != "adt": return None, None
    p = r.a[0].split("::")[-1]
    if p == "RangeFull": return I(0), n
    if p == "Range": return r.a[2], r.a[3]
    if p == "RangeFrom": return r.a[2], n
    if p == "RangeTo": return I(0), r.a[2]
    if p == "RangeInclusive": return r.a[2], add(r.a[3], I(1))
    if p == "RangeToInclusive": return I(0), add(r.a[2], I(1))
    return None, None


@model("RangeInclusive::new")
def m_rinc(cx): return cx.ret(adt(RANGE, 0, cx.v(0), add(cx.v(1), I(1))))


@model("Range::contains", "RangeInclusive::contains", "RangeFrom::contains", "RangeTo::contains", "RangeToInclusive::contains")
def m_rcontains(cx):
    t = cx.it.strip(cx.atys[1])
    r, x = cx.v(0), cx.v(1)
    if not t or t["k"] not in ("int", "char") or r.op != "adt": return None
    p = r.a[0].split("::")[-1]
    lo, hi = range_bounds(r, None)
    b = TRUE if p in ("RangeTo", "RangeToInclusive") else le(lo, x)
    return cx.ret(b if hi is None else band(b, lt(x, hi)))


def step(it, st, ref):
    """one next() on the iterator behind ref: [(state, option)]"""
    ref = it.target(st, ref)
    v = it.load1(st, ref)
    if v.op == "dd":
        out = []
        for s, l in it.split(st, v):
            it.store(s, ref, l)
            out += step(it, s, ref)
        return out
    if v.op == "it":
        s, lo, hi = v.a
        out = []
        for s2, b in it.decide(st, lt(lo, hi)):
            if not b:
                out.append((s2, NONE))
                continue
            s2 = s2.copy()
            it.store(s2, ref, mk("it", s, add(lo, I(1)), hi))
            out.append((s2, some(simp(elem(s, lo), s2.facts))))
        return out
    if v.op == "adt" and v.a[0] == RANGE:
        lo, hi = v.a[2], v.a[3]
        out = []
        for s2, b in it.decide(st, lt(lo, hi)):
            if not b: out.append((s2, NONE)); continue
            s2 = s2.copy()
            it.store(s2, ref, adt(RANGE, 0, add(lo, I(1)), hi))
            out.append((s2, some(lo)))
        return out
    if v.op == "adt" and v.a[0] == "std::ops::RangeFrom":
        s2 = st.copy()
        it.store(s2, ref, adt(v.a[0], 0, add(v.a[2], I(1))))
        return [(s2, some(v.a[2]))]
    if v.op == "adt" and v.a[0].startswith("$"): return lazy_step(it, st, ref, v)
    if v.op == "adt" and v.a[0] == OPT:      # option::IntoIter
        s2 = st.copy()
        it.store(s2, ref, NONE)
        return [(s2, v)]
    if v.op in ("seq",):
        s2 = st.copy()
        it.store(s2, ref, mkit(v))
        return step(it, s2, ref)
    # an unknown iterator: some sequence of unknown elements
    s2 = st.copy()
    it.store(s2, ref, mkit(seq(v)))
    return step(it, s2, ref)


def sub_ref(ref, i): return mk("ref", ref.a[0], ref.a[1] + (("f", i, False),))


def lazy_step(it, st, ref, v):
    k = v.a[0]
    out = []
    if k == "$Mut":
        r, lo, hi = v.a[2:]
        for s2, b in it.decide(st, lt(lo, hi)):
            if not b: out.append((s2, NONE)); continue
            s2 = s2.copy()
            it.store(s2, ref, adt(k, 0, r, add(lo, I(1)), hi))
            out.append((s2, some(mk("ref", r.a[0], r.a[1] + (("ix", lo),)))))
        return out
    if k == "$Map":
        for s, o in step(it, st, sub_ref(ref, 0)):
            if o is NONE: out.append((s, NONE)); continue
            for s2, x in it.call_value(sub_ref(ref, 1), [o.a[2]], s): out.append((s2, some(x)))
        return out
    if k == "$Enum":
        for s, o in step(it, st, sub_ref(ref, 0)):
            if o is NONE: out.append((s, NONE)); continue
            i = it.load(s, sub_ref(ref, 1))
            s = s.copy()
            it.store(s, sub_ref(ref, 1), add(i, I(1)))
            out.append((s, some(tup(i, o.a[2]))))
        return out
    if k == "$Insp":
        for s, o in step(it, st, sub_ref(ref, 0)):
            if o is NONE: out.append((s, NONE)); continue
            for s2, x in it.call_value(sub_ref(ref, 1), [o.a[2]], s): out.append((s2, o))
        return out
    if k == "$Zip":
        for s, o in step(it, st, sub_ref(ref, 0)):
            if o is NONE: out.append((s, NONE)); continue
            for s2, p in step(it, s, sub_ref(ref, 1)):
                out.append((s2, NONE if p is NONE else some(tup(o.a[2], p.a[2]))))
        return out
    if k == "$Rep": return [(st, some(it.load(st, sub_ref(ref, 0))))]
    if k == "$RepW": return [(s, some(x)) for s, x in it.call_value(sub_ref(ref, 0), [], st)]
    raise Limit("lazy " + k)


@model("Iterator::next")
def m_next(cx):
    if cx.args[0].op != "ref": return None
    return step(cx.it, cx.st, cx.args[0])


@model("DoubleEndedIterator::next_back")
def m_nextback(cx):
    ref = cx.it.target(cx.st, cx.args[0])
    v = cx.it.load1(cx.st, ref)
    if v.op == "adt" and v.a[0] == RANGE:
        v = mkit(seq(mk("range", v.a[2], v.a[3])))
    if v.op != "it": return None
    s, lo, hi = v.a
    out = []
    for s2, b in cx.it.decide(cx.st, lt(lo, hi)):
        if not b: out.append((s2, NONE)); continue
        s2 = s2.copy()
        cx.it.store(s2, ref, mk("it", s, lo, sub(hi, I(1))))
        out.append((s2, some(elem(s, sub(hi, I(1))))))
    return out


@model("Peekable::peek")
def m_peek(cx):
    v = cx.v(0)
    if v.op != "it": return None
    s, lo, hi = v.a
    return [(s2, some(elem(s, lo)) if b else NONE) for s2, b in cx.it.decide(cx.st, lt(lo, hi))]


@model("Chars::as_str")
def m_chasstr(cx):
    v = cx.v(0)
    if v.op != "it": return None
    return cx.ret(mkstr(rest(v)))


def it_seq(cx, k=0):
    """the remaining elements of the iterator argument k, or None when it is not a pure one"""
    v = cx.args[k]
    if v.op == "ref":
        return None
    t = cx.atys[k] if k < len(cx.atys) else None
    if v.op == "adt" and v.a[0].startswith("$"): return None
    if v.op == "dd": return None
    return coll_seq(cx.it, cx.st, v, t)


def ones(x): return seq(mk("one", x))


@model("Iterator::map")
def m_map(cx):
    sq = it_seq(cx)
    if sq is not None:
        try:
            n, t = cx.it.lam_over(cx.st, cx.args[1], sq)
            return cx.ret(mkit(comp(lam(n, ones_dd(t)), seqlen(sq))))
        except Impure: pass
    return cx.ret(adt("$Map", 0, cx.args[0], cx.args[1]))


def ones_dd(t):
    """one element, whatever it is"""
    return map_leaves(t, lambda l: l if l is UNDEF else ones(l)) if t.op == "dd" else ones(t)


@model("Iterator::filter")
def m_filter(cx):
    sq = it_seq(cx)
    if sq is None: return None
    n, t = cx.it.lam_over(cx.st, cx.args[1], sq)
    e = elem(sq, n)
    return cx.ret(mkit(comp(lam(n, ddcases([(g, ones(simp(e, g)) if l is TRUE else EMPTY) for g, l in paths(as_bool(t))])), seqlen(sq))))


def optseq(o):
    def f(l):
        if l.op == "adt" and l.a[0] == OPT: return ones(l.a[2]) if l.a[1] else EMPTY
        if l.op in ("undef", "panic"): return l
        d = disc(l, 2)
        return ddcases([(g, ones(fld(l, 0, 1)) if x is TRUE else EMPTY) for g, x in paths(inn(d, ONE))])
    return map_leaves(o, f)


@model("Iterator::filter_map")
def m_filtermap(cx):
    sq = it_seq(cx)
    if sq is None: return None
    n, t = cx.it.lam_over(cx.st, cx.args[1], sq)
    return cx.ret(mkit(comp(lam(n, optseq(t)), seqlen(sq))))


def seqof(it, st, l):
    if l.op in ("undef", "panic"): return l
    if l.op == "disc": return l
    s = contents(it, st, l)
    return s


@model("Iterator::flat_map", "Iterator::flatten")
def m_flatmap(cx):
    sq = it_seq(cx)
    if sq is None: return None
    if cx.f["fn"].endswith("flatten"):
        n = fresh("n")
        t = elem(sq, n)
        vt = None
    else:
        n, t = cx.it.lam_over(cx.st, cx.args[1], sq)

    def f(l):
        if l.op in ("undef", "panic"): return l
        if l.op not in ("adt", "it", "seq", "mins", "mempty"):
            # an optional value or a collection?
            rt = elemty(cx)
            if rt == "opt": return optseq(l)
        r = contents(cx.it, cx.st, l)
        if r is None: raise Limit("flat_map")
        return r
    return cx.ret(mkit(comp(lam(n, map_leaves(t, f)), seqlen(sq))))


def elemty(cx):
    """kind of the items that flatten / flat_map unfolds"""
    for a in reversed(cx.f.get("args", [])):
        if isinstance(a, int):
            t = cx.it.ty(a)
            if t and t["k"] == "adt" and t["path"].endswith("Option"): return "opt"
    p = cx.path
    if "Option<" in p: return "opt"
    t = cx.it.ty(cx.rty)
    if t and "Option<" in t["s"]: return "opt"
    return None


@model("Iterator::enumerate")
def m_enum(cx):
    sq = it_seq(cx)
    if sq is None: return cx.ret(adt("$Enum", 0, cx.args[0], I(0)))
    n = fresh("n")
    return cx.ret(mkit(comp(lam(n, ones(tup(n, elem(sq, n)))), seqlen(sq))))


@model("Iterator::zip", "iter::zip")
def m_zip(cx):
    a = it_seq(cx)
    b = it_seq(cx, 1)
    if b is not None and cx.args[1].op == "adt" and cx.args[1].a[0] == "std::ops::RangeFrom": b = None
    v1 = cx.args[1]
    if v1.op == "adt" and v1.a[0] == "std::ops::RangeFrom" and a is not None:
        n = fresh("n")
        return cx.ret(mkit(comp(lam(n, ones(tup(elem(a, n), add(v1.a[2], n)))), seqlen(a))))
    v0 = cx.args[0]
    if v0.op == "adt" and v0.a[0] == "std::ops::RangeFrom" and b is not None:
        n = fresh("n")
        return cx.ret(mkit(comp(lam(n, ones(tup(add(v0.a[2], n), elem(b, n)))), seqlen(b))))
    for k, (o, w) in enumerate(((a, v1), (b, v0))):
        # the endless repetition of a value, or of what a pure closure gives
        if o is not None and w.op == "adt" and w.a[0] in ("$Rep", "$RepW"):
            x = w.a[2]
            if w.a[0] == "$RepW":
                try: x = cx.it.pure(cx.st, x, [])
                except Impure: continue
            n = fresh("n")
            return cx.ret(mkit(comp(lam(n, ones(tup(elem(o, n), x) if k == 0 else tup(x, elem(o, n)))), seqlen(o))))
    if a is None or b is None: return cx.ret(adt("$Zip", 0, cx.args[0], cx.args[1]))
    h = seqlen(a)
    if seqlen(b) is not h: h = rebuild("min", (seqlen(a), seqlen(b)))
    n = fresh("n")
    return cx.ret(mkit(comp(lam(n, ones(tup(elem(a, n), elem(b, n)))), h)))


@model("Iterator::chain", "iter::chain")
def m_chain(cx):
    a, b = it_seq(cx), it_seq(cx, 1)
    if a is None or b is None: return None
    return cx.ret(mkit(seq(a, b)))


@model("Iterator::rev")
def m_rev(cx):
    a = it_seq(cx)
    if a is None: return None
    if len(a.a[0]) == 1 and a.a[0][0].op == "sl" and a.a[0][0].a[0].op == "rev":
        x = a.a[0][0]
        if x.a[1] is I(0) and x.a[2] is seqlen(x.a[0].a[0]): return cx.ret(mkit(x.a[0].a[0]))
    if all(p.op == "one" for p in a.a[0]): return cx.ret(mkit(seq(*reversed(a.a[0]))))
    return cx.ret(mkit(seq(mk("rev", a))))


def clip(k, h):
    d = sub(h, k)
    if d.op == "int" or k is I(0): return k if (d.op != "int" or d.a[0] >= 0) else h
    return rebuild("min", (k, h))


@model("Iterator::skip", "Iterator::take")
def m_skip(cx):
    w = cx.args[0]
    if w.op == "adt" and w.a[0] in ("$Rep", "$RepW") and "take" in cx.f["fn"]:
        x = w.a[2]
        if w.a[0] == "$RepW": x = cx.it.pure(cx.st, x, [])
        return cx.ret(mkit(comp(lam(fresh("n"), ones(x)), cx.v(1))))
    a = it_seq(cx)
    if a is None: return None
    h = seqlen(a)
    out = []
    for s, b in cx.it.decide(cx.st, le(cx.v(1), h)):
        k = cx.v(1) if b else h
        out.append((s, mkit(slice_(a, k, h) if "skip" in cx.f["fn"] else slice_(a, I(0), k))))
    return out


@model("Iterator::cloned", "Iterator::copied", "Iterator::peekable", "Iterator::fuse")
def m_same(cx):
    v = cx.args[0]
    if v.op == "ref": return cx.ret(v)
    if v.op == "adt" and v.a[0] == RANGE: return cx.ret(mkit(contents(cx.it, cx.st, v)))
    return cx.ret(v)


@model("Iterator::inspect")
def m_inspect(cx): return cx.ret(adt("$Insp", 0, cx.args[0], cx.args[1]))


@model("iter::empty")
def m_itempty(cx): return cx.ret(mkit(EMPTY))


@model("iter::once")
def m_itonce(cx): return cx.ret(mkit(ones(cx.args[0])))


@model("iter::repeat")
def m_itrep(cx): return cx.ret(adt("$Rep", 0, cx.args[0]))


@model("iter::repeat_with")
def m_itrepw(cx): return cx.ret(adt("$RepW", 0, cx.args[0]))


@model("iter::repeat_n")
def m_itrepn(cx):
    n = fresh("n")
    return cx.ret(mkit(comp(lam(n, ones(cx.args[0])), cx.v(1))))


@model("Iterator::skip_while", "Iterator::take_while", "Iterator::map_while", "Iterator::step_by", "slice::windows", "slice::chunks", "Iterator::scan", "Iterator::cycle")
def m_opaqueit(cx):
    vals = []
    for a in cx.args:
        v = cx.it.load(cx.st, a)
        vals.append(v)
    sq = it_seq(cx)
    if sq is None: raise Limit(cx.name + " of an impure iterator")
    nm = cx.f["fn"].split("::")[-1]
    if nm in ("skip_while", "take_while"):
        n, t = cx.it.lam_over(cx.st, cx.args[1], sq)
        f = lam(n, as_bool(t))
        nf = lam(n, bnot(as_bool(t)))
        first = first_(nf, seqlen(sq))
        # the first element that fails the condition, or the length
        if nm == "take_while": return cx.ret(mkit(seq(mk(nm, f, sq))))
        return cx.ret(mkit(seq(mk(nm, f, sq))))
    if nm in ("map_while",):
        return cx.ret(mkit(seq(mk(nm, *[x for x in vals if x.op != "it"], sq))))
    return cx.ret(mkit(seq(mk(nm, sq, *vals[1:]))))


# -------- consumers
def consume(cx, st, itv, body, extra=None):
    """runs body(state, element) -> [(tag, state)] for every element; tag None continues.
    Returns [(tag, state)] with tag 'done' at the end."""
    it = cx.it
    s = st.copy()
    if itv.op == "ref": ref = itv
    else:
        cell = it.newcell(s, itv, "iter")
        ref = mk("ref", cell, ())

    def b(s1):
        out = []
        for s2, o in step(it, s1, ref):
            if o is NONE: out.append(("done", s2)); continue
            for tag, s3 in body(s2, o.a[2]): out.append(("back" if tag is None else tag, s3))
        return out
    return it.loop_fix(s, b)


def iterarg(cx, k=0):
    v = cx.args[k]
    if v.op == "ref":
        t = cx.it.load(cx.st, v)
        if t.op in ("it",) or t.op == "adt" and (t.a[0].startswith("$") or t.a[0] == RANGE): return v
    t = cx.it.load(cx.st, v)
    if t.op == "it" or (t.op == "adt" and (t.a[0].startswith("$") or t.a[0] in (RANGE, "std::ops::RangeFrom"))): return v if v.op == "ref" else t
    ty = cx.atys[k] if k < len(cx.atys) else None
    sq = coll_seq(cx.it, cx.st, t, ty)
    if sq is None: raise Limit("iteration over a joined value")
    return mkit(sq)


@model("Iterator::for_each")
def m_foreach(cx):
    it = cx.it
    st = cx.st.copy()
    f = mk("ref", it.newcell(st, cx.args[1], "clo"), ())

    def body(s, x): return [(None, s2) for s2, _ in it.call_value(f, [x], s)]
    return [(s, UNIT) for tag, s in consume(cx, st, iterarg(cx), body)]


@model("Iterator::fold")
def m_fold(cx):
    it = cx.it
    st = cx.st.copy()
    acc = mk("ref", it.newcell(st, cx.args[1], "acc"), ())
    f = mk("ref", it.newcell(st, cx.args[2], "clo"), ())

    def body(s, x):
        out = []
        for s2, v in it.call_value(f, [it.load1(s, acc), x], s):
            s2 = s2.copy()
            s2.cells[acc.a[0]] = v
            out.append((None, s2))
        return out
    return [(s, s.cells[acc.a[0]]) for tag, s in consume(cx, st, iterarg(cx), body)]


@model("Iterator::try_fold", "Iterator::try_for_each")
def m_tryfold(cx):
    it = cx.it
    st = cx.st.copy()
    each = cx.f["fn"].endswith("try_for_each")
    acc = mk("ref", it.newcell(st, UNIT if each else cx.args[1], "acc"), ())
    f = mk("ref", it.newcell(st, cx.args[1 if each else 2], "clo"), ())
    rt = it.ty(cx.rty)
    kind = rt["path"].split("::")[-1] if rt and rt["k"] == "adt" else None
    if kind not in ("Option", "Result", "ControlFlow"): return None
    good = {"Option": 1, "Result": 0, "ControlFlow": 0}[kind]
    path = {"Option": OPT, "Result": RES, "ControlFlow": CF}[kind]

    def body(s, x):
        out = []
        args = [x] if each else [it.load1(s, acc), x]
        for s2, v in it.call_value(f, args, s):
            for s3, d in it.split(s2, v):
                dd_ = disc(d, 2)
                for s4, okk in it.decide(s3, inn(dd_, IntSet([(good, good)]))):
                    s4 = s4.copy()
                    if okk:
                        s4.cells[acc.a[0]] = fld(d, 0, good)
                        out.append((None, s4))
                    else:
                        s4.cells[acc.a[0]] = NONE if kind == "Option" else d
                        out.append(("stop", s4))
        return out
    res = []
    for tag, s in consume(cx, st, iterarg(cx), body):
        v = s.cells[acc.a[0]]
        res.append((s, adt(path, good, v) if tag == "done" else v))
    return res


@model("Iterator::any", "Iterator::all")
def m_any(cx):
    v = cx.it.load(cx.st, cx.args[0])
    neg = cx.f["fn"].endswith("all")
    if v.op == "it" or (v.op == "adt" and v.a[0] == RANGE):
        sq = contents(cx.it, cx.st, v)
        try:
            n, t = cx.it.lam_over(cx.st, cx.args[1], sq)
            t = as_bool(t)
            r = any_(lam(n, bnot(t) if neg else t), seqlen(sq))
            s = cx.st.copy()
            if cx.args[0].op == "ref": cx.it.store(s, cx.args[0], fresh("hav"))
            return (s, bnot(r) if neg else r)
        except Impure: pass
    it = cx.it
    st = cx.st.copy()
    f = mk("ref", it.newcell(st, cx.args[1], "clo"), ())

    def body(s, x):
        out = []
        for s2, b in it.call_value(f, [x], s):
            for s3, bb in it.decide(s2, as_bool(b)):
                out.append(("stop" if bb != neg else None, s3))
        return out
    return [(s, B((tag == "stop") != neg)) for tag, s in consume(cx, st, iterarg(cx), body)]


@model("Iterator::find", "Iterator::position", "Iterator::find_map", "Iterator::rposition")
def m_find(cx):
    nm = cx.f["fn"].split("::")[-1]
    v = cx.it.load(cx.st, cx.args[0])
    if nm == "rposition":
        if v.op != "it": return None
        sq = rest(v)
        h = seqlen(sq)
        n, t = cx.it.lam_over(cx.st, cx.args[1], sq)
        m = fresh("n")
        f = lam(m, app(lam(n, as_bool(t)), sub(sub(h, I(1)), m)))
        return cx.ret(opt(any_(f, h), sub(sub(h, I(1)), first_(f, h))))
    if v.op == "it":
        sq = rest(v)
        n, t = cx.it.lam_over(cx.st, cx.args[1], sq)
        if nm == "find_map": b = inn(disc(t, 2), ONE)
        else: b = as_bool(t)
        f = lam(n, b)
        h = seqlen(sq)
        first = first_(f, h)
        s = cx.st.copy()
        if cx.args[0].op == "ref": cx.it.store(s, cx.args[0], mk("it", v.a[0], add(v.a[1], add(first, I(1))), v.a[2]) if nm != "x" else v)
        a = any_(f, h)
        val = first if nm == "position" else elem(sq, first) if nm == "find" else fld(app(lam(n, t), first), 0, 1)
        return (s, opt(a, val))
    return None


@model("Iterator::count", "ExactSizeIterator::len")
def m_count(cx):
    if cx.args[0].op == "adt" and cx.args[0].a[0].startswith("$"):
        st = cx.st.copy()
        acc = cx.it.newcell(st, I(0), "cnt")

        def body(s, x):
            s = s.copy()
            s.cells[acc] = add(s.cells[acc], I(1))
            return [(None, s)]
        return [(s, s.cells[acc]) for tag, s in consume(cx, st, iterarg(cx), body)]
    v = cx.it.load(cx.st, cx.args[0])
    sq = coll_seq(cx.it, cx.st, v, None) if v.op != "dd" else None
    if sq is None: return None
    return cx.ret(seqlen(sq))


@model("Iterator::last", "Iterator::nth")
def m_last(cx):
    v = cx.it.load(cx.st, cx.args[0])
    if v.op != "it": return None
    s, lo, hi = v.a
    if cx.f["fn"].endswith("last"):
        return [(s2, some(elem(s, sub(hi, I(1)))) if b else NONE) for s2, b in cx.it.decide(cx.st, lt(lo, hi))]
    k = cx.v(1)
    out = []
    for s2, b in cx.it.decide(cx.st, lt(add(lo, k), hi)):
        s2 = s2.copy()
        if cx.args[0].op == "ref": cx.it.store(s2, cx.args[0], mk("it", s, add(add(lo, k), I(1)) if b else hi, hi))
        out.append((s2, some(elem(s, add(lo, k))) if b else NONE))
    return out


@model("Iterator::sum")
def m_sum(cx):
    sq = it_seq(cx)
    t = cx.it.ty(cx.rty)
    if sq is None or not t: return None
    n = fresh("n")
    from loops import sum_
    if t["k"] == "int":
        ps = sq.a[0]
        r = I(0)
        for p in ps:
            if p.op == "one": r = add(r, p.a[0]); continue
            one = mk("seq", (p,))
            h = seqlen(one)
            e = elem(one, n)
            ls = [l for _, l in paths(e)]
            if all(l.op == "int" and l.a[0] in (0, 1) for l in ls) and len(ls) > 1:
                D = map_leaves(e, lambda l: ones(UNIT) if l.a[0] else EMPTY)
                r = add(r, seqlen(comp(lam(n, D), h)))
            else: r = add(r, sum_(lam(n, e), h))
        return cx.ret(r)
    return cx.ret(mk("fsum", sq))


@model("Iterator::max", "Iterator::min", "Iterator::max_by_key", "Iterator::min_by_key", "Iterator::product")
def m_maxit(cx):
    sq = it_seq(cx)
    if sq is None: return None
    if cx.f["fn"].endswith("product"): return cx.ret(mk("call", cx.f["fn"], sq))
    return cx.ret(opt(lt(I(0), seqlen(sq)), mk("call", cx.f["fn"], sq)))


@model("Iterator::unzip")
def m_unzip(cx):
    sq = it_seq(cx)
    if sq is None: return None
    n = fresh("n")
    e = elem(sq, n)
    t = cx.it.ty(cx.rty)
    parts = [comp(lam(n, ones_dd(fld(e, k) if e.op != "dd" else map_leaves(e, lambda l: fld(l, k)))), seqlen(sq)) for k in (0, 1)]
    return cx.ret(tup(*[collect_to(cx, ty, p) for ty, p in zip(t["elems"], parts)]))


@model("Iterator::partition")
def m_partition(cx):
    sq = it_seq(cx)
    if sq is None: return None
    n, t = cx.it.lam_over(cx.st, cx.args[1], sq)
    e = elem(sq, n)
    f = lambda w: comp(lam(n, ite(as_bool(t), ones(e) if w else EMPTY, EMPTY if w else ones(e))), seqlen(sq))
    return cx.ret(tup(f(True), f(False)))


def collect_to(cx, tid, sq):
    t = cx.it.ty(tid)
    if not t: raise Limit("collect into an unknown type")
    while t["k"] == "adt" and t["path"] == "std::boxed::Box":
        tid = t["args"][0]
        t = cx.it.ty(tid)
    if t["k"] == "adt":
        p = t["path"].split("::")[-1]
        if p in ("Vec", "VecDeque"): return sq
        if p == "String" or (p == "Cow"): return strjoin(sq, cx, tid)
        if p in ("BTreeMap", "HashMap"): return mapfrom(MEMPTY, sq)
        if p in ("BTreeSet", "HashSet"): return mk("setof", sq) if sq.a[0] else MEMPTY
        if p in ("Option", "Result"):
            good = 1 if p == "Option" else 0
            n = fresh("n")
            e = elem(sq, n)
            d = inn(disc(e, 2), IntSet([(1 - good, 1 - good)]))
            bad = any_(lam(n, d), seqlen(sq))
            inner = comp(lam(n, ones_dd(map_leaves(e, lambda l: fld(l, 0, good)))), seqlen(sq))
            v = collect_to(cx, t["args"][0], inner)
            if bad is FALSE: return adt(t["path"], good, v)
            first = first_(lam(n, d), seqlen(sq))
            return ddcases([(g, (NONE if good else elem(sq, first)) if l is TRUE else adt(t["path"], good, v)) for g, l in paths(bad)])
    if t["k"] == "slice": return sq
    raise Limit("collect into " + t["s"])


def mapfrom(m, sq):
    n, A = fresh("n"), fresh("phi")
    e = elem(sq, n)
    return fold(lam2(A, n, map_leaves(e, lambda l: mins(A, fld(l, 0), fld(l, 1)))), m, seqlen(sq))


def strjoin(sq, cx=None, tid=None, kind=None):
    """a string from a sequence of characters or of strings"""
    if kind is None: kind = guess(sq, cx)
    if kind == "char": return mkstr(sq)
    return mkstr(flat_strings(sq))


def flat_strings(sq):
    out = []
    for p in sq.a[0]:
        if p.op == "one": out.append(chars_of(p.a[0]))
        elif p.op == "sl":
            n = fresh("n")
            out.append(comp(lam(n, chars_of(elem1(p.a[0], add(p.a[1], n)))), sub(p.a[2], p.a[1])))
        else:
            n = fresh("n")
            x = app(p.a[0], n)
            out.append(comp(lam(n, map_leaves(x, lambda l: flat_strings(l) if l.op == "seq" else l)), p.a[1]))
    return seq(*out)


def guess(sq, cx):
    """whether an iterator yields characters or strings, from the type arguments of the call"""
    if cx is not None:
        for a in cx.f.get("args", []):
            if isinstance(a, int):
                t = cx.it.ty(a)
                s = t["s"] if t else ""
                if "Chars" in s and "FlatMap" not in s and "Map<" not in s: return "char"
        w = cx.path + " ".join((cx.it.ty(a) or {}).get("s", "") for a in cx.f.get("args", []) if isinstance(a, int))
    for x in seqleaves(sq):
        if x.op in ("str", "ofchars", "lower", "trimset", "fmt", "alower"): return "str"
        if x.op == "int" or universe(x) == CHARS: return "char"
        if x.op == "elem" and x.a[0].op in ("chars", "lowerc", "upperc"): return "char"
        if x.op == "elem" and x.a[0].op == "split": return "str"
        if x.op == "lin": return "char"
    if cx is not None:
        # FromIterator<T>: the implementation chosen
        m = re.search(r"FromIterator<([^>]*)", cx.path)
        if m: return "char" if "char" in m.group(1) else "str"
    return "str"


def seqleaves(sq):
    out = []
    for p in sq.a[0]:
        if p.op == "one": out.append(p.a[0])
        elif p.op == "sl": out.append(elem1(p.a[0], p.a[1]))
        else:
            for _, l in paths(p.a[0].a[1]):
                if l.op == "seq": out += seqleaves(l)
    return out


@model("Iterator::collect", "FromIterator::from_iter")
def m_collect(cx):
    v = cx.args[0]
    t = cx.it.ty(cx.rty)
    sq = it_seq(cx)
    if sq is not None:
        return cx.ret(collect_to(cx, cx.rty, sq))
    st = cx.st.copy()
    if v.op == "dd":
        return [(s, collect_to(cx, cx.rty, contents(cx.it, s, l))) for s, l in cx.it.split(cx.st, v)]
    p = t["path"].split("::")[-1] if t["k"] == "adt" else ""
    if p not in ("Vec", "BTreeMap", "HashMap", "String", "VecDeque", "HashSet", "BTreeSet"): return None
    acc = cx.it.newcell(st, S("") if p == "String" else EMPTY if p.startswith("Vec") else MEMPTY, "acc")

    def body(s, x):
        s = s.copy()
        a = s.cells[acc]
        if p.startswith("Vec"): s.cells[acc] = seq(a, mk("one", x))
        elif p == "String": s.cells[acc] = concat(a, x if universe(x) != CHARS else mkstr(ones(x)))
        elif p.endswith("Set"): s.cells[acc] = mins(a, x, UNIT)
        else: s.cells[acc] = mins(a, fld(x, 0), fld(x, 1))
        return [(None, s)]
    return [(s, s.cells[acc]) for tag, s in consume(cx, st, iterarg(cx), body)]


@model("Extend::extend", "Vec::extend_from_slice", "Vec::append", "String::extend")
def m_extend(cx):
    t = cx.it.strip(cx.atys[0])
    p = t["path"].split("::")[-1] if t and t["k"] == "adt" else ""
    cur = cx.v(0)
    a1 = cx.args[1]
    if cx.name == "Vec::append":
        s = cx.st.copy()
        cx.it.store(s, cx.args[0], seq(as_seq(cur), as_seq(cx.v(1))))
        cx.it.store(s, cx.args[1], EMPTY)
        return (s, UNIT)
    if a1.op == "ref" and cx.it.load(cx.st, a1).op != "it": a1 = cx.it.load(cx.st, a1)
    out = []
    lazy = a1.op == "adt" and a1.a[0].startswith("$") or a1.op == "ref"
    if not lazy:
        for st, l in cx.it.split(cx.st, a1):
            sq = coll_seq(cx.it, st, l, cx.atys[1])
            s = st.copy()
            if p in ("Vec", "VecDeque"): v = seq(as_seq(cur), sq)
            elif p == "String": v = concat(cur, strjoin(sq, cx))
            elif p in ("BTreeMap", "HashMap"): v = mapfrom(cur, sq)
            elif p in ("BTreeSet", "HashSet"):
                n, A = fresh("n"), fresh("phi")
                v = mk("setof", sq) if cur.op == "mempty" else fold(lam2(A, n, mins(A, elem(sq, n), UNIT)), cur, seqlen(sq))
            else: return None
            cx.it.store(s, cx.args[0], v)
            out.append((s, UNIT))
        return out
    ref = cx.args[0]

    def body(s, x):
        s = s.copy()
        a = cx.it.load(s, ref)
        if p.startswith("Vec"): v = seq(as_seq(a), mk("one", x))
        elif p == "String": v = concat(a, x if universe(x) != CHARS else mkstr(ones(x)))
        elif p.endswith("Set"): v = mins(a, x, UNIT)
        else: v = mins(a, fld(x, 0), fld(x, 1))
        cx.it.store(s, ref, v)
        return [(None, s)]
    return [(s, UNIT) for tag, s in consume(cx, cx.st.copy(), iterarg(cx, 1), body)]


# ---------------------------------------------------------------- vectors and slices
@model("Vec::push", "VecDeque::push_back")
def m_push(cx):
    s = cx.st.copy()
    cx.it.store(s, cx.args[0], seq(as_seq(cx.v(0)), mk("one", cx.args[1])))
    return (s, UNIT)


@model("Vec::pop", "VecDeque::pop_back")
def m_pop(cx):
    sq = as_seq(cx.v(0))
    h = seqlen(sq)
    out = []
    for s, b in cx.it.decide(cx.st, lt(I(0), h)):
        if not b: out.append((s, NONE)); continue
        s = s.copy()
        e = elem(sq, sub(h, I(1)))
        cx.it.store(s, cx.args[0], slice_(sq, I(0), sub(h, I(1))))
        out.append((s, some(e)))
    return out


@model("Vec::insert")
def m_vinsert(cx):
    sq = as_seq(cx.v(0))
    k = cx.v(1)
    h = seqlen(sq)
    out = []
    for s, b in cx.it.decide(cx.st, le(k, h)):
        if not b: cx.panic(s, "Vec::insert past the end"); continue
        s = s.copy()
        cx.it.store(s, cx.args[0], seq(slice_(sq, I(0), k), mk("one", cx.args[2]), slice_(sq, k, h)))
        out.append((s, UNIT))
    return out


@model("Vec::remove", "Vec::swap_remove")
def m_vremove(cx):
    sq = as_seq(cx.v(0))
    k = cx.v(1)
    h = seqlen(sq)
    out = []
    for s, b in cx.it.decide(cx.st, lt(k, h)):
        if not b: cx.panic(s, cx.name + " past the end"); continue
        e = elem(sq, k)
        if cx.name.endswith("::remove"):
            s = s.copy()
            cx.it.store(s, cx.args[0], seq(slice_(sq, I(0), k), slice_(sq, add(k, I(1)), h)))
            out.append((s, e))
            continue
        for s2, b2 in cx.it.decide(s, lt(add(k, I(1)), h)):
            s2 = s2.copy()
            l = sub(h, I(1))
            if b2: cx.it.store(s2, cx.args[0], seq(slice_(sq, I(0), k), mk("one", elem(sq, l)), slice_(sq, add(k, I(1)), l)))
            else: cx.it.store(s2, cx.args[0], slice_(sq, I(0), k))
            out.append((s2, e))
    return out


@model("Vec::split_off")
def m_vsplitoff(cx):
    sq = as_seq(cx.v(0))
    k = cx.v(1)
    h = seqlen(sq)
    out = []
    for s, b in cx.it.decide(cx.st, le(k, h)):
        if not b: cx.panic(s, "split_off past the end"); continue
        s = s.copy()
        cx.it.store(s, cx.args[0], slice_(sq, I(0), k))
        out.append((s, slice_(sq, k, h)))
    return out


@model("slice::split_at")
def m_split_at(cx):
    sq = as_seq(cx.v(0))
    k = cx.v(1)
    h = seqlen(sq)
    out = []
    for s, b in cx.it.decide(cx.st, le(k, h)):
        if not b: cx.panic(s, "split_at past the end"); continue
        out.append((s, tup(slice_(sq, I(0), k), slice_(sq, k, h))))
    return out


@model("slice::split_first", "slice::split_last")
def m_split_first(cx):
    sq = as_seq(cx.v(0))
    h = seqlen(sq)
    l = sub(h, I(1))
    f = cx.name.endswith("first")
    v = tup(elem(sq, I(0)), slice_(sq, I(1), h)) if f else tup(elem(sq, l), slice_(sq, I(0), l))
    return cx.ret(opt(lt(I(0), h), v))


@model("String::truncate")
def m_struncate(cx):
    v, k = cx.v(0), cx.v(1)
    if v.op == "dd": return None
    out = []
    for s, b in cx.it.decide(cx.st, lt(k, blen(v))):
        if not b: out.append((s, UNIT)); continue
        for s2, x in str_slice(cx, v, I(0), k, s):
            s2 = s2.copy()
            cx.it.store(s2, cx.args[0], x)
            out.append((s2, UNIT))
    return out


@model("str::split_at")
def m_str_split_at(cx):
    v, k = cx.v(0), cx.v(1)
    if v.op == "dd": return None
    return [(s2, tup(a, b)) for s, a in str_slice(cx, v, I(0), k, cx.st) for s2, b in str_slice(cx, v, k, blen(v), s)]


@model("String::split_off")
def m_ssplit_off(cx):
    v, k = cx.v(0), cx.v(1)
    if v.op == "dd": return None
    out = []
    for s, a in str_slice(cx, v, I(0), k, cx.st):
        for s2, b in str_slice(cx, v, k, blen(v), s):
            s2 = s2.copy()
            cx.it.store(s2, cx.args[0], a)
            out.append((s2, b))
    return out


@model("str::is_char_boundary")
def m_is_boundary(cx):
    p = byte_pos(cx.v(0), cx.v(1))
    if p is False: return cx.ret(FALSE)
    if p is not None: return cx.ret(TRUE)
    return None


@model("str::get")
def m_str_get(cx):
    v, k = cx.v(0), cx.v(1)
    if k.op != "adt" or v.op == "dd": return None
    lo, hi = range_bounds(k, blen(v))
    if lo is None: return None
    a, b = byte_pos(v, lo), byte_pos(v, hi)
    if a is False or b is False: return cx.ret(NONE)
    if a is None or b is None: return None
    return cx.ret(opt(le(a, b), mkstr(slice_(chars_of(v), a, b))))


@model("String::pop")
def m_spop(cx):
    v = cx.v(0)
    if v.op == "dd": return None
    cs = chars_of(v)
    h = seqlen(cs)
    out = []
    for s, b in cx.it.decide(cx.st, lt(I(0), h)):
        if not b: out.append((s, NONE)); continue
        s = s.copy()
        cx.it.store(s, cx.args[0], mkstr(slice_(cs, I(0), sub(h, I(1)))))
        out.append((s, some(elem(cs, sub(h, I(1))))))
    return out


@model("String::remove")
def m_sremove(cx):
    v = cx.v(0)
    if v.op == "dd": return None
    p = byte_pos(v, cx.v(1))
    if p is None: return None
    cs = chars_of(v)
    h = seqlen(cs)
    if p is False:
        cx.panic(cx.st, "String::remove inside a character")
        return []
    out = []
    for s, b in cx.it.decide(cx.st, lt(p, h)):
        if not b: cx.panic(s, "String::remove past the end"); continue
        s = s.copy()
        cx.it.store(s, cx.args[0], mkstr(seq(slice_(cs, I(0), p), slice_(cs, add(p, I(1)), h))))
        out.append((s, elem(cs, p)))
    return out


@model("String::insert", "String::insert_str")
def m_sinsert(cx):
    v = cx.v(0)
    if v.op == "dd": return None
    p = byte_pos(v, cx.v(1))
    if p is None: return None
    if p is False:
        cx.panic(cx.st, "String::insert inside a character")
        return []
    cs = chars_of(v)
    s = cx.st.copy()
    x = chars_of(cx.v(2)) if cx.name.endswith("str") else seq(mk("one", cx.v(2)))
    cx.it.store(s, cx.args[0], mkstr(seq(slice_(cs, I(0), p), x, slice_(cs, p, seqlen(cs)))))
    return (s, UNIT)


def byte_pos(v, x):
    """index of the character that starts at byte x; False when x is no boundary, None when unknown"""
    if x is I(0): return I(0)
    if x is blen(v): return seqlen(chars_of(v))
    if x.op == "boff" and x.a[0] is v: return x.a[1]
    if x.op == "int" and x.a[0] < 0: return False
    if x.op == "int":
        n, k = 0, 0
        for q in as_seq(chars_of(v)).a[0]:
            if n == x.a[0]: return I(k)
            if n > x.a[0]: return False
            if q.op != "one" or q.a[0].op != "int": return None
            n += len(chr(q.a[0].a[0]).encode("utf-8", "surrogatepass"))
            k += 1
        return I(k) if n == x.a[0] else False
    return None


@model("Vec::truncate")
def m_trunc(cx):
    sq = as_seq(cx.v(0))
    out = []
    for s, b in cx.it.decide(cx.st, lt(cx.v(1), seqlen(sq))):
        s = s.copy()
        if b: cx.it.store(s, cx.args[0], slice_(sq, I(0), cx.v(1)))
        out.append((s, UNIT))
    return out


@model("Vec::clear", "BTreeMap::clear", "HashMap::clear", "HashSet::clear")
def m_clear(cx):
    s = cx.st.copy()
    cx.it.store(s, cx.args[0], EMPTY if cx.name.startswith("Vec") else MEMPTY)
    return (s, UNIT)


@model("Vec::len", "slice::len", "VecDeque::len", "array::len")
def m_len(cx): return cx.ret(smap(lambda l: seqlen(as_seq(l)), cx.v(0)))


@model("Vec::is_empty", "slice::is_empty")
def m_vempty(cx): return cx.ret(smap(lambda l: inn(seqlen(as_seq(l)), ZERO), cx.v(0)))


@model("Vec::capacity", "Vec::reserve", "String::reserve", "Vec::shrink_to_fit", "String::shrink_to_fit", "HashMap::reserve")
def m_cap(cx): return cx.ret(UNIT if not cx.name.endswith("capacity") else fresh("hav"))


@model("slice::contains", "Vec::contains", "VecDeque::contains")
def m_contains(cx):
    sq = as_seq(cx.v(0))
    n = fresh("n")
    x = cx.v(1)
    t = cx.it.strip(cx.atys[1])
    f = chareq if t and t["k"] in ("int", "char") else eq
    return cx.ret(any_(lam(n, f(elem(sq, n), x)), seqlen(sq)))


@model("slice::first", "slice::last", "Vec::first", "Vec::last")
def m_first(cx):
    sq = as_seq(cx.v(0))
    h = seqlen(sq)
    e = elem(sq, I(0) if cx.name.endswith("first") else sub(h, I(1)))
    return cx.ret(opt(lt(I(0), h), e))


@model("slice::get", "Vec::get")
def m_get(cx):
    sq = as_seq(cx.v(0))
    k = cx.v(1)
    if k.op == "adt":
        h = seqlen(sq)
        lo, hi = range_bounds(k, h)
        if lo is None: return None
        out = []
        for s, a in cx.it.decide(cx.st, le(lo, hi)):
            if not a: out.append((s, NONE)); continue
            for s2, b in cx.it.decide(s, le(hi, h)): out.append((s2, some(slice_(sq, lo, hi)) if b else NONE))
        return out
    return cx.ret(opt(lt(k, seqlen(sq)), elem(sq, k)))


@model("slice::ends_with", "slice::starts_with")
def m_slice_ends(cx):
    """as the comparison of the slices that it is"""
    a, b = as_seq(cx.v(0)), as_seq(cx.v(1))
    if a.op == "dd" or b.op == "dd": return None
    h, n = seqlen(a), seqlen(b)
    out = []
    for s, ok_ in cx.it.decide(cx.st, le(n, h)):
        if not ok_: out.append((s, B(False))); continue
        x = slice_(a, sub(h, n), h) if cx.name.endswith("ends_with") else slice_(a, I(0), n)
        for s2, r in cx.it.decide(s, eq(x, b)): out.append((s2, B(r)))
    return out




@model("slice::get_mut", "Vec::get_mut", "slice::last_mut", "slice::first_mut")
def m_getmut(cx):
    if cx.args[0].op != "ref": return None
    sq = as_seq(cx.v(0))
    h = seqlen(sq)
    k = cx.v(1) if len(cx.args) > 1 else (I(0) if "first" in cx.name else None)
    out = []
    for s, b in cx.it.decide(cx.st, lt(k if k is not None else I(0), h)):
        r = cx.it.target(s, cx.args[0])
        out.append((s, some(mk("ref", r.a[0], r.a[1] + ((("ix", k) if k is not None else ("lst",)),))) if b else NONE))
    return out


@model("Index::index", "IndexMut::index_mut")
def m_index(cx):
    t = cx.it.strip(cx.atys[0])
    v, k = cx.v(0), cx.v(1)
    mut = cx.f["fn"].endswith("index_mut")
    if t and t["k"] == "adt" and t["path"].split("::")[-1] in ("BTreeMap", "HashMap"):
        out = []
        for s, b in cx.it.decide(cx.st, has(v, k)):
            if b: out.append((s, simp(vget(cx, v, k, 0), s.facts)))
            else: cx.panic(s, "map index")
        return out
    isstr = t and (t["k"] == "str" or t.get("path", "").endswith("String"))
    if k.op == "adt":
        if isstr:
            lo, hi = range_bounds(k, blen(v))
            if lo is None: return None
            return str_slice(cx, v, lo, hi)
        sq = as_seq(v)
        h = seqlen(sq)
        lo, hi = range_bounds(k, h)
        if lo is None: return None
        out = []
        for s, b in cx.it.decide(cx.st, band(le(lo, hi), le(hi, h))):
            if not b: cx.panic(s, "slice index")
            elif mut and cx.args[0].op == "ref":
                r = cx.it.target(s, cx.args[0])
                out.append((s, mk("ref", r.a[0], r.a[1] + (("rg", lo, hi),))))
            else: out.append((s, slice_(sq, lo, hi)))
        return out
    if isstr: return None
    sq = as_seq(v)
    out = []
    for s, b in cx.it.decide(cx.st, lt(k, seqlen(sq))):
        if not b: cx.panic(s, "bounds:" + cx.name); continue
        if mut and cx.args[0].op == "ref":
            r = cx.it.target(s, cx.args[0])
            out.append((s, mk("ref", r.a[0], r.a[1] + (("ix", k),))))
        else: out.append((s, elem(sq, k)))
    return out


def str_slice(cx, v, lo, hi, st=None):
    """a byte range of a string; exact when both ends are character boundaries"""
    st = st or cx.st
    a, b = byte_pos(v, lo), byte_pos(v, hi)
    if a is False or b is False:
        cx.panic(st, "string slice")
        return []
    if a is not None and b is not None:
        out = []
        for s, ok in cx.it.decide(st, le(a, b)):
            if ok: out.append((s, mkstr(slice_(chars_of(v), a, b))))
            else: cx.panic(s, "string slice")
        return out
    cx.panic(st, "string slice")
    return [(st, mk("bsub", v, lo, hi))]


@model("Vec::retain", "Vec::retain_mut")
def m_retain(cx):
    sq = as_seq(cx.v(0))
    n, t = cx.it.lam_over(cx.st, cx.args[1], sq)
    e = elem(sq, n)
    s = cx.st.copy()
    cx.it.store(s, cx.args[0], comp(lam(n, ite(as_bool(t), ones(e), EMPTY)), seqlen(sq)))
    return (s, UNIT)


@model("slice::join", "slice::concat", "Join::join", "Concat::concat")
def m_join(cx):
    sq = as_seq(cx.v(0))
    sep = cx.v(1) if len(cx.args) > 1 else S("")
    if all(p.op == "one" for p in sq.a[0]):
        parts = []
        for k, p in enumerate(sq.a[0]):
            if k: parts.append(sep)
            parts.append(p.a[0])
        return cx.ret(concat(*parts) if parts else S(""))
    return cx.ret(mk("call", "join", sq, sep))


@model("slice::reverse")
def m_reverse(cx):
    s = cx.st.copy()
    a = as_seq(cx.v(0))
    r = seq(*reversed(a.a[0])) if all(p.op == "one" for p in a.a[0]) else seq(mk("rev", a))
    cx.it.store(s, cx.args[0], r)
    return (s, UNIT)


@model("Vec::dedup")
def m_dedup(cx):
    a = as_seq(cx.v(0))
    if len(a.a[0]) > 4 or not all(p.op == "one" for p in a.a[0]): return m_sort(cx)
    states = [(cx.st, [])]
    for p in a.a[0]:
        nxt = []
        for s, kept in states:
            if not kept: nxt.append((s, [p])); continue
            for s2, b in cx.it.decide(s, eq(kept[-1].a[0], p.a[0])):
                nxt.append((s2, kept if b else kept + [p]))
        states = nxt
    out = []
    for s, kept in states:
        s = s.copy()
        cx.it.store(s, cx.args[0], seq(*kept))
        out.append((s, UNIT))
    return out


@model("slice::sort", "slice::sort_unstable", "slice::sort_by", "Vec::sort", "slice::sort_by_key")
def m_sort(cx):
    s = cx.st.copy()
    cx.it.store(s, cx.args[0], mk("call", cx.name.split("::")[-1], as_seq(cx.v(0))))
    return (s, UNIT)


@model("slice::copy_from_slice", "slice::clone_from_slice")
def m_copyslice(cx):
    a, b = as_seq(cx.v(0)), as_seq(cx.v(1))
    out = []
    for s, ok_ in cx.it.decide(cx.st, inn(sub(seqlen(a), seqlen(b)), ZERO)):
        if not ok_:
            cx.panic(s, "slice lengths")
            continue
        s = s.copy()
        cx.it.store(s, cx.args[0], b)
        out.append((s, UNIT))
    return out


@model("slice::fill")
def m_fill(cx):
    s = cx.st.copy()
    v = cx.v(1)
    cx.it.store(s, cx.args[0], comp(lam(fresh("n"), seq(mk("one", v))), seqlen(as_seq(cx.v(0)))))
    return [(s, UNIT)]


@model("slice::swap")
def m_swap(cx):
    s = cx.st.copy()
    cx.it.store(s, cx.args[0], mk("call", "swap", as_seq(cx.v(0)), cx.v(1), cx.v(2)))
    return (s, UNIT)


# ---------------------------------------------------------------- maps and sets
def vtype(cx, k=0):
    """value type of the map argument k"""
    t = cx.it.strip(cx.atys[k])
    if t and t["k"] == "adt" and len(t["args"]) > 1: return t["args"][1]
    return None


def vget(cx, m, k, arg):
    """value under a key; through a recursive map as a walk"""
    vt = vtype(cx, arg)
    if m.op == "fld" and m.a[2] is None and vt is not None and cx.it.walkable(vt, m.a[1]):
        base = m.a[0]
        i = m.a[1]
        if base.op == "wget" and base.a[1] == i: return wget(base.a[0], i, seq(base.a[2], mk("one", k)))
        return wget(base, i, seq(mk("one", k)))
    return mget(m, k)


@model("BTreeMap::get", "HashMap::get")
def m_mget(cx):
    out = []
    m, k = cx.v(0), cx.v(1)
    if m.op == "dd":
        return [(s, opt(has(l, k), vget(cx, l, k, 0))) for s, l in cx.it.split(cx.st, m)]
    return cx.ret(opt(has(m, k), vget(cx, m, k, 0)))


@model("BTreeMap::contains_key", "HashMap::contains_key", "HashSet::contains", "BTreeSet::contains")
def m_has(cx):
    return cx.ret(has(cx.v(0), cx.v(1)))


@model("HashSet::get", "BTreeSet::get")
def m_setget(cx):
    k = cx.v(1)
    return [(s, some(k) if b else NONE) for s, b in cx.it.decide(cx.st, has(cx.v(0), k))]


@model("BTreeMap::get_mut", "HashMap::get_mut")
def m_mgetmut(cx):
    if cx.args[0].op != "ref": return None
    out = []
    k = cx.v(1)
    for s, b in cx.it.decide(cx.st, has(cx.v(0), k)):
        r = cx.it.target(s, cx.args[0])
        out.append((s, some(cx.it.push_proj(r, ("mv", k))) if b else NONE))
    return out


@model("BTreeMap::get_key_value", "HashMap::get_key_value")
def m_getkv(cx):
    m, k = cx.v(0), cx.v(1)
    return cx.ret(opt(has(m, k), tup(k, vget(cx, m, k, 0))))


@model("BTreeMap::insert", "HashMap::insert")
def m_insert(cx):
    m, k, v = cx.v(0), cx.v(1), cx.args[2]
    s = cx.st.copy()
    cx.it.store(s, cx.args[0], mins(m, k, cx.it.deep(cx.st, v) if v.op == "ref" else v))
    return (s, opt(has(m, k), mget(m, k)))


@model("HashSet::insert", "BTreeSet::insert")
def m_sinsert(cx):
    m, k = cx.v(0), cx.v(1)
    s = cx.st.copy()
    cx.it.store(s, cx.args[0], mins(m, k, UNIT))
    return (s, bnot(has(m, k)))


@model("BTreeMap::remove", "HashMap::remove", "HashSet::remove", "BTreeSet::remove", "BTreeMap::remove_entry")
def m_remove(cx):
    m, k = cx.v(0), cx.v(1)
    s = cx.st.copy()
    cx.it.store(s, cx.args[0], mrem(m, k))
    if "Set" in cx.name: return (s, has(m, k))
    v = mget(m, k)
    return (s, opt(has(m, k), tup(k, v) if cx.name.endswith("entry") else v))


@model("BTreeMap::len", "HashMap::len", "HashSet::len", "BTreeSet::len")
def m_mlen(cx): return cx.ret(smap(mlen, cx.v(0)))


@model("BTreeMap::is_empty", "HashMap::is_empty", "HashSet::is_empty", "BTreeSet::is_empty")
def m_mempty(cx): return cx.ret(smap(lambda m: inn(mlen(m), ZERO), cx.v(0)))


@model("BTreeMap::retain", "HashMap::retain")
def m_mretain(cx):
    m = cx.v(0)
    k = fresh("key")
    t = cx.it.pure(cx.st, cx.args[1], [k, mget(m, k)], {mk("has", m, k): ONE} if m.op != "mempty" else {})
    s = cx.st.copy()
    cx.it.store(s, cx.args[0], mkeep(m, lam(k, as_bool(t))))
    return (s, UNIT)


ENTRY = "$Entry"


@model("BTreeMap::entry", "HashMap::entry")
def m_entry(cx):
    if cx.args[0].op != "ref": return None
    return cx.ret(adt(ENTRY, 0, cx.it.target(cx.st, cx.args[0]), cx.v(1)))


def entry_or(cx, default):
    """default(state) -> [(state, value)]"""
    it = cx.it
    e = cx.v(0)
    if e.op != "adt" or e.a[0] != ENTRY: return None
    ref, k = e.a[2], e.a[3]
    m = it.load1(cx.st, ref)
    projs = ref.a[1]
    if projs and projs[-1][0] == "f" and projs[-1][2]:
        # a step of a walk through a recursive map
        ds = default(cx.st)
        if len(ds) == 1:
            s, d = ds[0]
            s = s.copy()
            i = projs[-1][1]
            base = projs[:-1]
            w = EMPTY
            if base and base[-1][0] == "w" and base[-1][1] == i:
                w = base[-1][2]
                base = base[:-1]
            w2 = seq(w, mk("one", k))
            root = it.get_proj(s.cells[ref.a[0]], base)
            it.put(s, ref.a[0], base, ens(root, i, w2, d))
            return [(s, mk("ref", ref.a[0], base + (("w", i, w2),)))]
    out = []
    for s, b in it.decide(cx.st, has(m, k)):
        r = it.push_proj(ref, ("mv", k))
        if b: out.append((s, r)); continue
        for s2, d in default(s):
            s2 = s2.copy()
            it.store(s2, ref, mins(it.load1(s2, ref), k, d))
            out.append((s2, r))
    return out


@model("Entry::or_default")
def m_ordefault(cx):
    t = cx.it.ty(cx.rty)
    def d(st):
        v = default_of(cx.it, t["to"], st)
        if v is None: raise Limit("default of " + t["s"])
        return [(st, v)]
    return entry_or(cx, d)


@model("Entry::or_insert")
def m_orinsert(cx):
    v = cx.args[1]
    return entry_or(cx, lambda st: [(st, v)])


@model("Entry::or_insert_with")
def m_orinsertw(cx): return entry_or(cx, lambda st: cx.it.call_value(cx.args[1], [], st))


@model("Entry::and_modify")
def m_andmodify(cx):
    it = cx.it
    e = cx.v(0)
    if e.op != "adt" or e.a[0] != ENTRY: return None
    ref, k = e.a[2], e.a[3]
    m = it.load1(cx.st, ref)
    out = []
    for s, b in it.decide(cx.st, has(m, k)):
        if not b: out.append((s, e)); continue
        for s2, _ in it.call_value(cx.args[1], [it.push_proj(ref, ("mv", k))], s): out.append((s2, e))
    return out


@model("OccupiedEntry::insert", "VacantEntry::insert", "OccupiedEntry::get", "OccupiedEntry::get_mut", "OccupiedEntry::into_mut", "OccupiedEntry::remove",
       "OccupiedEntry::remove_entry")
def m_entryop(cx):
    it, e, op = cx.it, cx.v(0), cx.name.split("::")[-1]
    if e.op != "adt" or e.a[0] != ENTRY: return None
    ref, k = e.a[2], e.a[3]
    m = it.load1(cx.st, ref)
    old = mget(m, k)
    if op == "get": return cx.ret(old)
    r = it.push_proj(ref, ("mv", k))
    if op in ("get_mut", "into_mut"): return cx.ret(r)
    s = cx.st.copy()
    if op.startswith("remove"):
        it.store(s, ref, mrem(m, k))
        return (s, tup(k, old) if op == "remove_entry" else old)
    v = cx.args[1]
    it.store(s, ref, mins(m, k, it.deep(cx.st, v) if v.op == "ref" else v))
    return (s, r if cx.name.startswith("Vacant") else old)


@model("Entry::key", "OccupiedEntry::key", "VacantEntry::key", "VacantEntry::into_key")
def m_entrykey(cx):
    e = cx.v(0)
    return cx.ret(e.a[3])


# ---------------------------------------------------------------- calls of function values
@model("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
def m_call(cx):
    a = cx.it.load(cx.st, cx.args[1])
    if a.op != "tup": return None
    return cx.it.call_value(cx.args[0], list(a.a), cx.st)


# ---------------------------------------------------------------- regular expressions
@model("Regex::new")
def m_rxnew(cx):
    p = cx.v(0)
    r = mk("regex", p)
    if p.op != "str": return None
    import rx
    if rx.valid(p.a[0]): return cx.ret(ok(r))
    return None


@model("Regex::replace", "Regex::replace_all", "Regex::replacen")
def m_rxreplace(cx):
    r, s, by = cx.v(0), cx.v(1), cx.it.load(cx.st, cx.args[2])
    import rx
    how = cx.name.endswith("_all")
    if cx.name.endswith("replacen"):
        k = by
        by = cx.it.load(cx.st, cx.args[3])
        if k.op != "int": return None
        how = True if k.a[0] == 0 else False if k.a[0] == 1 else k.a[0]
    return cx.ret(smap(lambda l: rx.replace(r, l, by, how), s))


@model("Regex::is_match")
def m_rxmatch(cx): return cx.ret(inn(mk("spred", "rx", cx.v(0), cx.v(1)), ONE))


@model("Stemmer::create")
def m_stcreate(cx): return cx.ret(mk("stemmer", cx.v(0)))


@model("Stemmer::stem")
def m_ststem(cx):
    if not cx.f.get("crate", "").startswith("rust_stemmers") and "rust_stemmers" not in cx.f["fn"]: return None
    return cx.ret(mk("stem", cx.v(0), cx.v(1)))


import loops as _l  # noqa: E402,F401
