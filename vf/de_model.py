"""Models of serde's Deserializer primitives: a type's Deserialize implementation is interpreted on the
JSON term that its Serialize implementation yields. The members of a map of unknown size are represented
by one member at an arbitrary position; a serialized value of a type that is being read already
(recursive types) reads back as itself."""
import re
from terms import *
from interp import Limit, Impure
import model as M
from model import model, S, NONE, some, mkstr
import serde_model as SM

DE, ACC, VAR, CONTENT = "$De", "$Acc", "$Var", "$Content"
NOVAL = mk("nojson")
ints = ("jint",)


def de(j): return adt(DE, 0, j)
def err(*a): return adt(RES, 1, mk("sererr", *[x if isinstance(x, T) else S(x) for x in a]))
def ok(v): return adt(RES, 0, v)


def instance(it, tid):
    """Deserialize::deserialize of the type, for the text deserializer"""
    for i, x in enumerate(it.insts):
        if not x or not x.get("body") or not x["path"].endswith("::deserialize") or "Deserialize" not in (x.get("trait") or ""): continue
        r = it.ty(x["body"]["locals"][0])
        if r["k"] == "adt" and r["args"] and r["args"][0] == tid: return i
    return None


def visit(it, st, vis, vt, meth, args):
    """calls a method of the visitor; None when the visitor does not have it"""
    t = it.ty(vt)
    p = t.get("path") if t else None
    if p is None: return None
    for i, x in enumerate(it.insts):
        if x and x.get("body") and x["path"].endswith("::" + meth) and re.match(r"<%s(<.*>)? as serde::de::Visitor" % re.escape(p), x["path"]):
            return it.call_inst(i, [vis] + args, st)
    return None


def drive(it, st, j, vis, vt, hint=None):
    """hands the JSON to the visitor"""
    if j.op == "dd":
        out = []
        for s, l in it.split(st, j): out += drive(it, s, l, vis, vt, hint)
        return out
    def first(*ms):
        for m, a in ms:
            r = visit(it, st, vis, vt, m, a)
            if r is not None: return r
        return [(st, err("invalid type", j.op))]
    if hint == "option":
        return first(("visit_none", []) if j.op == "jnull" else ("visit_some", [de(j)]))
    if hint == "newtype": return first(("visit_newtype_struct", [de(j)]))
    if hint == "enum":
        if j.op == "jstr": return first(("visit_enum", [adt(VAR, 0, j)]))
        return [(st, err("invalid type", j.op))]
    if hint == "ignored": return [(st, ok(UNIT))]
    if j.op == "jstr": return first(("visit_borrowed_str", [j.a[0]]), ("visit_str", [j.a[0]]), ("visit_string", [j.a[0]]))
    if j.op == "jint": return first(("visit_u64", [j.a[0]]), ("visit_i64", [j.a[0]]))
    if j.op in ("jnum", "jnum32"): return first(("visit_f64", [j.a[0]]), ("visit_f32", [j.a[0]]))
    if j.op == "jbool": return first(("visit_bool", [j.a[0]]))
    if j.op == "jnull": return first(("visit_unit", []), ("visit_none", []))
    if j.op in ("jobj", "jarr"):
        if j.op == "jobj" and hint in ("str", "seq") or j.op == "jarr" and hint in ("str", "map"): return [(st, err("invalid type", j.op))]
        ents = flatten(it, st, j.a[0])
        out = []
        for s, sq, partial in ents:
            s = s.copy()
            c = it.newcell(s, adt(ACC, 0, sq, NOVAL), "acc")
            ref = mk("ref", c, ())
            r = visit(it, s, vis, vt, "visit_map" if j.op == "jobj" else "visit_seq", [ref])
            if r is None:
                out.append((s, err("invalid type", j.op)))
                continue
            for s2, v in r:
                rest = it.load(s2, ref)
                left = rest.op != "adt" or rest.a[2] is not EMPTY
                if left and j.op == "jarr" and not (v.op == "adt" and v.a[0] == RES and v.a[1] == 1):
                    out.append((s2, err("trailing elements of a sequence")))
                else: out.append((s2, v))
        return out
    it.unknown.append("reading " + j.op)
    return [(st, mk("hav", j))]


def flatten(it, st, sq):
    """the members as lists of known length: members of unknown number are represented by none or by
    one at an arbitrary position; [(state, list, partial)]"""
    alts = [(st, [], False)]
    for p in as_seq(sq).a[0]:
        nxt = []
        for s, l, part in alts:
            if p.op == "one": nxt.append((s, l + [p], part)); continue
            n = fresh("n")
            if p.op == "comp": x, h = app(p.a[0], n), p.a[1]
            elif p.op == "sl": x, h = elem(seq(p), n), sub(p.a[2], p.a[1])
            else: raise Limit("members of another form")
            if p.op == "sl": x = seq(mk("one", x))
            z = s.restrict(_g(inn(h, ZERO)))
            if z is not None: nxt.append((z, l, True))
            g = _g(lt(n, h))
            o = s.restrict(dict(g, **{}) | {n: NONNEG}) if g is not None else None
            if o is not None:
                for s2, y in (it.split(o, x) if x.op == "dd" else [(o, x)]):
                    if any(q.op != "one" for q in as_seq(y).a[0]): raise Limit("members of another form")
                    nxt.append((s2, l + list(as_seq(y).a[0]), True))
        alts = nxt
        if len(alts) > 64: raise Limit("too many combinations of members")
    return [(s, seq(*l), part) for s, l, part in alts]


def _g(b):
    for g, l in paths(b):
        if l is TRUE: return g
    return None


def as_json(v):
    """JSON behind what serde buffers while it reads a flattened type"""
    if v.op == "adt" and v.a[0] == CONTENT: return v.a[2]
    if v.op == "adt" and v.a[0].endswith("::Content") and len(v.a) > 2: return mk("jstr", v.a[2])
    return None


def lift(it, st, f):
    base = dict(st.cells)
    cases = []
    for s, v in f(st.copy()):
        g = it.guard_of(st, s)
        for gg, l in paths(v):
            g2 = dict(g)
            good = True
            for k, x in gg.items():
                o = g2.get(k)
                x = x if o is None else o.inter(x)
                if x.empty(): good = False
                g2[k] = x
            if not good: continue
            if l.op == "adt" and l.a[0] == RES and l.a[1] == 1: it.de_err.append((dict(st.facts), g2, it.deep(s, l.a[2]), list(it.stack)))
            else: cases.append((g2, it.deep(s, l.a[2] if l.op == "adt" and l.a[0] == RES else fld(l, 0, 0))))
    return ddcases(cases)


def read(it, st, j, tid):
    """reads a value of type tid from JSON: [(state, Result)]"""
    t = it.ty(tid)
    if t is None: raise Limit("read a value of unknown type")
    if j.op == "dd":
        out = []
        for s, l in it.split(st, j): out += read(it, s, l, tid)
        return out
    p = t.get("path", "").split("::")[-1]
    k = t["k"]
    bad = [(st, err("invalid type", j.op, t["s"]))]
    if j.op == "jser":
        return [(st, ok(j.a[1]))] if t.get("path") == j.a[0] else bad
    if k == "adt" and p == "Content": return [(st, ok(adt(CONTENT, 0, j)))]
    if k == "adt" and p in ("IgnoredAny",): return [(st, ok(UNIT))]
    if k == "adt" and p in ("Box", "Rc", "Arc", "Cow") and t.get("args"):
        return read(it, st, j, [a for a in t["args"] if isinstance(a, int)][0])
    if k == "ref" and it.ty(t["to"])["k"] == "str" or k == "adt" and p == "String":
        return [(st, ok(j.a[0]))] if j.op == "jstr" else bad
    if k == "char":
        if j.op != "jstr": return bad
        c = M.chars_of(j.a[0])
        if len(as_seq(c).a[0]) == 1 and as_seq(c).a[0][0].op == "one": return [(st, ok(as_seq(c).a[0][0].a[0]))]
        return bad
    if k == "int": return [(st, ok(j.a[0]))] if j.op == "jint" else bad
    if k == "float": return [(st, ok(j.a[0]))] if j.op in ("jnum", "jnum32") else ([(st, ok(mk("i2f", 64, j.a[0])))] if j.op == "jint" else bad)
    if k == "bool": return [(st, ok(j.a[0]))] if j.op == "jbool" else bad
    if k == "tuple" and not t["elems"]: return [(st, ok(UNIT))] if j.op == "jnull" else bad
    if k == "adt" and p == "Option":
        if j.op == "jnull": return [(st, ok(NONE))]
        return [(s, ok(some(v.a[2])) if v.op == "adt" and v.a[1] == 0 else v) for s, v in read(it, st, j, t["args"][0])]
    if k == "adt" and p in ("Vec", "VecDeque", "BTreeSet", "HashSet"):
        if j.op != "jarr": return bad
        sq = as_seq(j.a[0])
        n = fresh("n")
        g = _g(lt(n, seqlen(sq)))
        s = st.restrict(dict(g or {}) | {n: NONNEG}) if g is not None else None
        if s is None: return [(st, ok(EMPTY))]
        x = lift(it, s, lambda s1: read(it, s1, elem(sq, n), t["args"][0]))
        if x is UNDEF: return [(st, ok(mk("hav", sq)))]
        return [(st, ok(M.comp(lam(n, M.ones_dd(x)), seqlen(sq))))]
    if k == "adt" and p in ("BTreeMap", "HashMap"):
        if j.op != "jobj": return bad
        sq = as_seq(j.a[0])
        ps = sq.a[0]
        if not ps: return [(st, ok(MEMPTY))]
        n = fresh("n")
        g = _g(lt(n, seqlen(sq)))
        s = st.restrict(dict(g or {}) | {n: NONNEG}) if g is not None else None
        if s is None: return [(st, ok(MEMPTY))]
        e = elem(sq, n)
        kk = lift(it, s, lambda s1: read(it, s1, mk("jstr", fld(e, 0)), t["args"][0]))
        vv = lift(it, s, lambda s1: read(it, s1, fld(e, 1), t["args"][1]))
        if kk.op == "key" and vv.op == "mget" and vv.a[0] is kk.a[0] and vv.a[1] is kk and kk.a[1] is n: return [(st, ok(kk.a[0]))]
        if kk is UNDEF or vv is UNDEF: return [(st, ok(mk("hav", sq)))]
        return [(st, ok(mk("mapof", lam(n, tup(kk, vv)), seqlen(sq))))]
    i = instance(it, tid)
    if i is not None:
        if i in it.stack: return [(st, mk("hav", j))]
        # an error carries the innermost type whose reader raised it
        return [(s, adt(RES, 1, mk("sererr", S("\0" + t.get("path", "")), v.a[2])) if v.op == "adt" and v.a[0] == RES and v.a[1] == 1 and
                 not (v.a[2].op == "sererr" and v.a[2].a[0].op == "str" and v.a[2].a[0].a[0].startswith("\0")) else v) for s, v in it.call_inst(i, [de(j)], st)]
    it.unknown.append("Deserialize for " + t["s"])
    return [(st, mk("hav", j))]


# ---------------------------------------------------------------- the models
@model("Deserialize::deserialize")
def m_deserialize(cx):
    d = cx.it.load(cx.st, cx.args[0])
    if d.op == "adt" and d.a[0] == DE: return read(cx.it, cx.st, d.a[2], cx.ty(0))
    if d.op == "adt" and "FlatMapDeserializer" in d.a[0]:
        v = cx.it.load(cx.st, d.a[2])
        ents = []
        if v.op != "seq" or any(p.op != "one" for p in v.a[0]): raise Limit("buffered members of another form: " + show(v, 5)[:600])
        for p in v.a[0]:
            x = p.a[0]
            if x.op == "adt" and x.a[0] == OPT and x.a[1] == 0: continue
            if x.op != "adt" or x.a[0] != OPT: raise Limit("buffered members of another form")
            k, w = fld(x.a[2], 0), fld(x.a[2], 1)
            jk, jw = as_json(k), as_json(w)
            if jk is None or jw is None or jk.op != "jstr": raise Limit("buffered members of another form")
            ents.append(mk("one", tup(jk.a[0], jw)))
        return read(cx.it, cx.st, SM.jobj(None, seq(*ents)), cx.ty(0))
    return None


def _de(hint):
    def f(cx):
        d = cx.it.load(cx.st, cx.args[0])
        if d.op != "adt" or d.a[0] != DE: return None
        return drive(cx.it, cx.st, d.a[2], cx.args[-1], cx.ty(1), hint)
    return f
for _n_ in "any bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char bytes byte_buf unit unit_struct tuple tuple_struct identifier".split():
    M.MODELS["Deserializer::deserialize_" + _n_] = _de(None)
for _n_, _h_ in (("str", "str"), ("string", "str"), ("seq", "seq"), ("map", "map"), ("struct", "struct"), ("option", "option"), ("newtype_struct", "newtype"), ("enum", "enum"), ("ignored_any", "ignored")):
    M.MODELS["Deserializer::deserialize_" + _n_] = _de(_h_)


def _acc(cx):
    v = cx.it.load(cx.st, cx.args[0])
    return v if v.op == "adt" and v.a[0] == ACC else None


def _accref(cx):
    r = cx.args[0]
    v = cx.it.load1(cx.st, r) if r.op == "ref" else r
    while v.op == "ref":
        r = v
        v = cx.it.load1(cx.st, r)
    return r


def _wrap(res, f):
    out = []
    for s, v in res:
        if v.op == "adt" and v.a[0] == RES and v.a[1] == 0: out.append((s, ok(f(v.a[2]))))
        else: out.append((s, v))
    return out


@model("MapAccess::next_key")
def m_nextkey(cx):
    a = _acc(cx)
    if a is None: return None
    ps = as_seq(a.a[2]).a[0]
    if not ps: return [(cx.st, ok(NONE))]
    s = cx.st.copy()
    e = ps[0].a[0]
    cx.it.store(s, _accref(cx), adt(ACC, 0, seq(*ps[1:]), fld(e, 1)))
    return _wrap(read(cx.it, s, mk("jstr", fld(e, 0)), cx.ty(1)), some)


@model("MapAccess::next_value")
def m_nextvalue(cx):
    a = _acc(cx)
    if a is None: return None
    return read(cx.it, cx.st, a.a[3], cx.ty(1))


@model("MapAccess::next_entry")
def m_nextentry(cx):
    a = _acc(cx)
    if a is None: return None
    ps = as_seq(a.a[2]).a[0]
    if not ps: return [(cx.st, ok(NONE))]
    s = cx.st.copy()
    e = ps[0].a[0]
    cx.it.store(s, _accref(cx), adt(ACC, 0, seq(*ps[1:]), NOVAL))
    out = []
    for s1, k in read(cx.it, s, mk("jstr", fld(e, 0)), cx.ty(1)):
        if k.op != "adt" or k.a[1] == 1:
            out.append((s1, k))
            continue
        out += _wrap(read(cx.it, s1, fld(e, 1), cx.ty(2)), lambda v: some(tup(k.a[2], v)))
    return out


def _seeded(cx, st, j, k):
    """reads through a seed: what serde buffers, or a type's own implementation"""
    t = cx.it.ty(cx.ty(k))
    p = t.get("path", "").split("::")[-1] if t else ""
    if p == "ContentVisitor": return [(st, ok(adt(CONTENT, 0, j)))]
    if p == "PhantomData": return read(cx.it, st, j, [x for x in t["args"] if isinstance(x, int)][0])
    cx.it.unknown.append("reading through the seed " + (t["s"] if t else "?"))
    return [(st, mk("hav", j))]


@model("MapAccess::next_value_seed")
def m_nextvalueseed(cx):
    a = _acc(cx)
    if a is None: return None
    return _seeded(cx, cx.st, a.a[3], 1)


@model("MapAccess::next_key_seed")
def m_nextkeyseed(cx):
    a = _acc(cx)
    if a is None: return None
    ps = as_seq(a.a[2]).a[0]
    if not ps: return [(cx.st, ok(NONE))]
    s = cx.st.copy()
    e = ps[0].a[0]
    cx.it.store(s, _accref(cx), adt(ACC, 0, seq(*ps[1:]), fld(e, 1)))
    return _wrap(_seeded(cx, s, mk("jstr", fld(e, 0)), 1), some)


@model("SeqAccess::next_element_seed")
def m_nextelementseed(cx):
    a = _acc(cx)
    if a is None: return None
    ps = as_seq(a.a[2]).a[0]
    if not ps: return [(cx.st, ok(NONE))]
    s = cx.st.copy()
    cx.it.store(s, _accref(cx), adt(ACC, 0, seq(*ps[1:]), NOVAL))
    return _wrap(_seeded(cx, s, ps[0].a[0], 1), some)


@model("SeqAccess::next_element")
def m_nextelement(cx):
    a = _acc(cx)
    if a is None: return None
    ps = as_seq(a.a[2]).a[0]
    if not ps: return [(cx.st, ok(NONE))]
    s = cx.st.copy()
    cx.it.store(s, _accref(cx), adt(ACC, 0, seq(*ps[1:]), NOVAL))
    return _wrap(read(cx.it, s, ps[0].a[0], cx.ty(1)), some)


@model("MapAccess::size_hint", "SeqAccess::size_hint")
def m_hint(cx): return cx.ret(NONE) if _acc(cx) is not None else None


@model("EnumAccess::variant")
def m_variant(cx):
    v = cx.it.load(cx.st, cx.args[0])
    if v.op != "adt" or v.a[0] != VAR: return None
    return _wrap(read(cx.it, cx.st, v.a[2], cx.ty(1)), lambda x: tup(x, v))


@model("VariantAccess::unit_variant")
def m_unitvariant(cx): return cx.ret(ok(UNIT))


@model("ContentVisitor::new", "ContentVisitor::<'de>::new")
def m_contentvisitor(cx): return cx.ret(UNIT)


@model("de::missing_field")
def m_missing(cx):
    t = cx.it.ty(cx.ty(0))
    if t and t["k"] == "adt" and t["path"].endswith("option::Option"): return cx.ret(ok(NONE))
    return cx.ret(err("missing field", cx.v(0)))


def _e(what):
    def f(cx): return cx.ret(mk("sererr", S(what), *[cx.it.deep(cx.st, cx.v(k)) for k in range(len(cx.args))]))
    return f
for _n_ in ("missing_field", "duplicate_field", "invalid_length", "unknown_field", "unknown_variant", "invalid_value", "invalid_type"):
    M.MODELS["Error::" + _n_] = _e(_n_.replace("_", " "))
