"""Models of serde's Serializer primitives: serializing a value yields a term that denotes its JSON.

    jstr(s)  jint(i)  jnum(f)  jbool(b)  jnull  jarr(seq of json)  jobj(announced, seq of (key, json))
    jser(type, value)     the value of a type that is being serialized already (recursive types)

A serializer is used up when it is called, and generic code cannot look into what it returns, so the
`Ok` value of a call carries the JSON; for a compound serializer (map, struct, sequence) the entries
are collected in the builder."""
from terms import *
from interp import Limit, Impure
import model as M
from model import model, S, ones, ones_dd, coll_seq, opt, mkstr

SER, BLD, FLATB = "$Ser", "$Bld", "$FlatBld"
NOTHING = mk("nojson")


def jok(st, j): return [(st, adt(RES, 0, j))]


def is_flat(v): return v.op == "adt" and "FlatMapSerializer" in v.a[0]


def ours(v): return v.op == "adt" and v.a[0] == SER


def jobj(n, sq):
    """an object: the members with a constant key first, in the order of their keys"""
    if sq.op == "dd": return map_leaves(sq, lambda l: jobj(n, l))
    ps = list(as_seq(sq).a[0])
    const = [p for p in ps if const_key(p) is not None]
    const.sort(key=const_key)
    return mk("jobj", seq(*(const + [p for p in ps if const_key(p) is None])))


def const_key(p):
    if p.op == "one" and p.a[0].op == "tup" and p.a[0].a[0].op == "str": return p.a[0].a[0].a[0]
    return None


def jarr(n, sq): return mk("jarr", sq)


@reb("jobj")
def _reb_jobj(sq): return jobj(None, sq)


def intlike(t): return t["k"] == "int"


def lift(it, st, f):
    """the JSON of an element, computed by f(state) -> [(state, result)], as one decision diagram;
    an Err outcome makes the whole serialization fail and is noted"""
    base = dict(st.cells)
    cases = []
    for s, v in f(st.copy()):
        for c, x in base.items():
            if s.cells.get(c) is not x: raise Impure(str(c))
        g = it.guard_of(st, s)
        for gg, l in paths(v):
            g2 = dict(g)
            ok = True
            for k, x in gg.items():
                o = g2.get(k)
                x = x if o is None else o.inter(x)
                if x.empty(): ok = False
                g2[k] = x
            if not ok: continue
            if l.op == "adt" and l.a[0] == RES:
                if l.a[1] == 1:
                    it.ser_err.append((dict(st.facts), g2, it.deep(s, l.a[2])))
                    continue
                cases.append((g2, it.deep(s, l.a[2])))
            else:
                cases.append((g2, fld(it.deep(s, l), 0, 0)))
    return ddcases(cases)


def each(it, st, sq, f):
    """comp over the elements of sq of f(state, element)"""
    n = fresh("n")
    e = elem(sq, n)
    g = {}
    for gg, l in paths(lt(n, seqlen(sq))):
        if l is TRUE: g = gg
    s = st.restrict(g)
    if s is None: return EMPTY
    return comp(lam(n, ones_dd(lift(it, s, lambda s1: f(s1, e)))), seqlen(sq))


def over(st, it, v, f):
    """cases of a value given as a decision diagram"""
    if v.op != "dd": return f(st, v)
    out = []
    for s, l in it.split(st, v): out += f(s, l)
    return out


def instance(it, tid, path):
    cand = []
    for i, x in enumerate(it.insts):
        if not x or not x.get("body") or not x["path"].endswith("::serialize") or "Serialize" not in (x.get("trait") or ""): continue
        if it.stripid(x["body"]["locals"][1]) == tid: return i
        if (re_local(x["path"]) or "") == path: cand.append(i)
    return cand[0] if len(cand) == 1 else None


def re_local(p):
    import re
    m = re.search(r"for ([\w:]+)(<.*>)?>::serialize$", p) or re.match(r"<([\w:]+)(<.*>)? as serde::Serialize>::serialize$", p)
    return m.group(1) if m else None


def ser(it, st, v, tid, S_=None):
    """serializes a value of type tid: [(state, Result)]"""
    S_ = S_ if S_ is not None else adt(SER, 0)
    v = it.load(st, v)
    while True:
        t = it.ty(tid)
        if t is None: raise Limit("serialize a value of unknown type")
        if t["k"] == "ref": tid = t["to"]
        elif t["k"] == "adt" and t["path"].split("::")[-1] in ("Box", "Rc", "Arc", "Cow") and t.get("args"):
            tid = [a for a in t["args"] if isinstance(a, int)][0]
        else: break
        v = it.load(st, v)
    if v.op == "dd": return over(st, it, v, lambda s, l: ser(it, s, l, tid, S_))
    if is_flat(S_): return flat(it, st, v, tid, S_)
    k = t["k"]
    p = t.get("path", "").split("::")[-1]
    if k == "str" or k == "adt" and p == "String": return jok(st, mk("jstr", v))
    if k == "char": return jok(st, mk("jstr", mkstr(seq(mk("one", v)))))
    if k == "int": return jok(st, mk("jint", v))
    if k == "float": return jok(st, mk("jnum", v))
    if k == "bool": return jok(st, mk("jbool", as_bool(v)))
    if k == "tuple" and not t["elems"]: return jok(st, mk("jnull"))
    if k == "tuple":
        cells = [ser1(it, st, v.a[i] if v.op == "tup" else fld(v, i), e) for i, e in enumerate(t["elems"])]
        return jok(st, jarr(I(len(cells)), seq(*[mk("one", c) for c in cells])))
    if k in ("slice", "array") or k == "adt" and p in ("Vec", "VecDeque", "BTreeSet", "HashSet", "LinkedList"):
        sq = as_seq(coll_seq(it, st, v, tid))
        et = t["elem"] if k in ("slice", "array") else t["args"][0]
        return jok(st, jarr(seqlen(sq), each(it, st, sq, lambda s, e: ser(it, s, e, et))))
    if k == "adt" and p in ("BTreeMap", "HashMap"):
        sq = as_seq(coll_seq(it, st, v, tid))
        kt, vt = t["args"][0], t["args"][1]
        def ent(s, e):
            return jok(s, tup(key_of(it, s, fld(e, 0), kt), ser1(it, s, fld(e, 1), vt)))
        return jok(st, jobj(seqlen(sq), each(it, st, sq, ent)))
    if k == "adt" and p == "Option":
        out = []
        for s, l in it.split(st, disc(v, 2)) if disc(v, 2).op == "dd" else split_disc(it, st, v):
            d = l.a[0] if l.op == "int" else None
            if d == 0: out += jok(s, mk("jnull"))
            else: out += ser(it, s, fld(v, 0, 1) if v.op != "adt" else v.a[2], t["args"][0])
        return out
    if k == "adt" and t["path"].startswith("serde_json::") and p == "Value":
        if v.op == "adt" and v.a[0] == "$JV": return jok(st, v.a[2])
    if k == "adt" and it.ser_hook:
        j = it.ser_hook(it, st, t["path"], v, tid)
        if j is not None: return jok(st, j)
    if k == "adt" and (t.get("local") or t["path"].startswith("elasticlunr")):
        i = instance(it, tid, t["path"])
        if i is None:
            it.unknown.append("Serialize for " + t["path"])
            return jok(st, mk("jser", t["path"], v))
        if i in it.stack: return jok(st, mk("jser", t["path"], it.deep(st, v)))
        arg = v
        if it.ty(it.insts[i]["body"]["locals"][1])["k"] == "ref" and v.op != "ref": pass
        return it.call_inst(i, [arg, S_], st)
    it.unknown.append("Serialize for " + t["s"])
    return jok(st, mk("jser", t["s"], it.deep(st, v)))


def split_disc(it, st, v):
    b = inn(disc(v, 2), ONE)
    return [(s, I(1) if l is TRUE else I(0)) for s, l in it.split(st, b)]


def ser1(it, st, v, tid): return lift(it, st, lambda s: ser(it, s, v, tid))


def key_of(it, st, v, tid):
    """a map key: the text it becomes"""
    j = ser1(it, st, v, tid)
    def f(l):
        if l.op == "jstr": return l.a[0]
        if l.op == "jint":
            x = l.a[0]
            return S(str(x.a[0])) if x.op == "int" else mk("fmt", "int", x)
        it.ser_badkey.append(l)
        return mk("badkey", l)
    return map_leaves(j, f) if j.op == "dd" else f(j)


def flat(it, st, v, tid, S_):
    """a value serialized into the map of the value that flattens it"""
    t = it.ty(tid)
    p = t.get("path", "").split("::")[-1]
    if t["k"] == "adt" and p not in ("BTreeMap", "HashMap", "Option") and (t.get("local") or t["path"].startswith("elasticlunr")):
        i = instance(it, tid, t["path"])
        if i is not None: return it.call_inst(i, [v, S_], st)
    out = []
    for s, r in ser(it, st, v, tid):
        def f(s1, l):
            if l.op != "adt": return [(s1, l)]
            if l.a[1] == 1: return [(s1, l)]
            j = l.a[2]
            if j.op == "jobj":
                push(it, s1, fld_ref(S_), j.a[0])
                return [(s1, adt(RES, 0, UNIT))]
            if j.op == "jnull": return [(s1, adt(RES, 0, UNIT))]
            it.ser_err.append((dict(s1.facts), {}, S("can only flatten structs and maps")))
            return [(s1, adt(RES, 1, S("flatten")))]
        s = s.copy()
        out += over(s, it, r, f)
    return out


def fld_ref(S_): return S_.a[2]


def push(it, st, ref, sq):
    b = it.load(st, ref)
    if b.op != "adt" or b.a[0] != BLD: raise Limit("map serializer of another shape")
    # a reference to the builder itself, not to what it may refer to
    it.store(st, ref, adt(BLD, 0, b.a[2], seq(b.a[3], sq), b.a[4], b.a[5]))


def builder(kind, n): return adt(BLD, 0, kind, EMPTY, n, NOTHING)


def optlen(v):
    if v.op == "adt" and v.a[0] == OPT: return v.a[2] if v.a[1] else mk("nolen")
    return mk("nolen")


# ---------------------------------------------------------------- Serialize::serialize and Serializer::*
@model("Serialize::serialize")
def m_serialize(cx):
    S_ = cx.it.load(cx.st, cx.args[1])
    if not (ours(S_) or is_flat(S_)): return None
    return ser(cx.it, cx.st, cx.args[0], cx.ty(0), S_)


def recv(cx):
    """the abstract serializer a primitive is called on; a flattening one keeps its builder"""
    v = cx.it.load(cx.st, cx.args[0])
    if ours(v) or is_flat(v): return v
    return None


def prim(*names):
    def d(f):
        def g(cx):
            v = recv(cx)
            if v is None: return None
            if is_flat(v): return [(cx.st, adt(RES, 1, S("can only flatten structs and maps")))]
            return f(cx)
        for n in names: M.MODELS["Serializer::" + n] = g
        return f
    return d


@prim("serialize_str", "collect_str")
def _str(cx):
    if cx.f["fn"].endswith("collect_str"):
        t = cx.it.strip(cx.ty(1))
        v = cx.v(1)
        if t and (t["k"] == "str" or t["k"] == "adt" and t["path"].endswith("::String")): return jok(cx.st, mk("jstr", v))
        if t and t["k"] == "char": return jok(cx.st, mk("jstr", mkstr(seq(mk("one", v)))))
        if v.op == "fargs":
            x = M.fmt_text(v)
            if x is not None: return jok(cx.st, mk("jstr", x))
        return jok(cx.st, mk("jstr", mk("fmt", t["s"] if t else "?", v)))
    return jok(cx.st, mk("jstr", cx.v(1)))


@prim("serialize_char")
def _char(cx): return jok(cx.st, mk("jstr", mkstr(seq(mk("one", cx.v(1))))))


@prim("serialize_bool")
def _bool(cx): return jok(cx.st, mk("jbool", as_bool(cx.v(1))))


@prim(*["serialize_" + x for x in "i8 i16 i32 i64 i128 u8 u16 u32 u64 u128".split()])
def _int(cx): return jok(cx.st, mk("jint", cx.v(1)))


@prim("serialize_f32", "serialize_f64")
def _flt(cx): return jok(cx.st, mk("jnum" if cx.f["fn"].endswith("64") else "jnum32", cx.v(1)))


@prim("serialize_none", "serialize_unit", "serialize_unit_struct")
def _null(cx): return jok(cx.st, mk("jnull"))


@prim("serialize_some")
def _some(cx): return ser(cx.it, cx.st, cx.args[1], cx.ty(1))


@prim("serialize_newtype_struct")
def _newt(cx): return ser(cx.it, cx.st, cx.args[2], cx.ty(1))


@prim("serialize_unit_variant")
def _unitv(cx): return jok(cx.st, mk("jstr", cx.v(3)))


@prim("serialize_newtype_variant")
def _newv(cx):
    return [(s, adt(RES, 0, jobj(I(1), seq(mk("one", tup(cx.v(3), r.a[2]))))) if r.op == "adt" and r.a[1] == 0 else r)
            for s, r in ser(cx.it, cx.st, cx.args[4], cx.ty(1))]


@prim("serialize_seq")
def _seq(cx): return jok(cx.st, builder("arr", optlen(cx.v(1))))


@prim("serialize_tuple")
def _tuple(cx): return jok(cx.st, builder("arr", cx.v(1)))


@prim("serialize_tuple_struct")
def _tuples(cx): return jok(cx.st, builder("arr", cx.v(2)))


@prim("collect_seq")
def _collect_seq(cx):
    it = cx.it
    sq = as_seq(coll_seq(it, cx.st, cx.args[1], cx.ty(1)))
    et = item_ty(cx, sq)
    if et is None: return None
    return jok(cx.st, jarr(seqlen(sq), each(it, cx.st, sq, lambda s, e: ser(it, s, e, et))))


def item_ty(cx, sq):
    """type of the elements, from the type of the collection or iterator"""
    t = cx.it.strip(cx.ty(1))
    if t is None: return None
    if t["k"] in ("slice", "array"): return t["elem"]
    if t["k"] == "adt":
        p = t["path"].split("::")[-1]
        if p in ("Vec", "VecDeque", "BTreeSet", "HashSet", "Iter", "IntoIter", "Keys", "Option"):
            a = [x for x in t["args"] if isinstance(x, int)]
            return a[0]
        if p in ("Values",): return [x for x in t["args"] if isinstance(x, int)][1]
        if p == "Map":
            c = cx.it.ty([x for x in t["args"] if isinstance(x, int)][-1])
            if c and c["k"] == "closure" and c.get("inst", -1) >= 0: return cx.it.insts[c["inst"]]["body"]["locals"][0]
            if c and c["k"] == "fndef" and c["callee"].get("inst", -1) >= 0:
                b = cx.it.insts[c["callee"]["inst"]].get("body")
                if b: return b["locals"][0]
    return None


@prim("collect_map")
def _collect_map(cx):
    it = cx.it
    ts = [x for x in cx.f.get("args", []) if isinstance(x, int)]
    if len(ts) < 4: return None
    kt, vt = ts[1], ts[2]
    sq = as_seq(coll_seq(it, cx.st, cx.args[1], ts[3]))
    def ent(s, e): return jok(s, tup(key_of(it, s, fld(e, 0), kt), ser1(it, s, fld(e, 1), vt)))
    return jok(cx.st, jobj(seqlen(sq), each(it, cx.st, sq, ent)))


def _open(cx, n):
    v = recv(cx)
    if v is None: return None
    if is_flat(v):
        b = cx.it.load(cx.st, fld_ref(v))
        return jok(cx.st, adt(FLATB, 0, fld_ref(v), n, seqlen(b.a[3]) if b.op == 'adt' and b.a[0] == BLD else NOTHING))
    return jok(cx.st, builder("obj", n))


@model("Serializer::serialize_map")
def _map(cx): return _open(cx, optlen(cx.v(1)))


@model("Serializer::serialize_struct")
def _struct(cx): return _open(cx, cx.v(2))


# ---------------------------------------------------------------- builders
def _target(cx):
    """reference to the builder that a call adds to"""
    r = cx.args[0]
    v = cx.it.load1(cx.st, r) if r.op == "ref" else r
    while v.op == "ref":
        r = v
        v = cx.it.load1(cx.st, r)
    if v.op == "adt" and v.a[0] == FLATB: return v.a[2]
    if v.op == "adt" and v.a[0] == BLD: return r
    return None


def adder(*names):
    def d(f):
        def g(cx):
            r = _target(cx)
            if r is None: return None
            return f(cx, r)
        for n in names: M.MODELS[n] = g
        return f
    return d


OKU = adt(RES, 0, UNIT)


def _add(cx, st, ref, piece):
    s = st.copy()
    push(cx.it, s, ref, seq(mk("one", piece)))
    return s


def put(cx, ref, key, vres):
    out = []
    for s, r in vres:
        def f(s1, l):
            if l.op == "adt" and l.a[1] == 1: return [(s1, l)]
            j = l.a[2] if l.op == "adt" else fld(l, 0, 0)
            return [(_add(cx, s1, ref, tup(key, cx.it.deep(s1, j)) if key is not None else cx.it.deep(s1, j)), OKU)]
        out += over(s, cx.it, r, f)
    return out


@adder("SerializeStruct::serialize_field", "SerializeStructVariant::serialize_field")
def _field(cx, ref): return put(cx, ref, cx.v(1), ser(cx.it, cx.st, cx.args[2], cx.ty(1)))


@adder("SerializeStruct::skip_field")
def _skip(cx, ref): return [(cx.st, OKU)]


@adder("SerializeMap::serialize_entry")
def _entry(cx, ref):
    k = key_of(cx.it, cx.st, cx.args[1], cx.ty(1))
    return put(cx, ref, k, ser(cx.it, cx.st, cx.args[2], cx.ty(2)))


@adder("SerializeMap::serialize_key")
def _key(cx, ref):
    k = key_of(cx.it, cx.st, cx.args[1], cx.ty(1))
    s = cx.st.copy()
    b = cx.it.load(s, ref)
    cx.it.store(s, ref, adt(BLD, 0, b.a[2], b.a[3], b.a[4], cx.it.deep(s, k)))
    return [(s, OKU)]


@adder("SerializeMap::serialize_value")
def _value(cx, ref):
    b = cx.it.load(cx.st, ref)
    k = b.a[5]
    if k is NOTHING: raise Limit("value without a key")
    s = cx.st.copy()
    cx.it.store(s, ref, adt(BLD, 0, b.a[2], b.a[3], b.a[4], NOTHING))
    return put(cx, ref, k, ser(cx.it, s, cx.args[1], cx.ty(1)))


@adder("SerializeSeq::serialize_element", "SerializeTuple::serialize_element", "SerializeTupleStruct::serialize_field")
def _element(cx, ref): return put(cx, ref, None, ser(cx.it, cx.st, cx.args[1], cx.ty(1)))


@model("SerializeStruct::end", "SerializeMap::end", "SerializeSeq::end", "SerializeTuple::end", "SerializeTupleStruct::end", "SerializeStructVariant::end")
def _end(cx):
    b = cx.it.load(cx.st, cx.args[0])
    if b.op == "adt" and b.a[0] == FLATB:
        m = cx.it.load(cx.st, b.a[2])
        if b.a[3].op != "nolen" and b.a[4] is not NOTHING and m.op == "adt" and m.a[0] == BLD:
            cx.it.ser_len.append((dict(cx.st.facts), b.a[3], sub(seqlen(m.a[3]), b.a[4]), list(cx.it.stack)))
        return [(cx.st, OKU)]
    if b.op == "dd":
        return [x for s, l in cx.it.split(cx.st, b) for x in _end1(cx, s, l)]
    return _end1(cx, cx.st, b)


def _end1(cx, st, b):
    if b.op != "adt" or b.a[0] != BLD: return cx.it.opaque_call(cx.name, [b], st)
    if b.a[4].op != "nolen": cx.it.ser_len.append((dict(st.facts), b.a[4], seqlen(b.a[3]), list(cx.it.stack)))
    return jok(st, (jobj if b.a[2] == "obj" else jarr)(b.a[4], b.a[3]))


# ---------------------------------------------------------------- entry points
@model("serde_json::to_writer", "serde_json::ser::to_writer", "serde_json::to_writer_pretty", "serde_json::ser::to_writer_pretty")
def m_towriter(cx):
    r = cx.args[0]
    old = cx.it.load(cx.st, r)
    if r.op != "ref" or old is not EMPTY: return None
    nm = "jpretty" if "pretty" in cx.f["fn"] else "jcompact"
    out = []
    for s, x in ser(cx.it, cx.st, cx.args[1], cx.ty(1)):
        def f(s1, l):
            if l.op != "adt" or l.a[1] == 1: return [(s1, l)]
            s2 = s1.copy()
            cx.it.store(s2, r, mk(nm + "_bytes", l.a[2]))
            return [(s2, OKU)]
        out += over(s, cx.it, x, f)
    return out


@model("String::from_utf8", "str::from_utf8")
def m_fromutf8(cx):
    v = cx.v(0)
    if v.op in ("jcompact_bytes", "jpretty_bytes"): return cx.ret(adt(RES, 0, mk(v.op[:-6], *v.a)))
    return None


@model("String::from_utf8_unchecked", "str::from_utf8_unchecked")
def m_fromutf8u(cx):
    v = cx.v(0)
    if v.op in ("jcompact_bytes", "jpretty_bytes"): return cx.ret(mk(v.op[:-6], *v.a))
    return None


@model("serde_json::to_string", "serde_json::ser::to_string", "serde_json::to_string_pretty", "serde_json::ser::to_string_pretty",
       "serde_json::to_vec", "serde_json::to_vec_pretty", "serde_json::ser::to_vec", "serde_json::ser::to_vec_pretty")
def m_tostring(cx):
    cx.it.json_roots.append((cx.it.strip(cx.ty(0)).get("path"), cx.where))
    v = cx.it.deep(cx.st, cx.v(0))
    t = cx.it.strip(cx.ty(0))
    nm = "jpretty" if "pretty" in cx.f["fn"] else "jcompact"
    if "to_vec" in cx.f["fn"]: nm += "_bytes"
    if cx.it.json_deep:
        out = []
        for s, r in ser(cx.it, cx.st, cx.args[0], cx.ty(0)):
            out += over(s, cx.it, r, lambda s1, l: [(s1, adt(RES, 0, mk(nm, l.a[2])) if l.op == "adt" and l.a[1] == 0 else l)])
        return out
    return jok(cx.st, mk(nm, mk("jser", t.get("path", t["s"]), v)))


@model("serde_json::to_value", "serde_json::value::to_value")
def m_tovalue(cx):
    out = []
    for s, r in ser(cx.it, cx.st, cx.args[0], cx.ty(0)):
        out += over(s, cx.it, r, lambda s1, l: [(s1, adt(RES, 0, adt("$JV", 0, l.a[2])) if l.op == "adt" and l.a[1] == 0 else l)])
    return out


@model("Error::custom")
def m_custom(cx): return cx.ret(mk("sererr", cx.it.deep(cx.st, cx.v(0))))
