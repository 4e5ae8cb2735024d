"""Path-partitioned abstract interpretation of the dumped MIR over the term domain."""
import functools, re, sys
from terms import *

sys.setrecursionlimit(20000)


class Limit(Exception):
    pass


class Impure(Exception):
    pass


class State:
    __slots__ = ("cells", "facts")

    def __init__(self, cells, facts):
        self.cells, self.facts = cells, facts

    def copy(self): return State(dict(self.cells), dict(self.facts))

    def restrict(self, g):
        """the state under a further guard, or None when infeasible"""
        f = None
        for k, s in g.items():
            old = (f or self.facts).get(k)
            if old is None:
                old = bound(k, f or self.facts)
                new = s if old is None else old.inter(s)
            else:
                new = old.inter(s)
            if new.empty(): return None
            if f is None: f = dict(self.facts)
            f[k] = new
        if f is None: return self.copy()
        return State(dict(self.cells), f)


def fact_of(t, facts):
    s = facts.get(t)
    if s is None and t.op in ("len", "blen"):
        x = t.a[0] if t.op == "blen" else t.a[0].a[0] if t.a[0].op == "chars" else None
        f = facts.get(x) if x is not None else None
        if f is not None and f.kind == "S" and "" not in f: return IntSet([(1, POS)])
    return s or universe(t)


def bound(k, facts):
    """interval of a linear key from the facts about its parts"""
    u = fact_of(k, facts)
    if k.op == "lin":
        lo, hi = k.a[0], k.a[0]
        for t, c in k.a[1]:
            s = fact_of(t, facts)
            if s is None or s.kind != "I" or not s.r:
                lo, hi = NEG, POS
                break
            a, b = s.lo(), s.hi()
            if c < 0: a, b = b, a
            lo = NEG if lo == NEG or abs(a) >= POS else lo + a * c
            hi = POS if hi == POS or abs(b) >= POS else hi + b * c
        r = IntSet([(max(lo, NEG), min(hi, POS))])
        # one more step: k = k1 + rest with a fact about a linear key k1
        for f, s in facts.items():
            if f.op == "lin" and f is not k and s.kind == "I" and s.r:
                for sgn in (1, -1):
                    d = add(k, mulc(f, -sgn))
                    dc, dp = lin_parts(d)
                    if len(dp) <= 1 and len(dp) < len(k.a[1]):
                        if dp:
                            t, c = dp[0]
                            ds = fact_of(t, facts)
                            if ds is None or ds.kind != "I" or not ds.r: continue
                            a, b = ds.lo(), ds.hi()
                            if c < 0: a, b = b, a
                            dl = NEG if abs(a) >= POS else a * c + dc
                            dh = POS if abs(b) >= POS else b * c + dc
                        else: dl = dh = dc
                        fl, fh = (s.lo(), s.hi()) if sgn == 1 else (-s.hi(), -s.lo())
                        lo = NEG if dl <= NEG or fl <= NEG else dl + fl
                        hi = POS if dh >= POS or fh >= POS else dh + fh
                        r = r.inter(IntSet([(lo, hi)]))
        return r
    return u


_found = {}
_by_full = {}


@functools.lru_cache(None)
def norm_path(p):
    p = re.sub(r"<impl ([^<>]*?)>", lambda m: "{" + m.group(1).replace("[T]", "slice").split("::")[-1] + "}", p)
    # drop generic argument lists, but keep <X as Trait> heads
    out, depth, i = "", 0, 0
    while i < len(p):
        if p.startswith("::<", i):
            d, j = 0, i + 2
            while j < len(p):
                if p[j] == "<": d += 1
                if p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0: break
                j += 1
            i = j + 1
            continue
        out += p[i]
        i += 1
    m = re.match(r"^.*\{(\w+)\}::(\w+)$", out)
    if m: return m.group(1) + "::" + m.group(2)
    m = re.match(r"^.*::(\w+)::(\w+)$", out)
    if m and not out.startswith("<"): return m.group(1) + "::" + m.group(2)
    return out


TRANSPARENT = {"std::boxed::Box", "std::ptr::Unique", "std::ptr::NonNull", "std::mem::MaybeUninit",
               "std::mem::ManuallyDrop", "core::ptr::Unique", "std::mem::MaybeDangling", "core::mem::maybe_dangling::MaybeDangling"}


class Frame:
    __slots__ = ("inst", "body", "fid", "loops", "blocks", "active")


class Interp:
    def __init__(self, J):
        self.J = J
        self.types = J["types"]
        self.insts = J["insts"]
        self.by_full = _by_full.setdefault(id(self.insts), {})
        if not self.by_full:
            for i, x in enumerate(self.insts):
                if x: self.by_full.setdefault(x["path"], []).append(i)
        self.fid = 0
        self.panics = []
        self.unknown = []
        self.quiet = 0
        self.stack = []
        self.anchors = {}
        self.budget = 400000
        self.steps = 0
        self.unroll = 0
        self.loopcache = {}
        self.calls = {}
        self.visited = set()
        self.phis = {}           # loop variable -> (initial term, [value after a round])
        self.walk = {}
        self.hash_iter = []
        self.uninterp_eq = set()
        self.de_err, self.ser_err, self.ser_badkey, self.ser_len, self.json_roots, self.json_deep, self.ser_hook = [], [], [], [], [], False, None
        import model, serde_model, de_model
        self.models = model.MODELS
        self.mod = model

    # ------------------------------------------------------------ lookups
    def find(self, pat, generic_ok=True):
        """instances with a body whose path matches the regular expression"""
        k = (id(self.insts), pat)
        if k not in _found:
            r = re.compile(pat)
            _found[k] = [i for i, x in enumerate(self.insts) if x and x.get("body") and r.search(x["path"])]
        return _found[k]

    def ty(self, t): return self.types[t] if isinstance(t, int) else None

    def stripid(self, t):
        """the type behind references"""
        while isinstance(t, int) and self.types[t] and self.types[t]["k"] in ("ref", "ptr"): t = self.types[t]["to"]
        return t

    def strip(self, t):
        x = self.ty(t)
        while x and x["k"] in ("ref", "ptr"): x = self.ty(x["to"])
        while x and x["k"] == "adt" and x.get("box"):
            x = self.ty(x["args"][0])
            while x and x["k"] in ("ref", "ptr"): x = self.ty(x["to"])
        return x

    def walkable(self, tid, i):
        k = (tid, i)
        if k not in self.walk:
            r = False
            x = self.ty(tid)
            if x and x["k"] == "adt" and x.get("local") and x.get("variants") and len(x["variants"]) == 1:
                fs = x["variants"][0]["fields"]
                if i < len(fs):
                    ft = self.ty(fs[i][1])
                    if ft and ft["k"] == "adt" and ft["path"].split("::")[-1] in ("BTreeMap", "HashMap") and len(ft["args"]) > 1 and ft["args"][1] == tid: r = True
            self.walk[k] = r
        return self.walk[k]

    # ------------------------------------------------------------ memory
    def get_proj(self, v, projs):
        for p in projs:
            k = p[0]
            if k == "f": v = fld(v, p[1], p[3] if len(p) > 3 else None)
            elif k == "mv": v = mget(v, p[1])
            elif k == "w": v = wget(v, p[1], p[2])
            elif k == "ix": v = elem(as_seq(v), p[1])
            elif k == "lst": v = elem(as_seq(v), sub(seqlen(as_seq(v)), I(1)))
            elif k == "rg": v = slice_(as_seq(v), p[1], p[2])
        return v

    def set_proj(self, v, projs, x):
        if not projs: return x
        p, rest = projs[0], projs[1:]
        k = p[0]
        if k == "f":
            if v.op == "dd" and all(l.op in ("adt", "rec", "tup", "fld") for _, l in paths(v)):
                return ddcases([(g, upd(l, p[1], self.set_proj(simp(fld(l, p[1], p[3] if len(p) > 3 else None), g), rest, x))) for g, l in paths(v)])
            return upd(v, p[1], self.set_proj(fld(v, p[1], p[3] if len(p) > 3 else None), rest, x))
        if k == "mv": return mins(v, p[1], self.set_proj(mget(v, p[1]), rest, x))
        if k == "w": return wput(v, p[1], p[2], self.set_proj(wget(v, p[1], p[2]), rest, x))
        if k == "ix": return seq_upd(v, p[1], self.set_proj(elem(as_seq(v), p[1]), rest, x))
        if k == "rg":
            s = as_seq(v)
            return seq(slice_(s, I(0), p[1]), as_seq(self.set_proj(slice_(s, p[1], p[2]), rest, x)), slice_(s, p[2], seqlen(s)))
        if k == "lst":
            n = sub(seqlen(as_seq(v)), I(1))
            return seq_upd(v, n, self.set_proj(elem(as_seq(v), n), rest, x))
        raise Limit("store " + k)

    def load(self, st, ref):
        """value behind a &mut (or a shared reference, which is the value)"""
        n = 0
        while ref.op == "ref":
            ref = self.get_proj(st.cells.get(ref.a[0], UNDEF), ref.a[1])
            n += 1
            if n > 50: break
        return ref

    def load1(self, st, ref):
        if ref.op == "ref": return self.get_proj(st.cells.get(ref.a[0], UNDEF), ref.a[1])
        return ref

    def target(self, st, ref):
        """innermost place a (nested) reference denotes"""
        while True:
            v = self.get_proj(st.cells.get(ref.a[0], UNDEF), ref.a[1])
            if v.op == "ref": ref = v
            else: return ref

    def store(self, st, ref, x):
        ref = self.target(st, ref)
        self.put(st, ref.a[0], ref.a[1], x)

    def put(self, st, cell, projs, x):
        if not projs: st.cells[cell] = x
        else: st.cells[cell] = self.set_proj(st.cells.get(cell, UNDEF), projs, x)

    def newcell(self, st, v, tag="tmp"):
        self.fid += 1
        c = (self.fid, tag)
        st.cells[c] = v
        return c

    def push_proj(self, ref, p, walk=False):
        projs = ref.a[1]
        if p[0] == "mv" and projs and projs[-1][0] == "f" and projs[-1][2]:
            i = projs[-1][1]
            s = mk("seq", (mk("one", p[1]),))
            s = seq(s)
            projs = projs[:-1]
            if projs and projs[-1][0] == "w" and projs[-1][1] == i:
                projs = projs[:-1] + (("w", i, seq(projs[-1][2], s)),)
            else: projs = projs + (("w", i, s),)
            return mk("ref", ref.a[0], projs)
        return mk("ref", ref.a[0], projs + (p,))

    # ------------------------------------------------------------ places
    def place(self, fr, pl, st):
        """('p', cell, projs, type) or ('v', value, type)"""
        tid = fr.body["locals"][pl[0]]
        cur = ("p", (fr.fid, pl[0]), ())
        variant = None
        for e in pl[1:]:
            t = self.ty(tid)
            if e == "*":
                if t and t["k"] == "adt":       # Box
                    tid = t["args"][0]
                    continue
                v = self.get_proj(st.cells.get(cur[1], UNDEF), cur[2]) if cur[0] == "p" else cur[1]
                if v.op == "ref" and (t["k"] == "ptr" or t.get("mut")):
                    cur = ("p", v.a[0], v.a[1])
                elif v.op == "ref" and t["k"] == "ref" and not t.get("mut") and self.ty(t["to"])["k"] not in ("ref",):
                    cur = ("p", v.a[0], v.a[1])
                else:
                    if cur[0] == "p" and v.op != "ref" and t.get("mut") and t["k"] in ("ref",):
                        # a symbolic &mut: writes go to the cell itself
                        pass
                    elif cur[0] == "p" and t["k"] == "ptr":
                        pass
                    else: cur = ("v", v)
                tid = t["to"]
                variant = None
            elif e[0] == "v":
                variant = e[1]
            elif e[0] == "f":
                if t and t["k"] == "adt" and t["path"] in TRANSPARENT:
                    tid = e[2]
                    continue
                if t and t["k"] in ("ref", "ptr") : # fields of a pointer wrapper that was skipped
                    tid = e[2]
                    continue
                if cur[0] == "p":
                    w = self.walkable(tid, e[1])
                    p = ("f", e[1], w) if variant is None else ("f", e[1], w, variant)
                    cur = ("p", cur[1], cur[2] + (p,))
                else:
                    cur = ("v", fld(cur[1], e[1], variant))
                tid = e[2]
                variant = None
            elif e[0] in ("i", "ci"):
                if e[0] == "i":
                    n = st.cells.get((fr.fid, e[1]), UNDEF)
                else:
                    v = self.get_proj(st.cells.get(cur[1], UNDEF), cur[2]) if cur[0] == "p" else cur[1]
                    n = I(e[1]) if not e[3] else sub(seqlen(as_seq(v)), I(e[1]))
                if cur[0] == "p": cur = ("p", cur[1], cur[2] + (("ix", n),))
                else: cur = ("v", elem(as_seq(cur[1]), n))
                tid = t.get("elem", t.get("to"))
            elif e[0] == "sub":
                v = self.get_proj(st.cells.get(cur[1], UNDEF), cur[2]) if cur[0] == "p" else cur[1]
                s = as_seq(v)
                hi = sub(seqlen(s), I(e[2])) if e[3] else I(e[2])
                cur = ("v", slice_(s, I(e[1]), hi))
        return cur + (tid,)

    def read(self, fr, pl, st):
        c = self.place(fr, pl, st)
        if c[0] == "v": return c[1]
        return self.get_proj(st.cells.get(c[1], UNDEF), c[2])

    def write(self, fr, pl, st, v):
        c = self.place(fr, pl, st)
        if c[0] == "v": raise Limit("write through a shared value")
        self.put(st, c[1], c[2], v)

    # ------------------------------------------------------------ operands
    def const(self, c, tid):
        if "int" in c: return I(int(c["int"]))
        if "bool" in c: return B(c["bool"])
        if "char" in c: return I(c["char"])
        if "float" in c: return fl(c["float"])
        if "str" in c: return S(c["str"])
        if "ref" in c: return self.const(c["ref"], None)
        if "array" in c: return seq(*[mk("one", self.const(x, None)) for x in c["array"]])
        if "bytes" in c: return mk("bytes", tuple(c["bytes"]) if isinstance(c["bytes"], list) else c["bytes"])
        if "tuple" in c: return tup(*[self.const(x, None) for x in c["tuple"]])
        if "unit" in c: return UNIT
        if "fnref" in c:
            f = c["fnref"]
            return mk("fnp", f.get("inst", -1), f["fn"])
        if "fnptr" in c: return mk("fnp", c["fnptr"], self.insts[c["fnptr"]]["path"])
        if "zst" in c:
            t = self.ty(c["zst"])
            if t and t["k"] == "closure": return mk("clo", t.get("inst", -1), ())
            if t and t["k"] == "fndef": return mk("fnp", t["callee"].get("inst", -1), t["callee"]["fn"])
            if t and t["k"] == "adt": return adt(t["path"], 0)
            if t and t["k"] == "tuple": return UNIT
            return mk("zst", c["zst"])
        if "adt" in c:
            t = self.ty(c["adt"])
            if t["path"] in TRANSPARENT and len(c["fields"]) == 1: return self.const(c["fields"][0], None)
            return adt(t["path"], c["variant"], *[self.const(x, None) for x in c["fields"]])
        return mk("const", str(sorted(c.items())), tid)

    def operand(self, fr, o, st):
        if o[0] == "k": return self.const(o[2], o[1])
        if o[0] == "rc": return TRUE
        return self.read(fr, o[1], st)

    def optype(self, fr, o):
        if o[0] == "k": return o[1]
        if o[0] == "rc": return None
        return self.pltype(fr, o[1])

    def pltype(self, fr, pl):
        tid = fr.body["locals"][pl[0]]
        for e in pl[1:]:
            t = self.ty(tid)
            if e == "*": tid = t["args"][0] if t["k"] == "adt" else t["to"]
            elif e[0] == "f": tid = e[2]
            elif e[0] in ("i", "ci"): tid = t.get("elem")
        return tid

    def intinfo(self, tid):
        t = self.ty(tid)
        if t and t["k"] == "int": return t["signed"], t["bits"] or 64
        if t and t["k"] == "char": return False, 32
        if t and t["k"] == "bool": return False, 8
        return None

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, r, st, dty):
        k = r[0]
        if k == "use": return self.operand(fr, r[1], st)
        if k in ("ref", "addr"):
            mut = r[1]
            c = self.place(fr, r[2], st)
            if c[0] == "v": return c[1]
            v = self.get_proj(st.cells.get(c[1], UNDEF), c[2])
            if mut or (k == "addr" and v.op != "ref" and False):
                return mk("ref", c[1], c[2])
            return v
        if k == "cast": return self.cast(fr, r, st)
        if k in ("bin", "chk"):
            a, b = self.operand(fr, r[2], st), self.operand(fr, r[3], st)
            v = self.binop(r[1], a, b, self.optype(fr, r[2]), k == "chk")
            return v
        if k == "un":
            v = self.operand(fr, r[2], st)
            if r[1] == "Not":
                t = self.ty(self.optype(fr, r[2]))
                if t and t["k"] == "bool": return bnot(as_bool(v))
                if v.op == "int" and t and t["k"] == "int":
                    bits = t["bits"] or 64
                    x = ~v.a[0]
                    return I(x if t["signed"] else x & ((1 << bits) - 1))
                return mk("un", "Not", v)
            if r[1] == "Neg":
                return mulc(v, -1) if self.intinfo(self.optype(fr, r[2])) else mk("un", "Neg", v)
            if r[1] == "PtrMetadata":
                t = self.strip(self.optype(fr, r[2]))
                v = self.load(st, v)
                if t and t["k"] == "str": return mk("blen", v) if v.op != "str" else I(len(v.a[0].encode()))
                return seqlen(as_seq(v))
            return mk("un", r[1], v)
        if k == "disc":
            c = self.place(fr, r[1], st)
            v = c[1] if c[0] == "v" else self.get_proj(st.cells.get(c[1], UNDEF), c[2])
            t = self.ty(c[-1])
            n, discs = None, None
            if t and t["k"] == "adt" and t.get("variants"):
                n = len(t["variants"])
                ds = [int(x["disc"]) for x in t["variants"]]
                if ds != list(range(n)): discs = ds
            if v.op == "adt" and v.a[0] == "$Entry" and n == 2:
                # a map entry is occupied when the key is there
                occ = [i for i, x in enumerate(t["variants"]) if x["name"] == "Occupied"]
                if len(occ) == 1: return ite(has(self.load1(st, v.a[2]), v.a[3]), I(occ[0]), I(1 - occ[0]))
            d = disc(v, n)
            if discs:
                return ddcases([(g, I(discs[i])) for i in range(n) for g, l in paths(inn(d, IntSet([(i, i)]))) if l is TRUE])
            return d
        if k == "len":
            return seqlen(as_seq(self.read(fr, r[1], st)))
        if k == "repeat":
            v = self.operand(fr, r[1], st)
            t = self.ty(dty)
            n = t.get("len") if t else None
            if n is None: return mk("repeat", v, str(r[2:]))
            if n <= 64: return seq(*[mk("one", v)] * n)
            return mk("repeat", v, n)
        if k == "agg":
            kk = r[1]
            vs = [self.operand(fr, o, st) for o in r[2]]
            if kk[0] == "tuple": return tup(*vs)
            if kk[0] == "array": return seq(*[mk("one", v) for v in vs])
            if kk[0] == "adt":
                t = self.ty(kk[1])
                if t["path"] in TRANSPARENT and vs: return vs[0]
                return adt(t["path"], kk[2], *vs)
            if kk[0] == "closure":
                t = self.ty(kk[1])
                return mk("clo", t.get("inst", -1), tuple(vs))
            if kk[0] == "rawptr": return vs[0]
            return mk("agg", kk[0], *vs)
        if k == "tls": return mk("tls", str(r[1:]))
        return mk("rv", str(r))

    def cast(self, fr, r, st):
        kind, v, to = r[1], self.operand(fr, r[2], st), r[3]
        if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "BoxDerefTransmute"):
            if kind == "BoxDerefTransmute" and r[2][0] in "cm":
                pl = list(r[2][1])
                c = self.place(fr, pl, st)
                if c[0] == "p": return mk("ref", c[1], c[2])
            if kind.startswith("PointerCoercion(ClosureFn"): return v
            return v
        if kind == "Transmute": return v
        src, dst = self.intinfo(self.optype(fr, r[2])), self.intinfo(to)
        if kind == "IntToInt" and src and dst:
            if v.op == "int":
                x = v.a[0] & ((1 << dst[1]) - 1)
                if dst[0] and x >= 1 << (dst[1] - 1): x -= 1 << dst[1]
                return I(x)
            if v.op == "bool" or (v.op == "dd" and is_boolish(v)): return b2i(v)
            if self.ty(self.optype(fr, r[2]))["k"] == "bool": return b2i(as_bool(v))
            fits = dst[1] > src[1] or (dst[1] == src[1] and dst[0] == src[0]) or (not src[0] and dst[0] and dst[1] > src[1])
            if src[0] and not dst[0]: fits = False
            if fits or (dst[1] >= 64 and not (src[0] and not dst[0])): return v
            u = bound(v, st.facts)
            if u is not None and u.kind == "I" and u.r:
                lo = -(1 << (dst[1] - 1)) if dst[0] else 0
                hi = (1 << (dst[1] - 1)) - 1 if dst[0] else (1 << dst[1]) - 1
                if u.lo() >= lo and u.hi() <= hi: return v
            return mk("trunc", "%s%d" % ("i" if dst[0] else "u", dst[1]), v)
        if kind == "IntToFloat":
            bits = self.ty(to)["s"]
            if v.op == "int": return fl(v.a[0])
            return mk("i2f", bits, v)
        if kind == "FloatToFloat": return mk("f2f", self.ty(to)["s"], v)
        if kind == "FloatToInt": return mk("f2i", self.ty(to)["s"], v)
        return mk("cast", kind, v)

    def binop(self, op, a, b, tid, chk):
        info = self.intinfo(tid)
        base = op.replace("Unchecked", "").replace("WithOverflow", "")
        isint = info is not None and self.ty(tid)["k"] != "bool"
        if base in ("Eq", "Ne"):
            t = self.ty(tid)
            if t and t["k"] == "float": 
                e = inn(mk("feq", *sorted([a, b])), ONE)
            elif isint: e = inn(sub(a, b), ZERO)
            else: e = eq(a, b)
            return e if base == "Eq" else bnot(e)
        if base in ("Lt", "Le", "Gt", "Ge"):
            if isint:
                if base == "Lt": return lt(a, b)
                if base == "Le": return le(a, b)
                if base == "Gt": return lt(b, a)
                return le(b, a)
            return inn(mk("bcall", "f" + base, a, b), ONE)
        if base == "Cmp" and isint:
            d = sub(a, b)
            O = "std::cmp::Ordering"
            return ddcases([(g, adt(O, i)) for i, s in ((0, IntSet([(NEG, -1)])), (1, ZERO), (2, IntSet([(1, POS)])))
                            for g, l in paths(inn(d, s)) if l is TRUE])
        if base in ("BitAnd", "BitOr", "BitXor") and (self.ty(tid) or {}).get("k") == "bool":
            f = {"BitAnd": lambda x, y: x and y, "BitOr": lambda x, y: x or y, "BitXor": lambda x, y: x != y}[base]
            return bool2(f, a, b)
        if isint:
            s, bits = info
            if base in ("Add", "Sub", "Mul"):
                if base == "Add": v = add(a, b)
                elif base == "Sub": v = sub(a, b)
                elif a.op == "int": v = mulc(b, a.a[0])
                elif b.op == "int": v = mulc(a, b.a[0])
                else: v = mk("mul", *sorted([a, b]))
                if not chk and op == base: return v
                if not chk: return v
                if v.op == "int":
                    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if s else (0, (1 << bits) - 1)
                    return tup(v, B(not lo <= v.a[0] <= hi))
                if base == "Sub" and not s: return tup(v, lt(a, b))
                if bits >= 64:
                    if base == "Mul": return tup(v, inn(mk("bcall", "ovf:Mul64", v), ONE))
                    return tup(v, FALSE)
                hi = (1 << bits - 1) - 1 if s else (1 << bits) - 1
                lo = -(1 << bits - 1) if s else 0
                return tup(v, inn(v, IntSet([(NEG, lo - 1), (hi + 1, POS)])))
            if a.op == "int" and b.op == "int":
                x, y = a.a[0], b.a[0]
                m = (1 << bits) - 1
                try:
                    r = {"Div": lambda: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1), "Rem": lambda: x - y * (abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)),
                         "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y, "Shl": lambda: (x << y) & m, "Shr": lambda: x >> y}[base]()
                    return I(r) if not chk else tup(I(r), FALSE)
                except (KeyError, ZeroDivisionError): pass
        if base in ("Mul", "Div") and b.op == "float" and b.a[-1] in (1.0, "1.0"): v = a
        elif base == "Mul" and a.op == "float" and a.a[-1] in (1.0, "1.0"): v = b
        else: v = mk("arith", base, a, b)
        return tup(v, inn(mk("bcall", "ovf:" + base, v), ONE)) if chk else v

    # ------------------------------------------------------------ decisions
    def decide(self, st, b):
        """[(state, truth)] for a boolean term"""
        b = simp(as_bool(b), st.facts)
        if b.op == "bool": return [(st, b.a[0])]
        out = []
        for g, l in paths(b):
            s2 = st.restrict(g)
            if s2 is None: continue
            if l.op == "bool": out.append((s2, l.a[0]))
            elif l.op in ("undef", "panic"): continue
            else:
                for s3, v in self.decide(s2, as_bool(l)): out.append((s3, v))
        return out

    def split(self, st, v):
        """[(state, leaf)]: forks on the decision diagram of a value"""
        v = simp(v, st.facts)
        if v.op != "dd": return [(st, v)]
        out = []
        for g, l in paths(v):
            s2 = st.restrict(g)
            if s2 is not None: out.append((s2, simp(l, s2.facts) if l.op not in ("adt", "bool", "int", "str") else l))
        return out

    def panic(self, st, kind, where, detail=""):
        if not self.quiet:
            self.panics.append({"kind": kind, "where": where, "detail": detail, "facts": dict(st.facts),
                                "stack": [self.insts[i]["path"] for i in self.stack]})

    # ------------------------------------------------------------ control flow
    def analyse_cfg(self, body):
        k = id(body)
        if k in self.loopcache: return self.loopcache[k]
        n = len(body["blocks"])
        succ = [self.succs(b["t"]) for b in body["blocks"]]
        # reverse post order, back edges by DFS
        color, order, back = [0] * n, [], []
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            u, it = stack[-1]
            adv = False
            for v in it:
                if color[v] == 0:
                    color[v] = 1
                    stack.append((v, iter(succ[v])))
                    adv = True
                    break
                if color[v] == 1: back.append((u, v))
            if not adv:
                color[u] = 2
                order.append(u)
                stack.pop()
        pred = [[] for _ in range(n)]
        for u in range(n):
            if color[u]:
                for v in succ[u]: pred[v].append(u)
        loops = {}
        for u, h in back:
            L = loops.setdefault(h, {h})
            todo = [u]
            while todo:
                x = todo.pop()
                if x in L: continue
                L.add(x)
                todo += pred[x]
        # liveness of locals
        use, dfn = [], []
        for b in body["blocks"]:
            us, ds = set(), set()

            def rd(pl):
                if pl[0] not in ds: us.add(pl[0])
                for e in pl[1:]:
                    if e != "*" and e[0] == "i" and e[1] not in ds: us.add(e[1])

            def rop(o):
                if o[0] in "cm" : rd(o[1])

            def wr(pl):
                if len(pl) == 1: ds.add(pl[0])
                else: rd(pl)
            for s in b["s"]:
                if s[0] == "=":
                    self._ruse(s[2], rd, rop)
                    wr(s[1])
                elif s[0] == "setdisc": rd(s[1])
            t = b["t"]
            if t[0] == "call":
                if isinstance(t[1], list): rop(t[1])
                for a in t[2]: rop(a)
                wr(t[3])
            elif t[0] == "switch": rop(t[1])
            elif t[0] == "assert": rop(t[1]); [rop(o) for o in t[4]]
            elif t[0] == "return":
                us.add(0)
            use.append(us)
            dfn.append(ds)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for u in order:
                o = set()
                for v in succ[u]: o |= live[v]
                i = use[u] | (o - dfn[u])
                if i != live[u]:
                    live[u] = i
                    ch = True
        r = (loops, live, succ)
        self.loopcache[k] = r
        return r

    def _ruse(self, r, rd, rop):
        k = r[0]
        if k == "use": rop(r[1])
        elif k in ("ref", "addr"): rd(r[2])
        elif k in ("bin", "chk"): rop(r[2]); rop(r[3])
        elif k in ("un", "cast"): rop(r[2])
        elif k in ("disc", "len"): rd(r[1])
        elif k == "repeat": rop(r[1])
        elif k == "agg": [rop(o) for o in r[2]]

    def succs(self, t):
        k = t[0]
        if k == "goto": return [t[1]]
        if k == "switch": return [x[1] for x in t[2]] + [t[3]]
        if k == "drop": return [t[2]]
        if k == "call": return [t[4]] if t[4] is not None else []
        if k == "assert": return [t[5]]
        return []

    def call_inst(self, i, args, st):
        """runs instance i: [(state, value)]"""
        x = self.insts[i]
        body = x.get("body")
        if not body: raise Limit("no body: " + x["path"])
        if self.stack.count(i) >= 1 and i in self.stack:
            return self.recursive(i, args, st)
        self.visited.add(i)
        fr = Frame()
        fr.inst, fr.body = i, body
        self.fid += 1
        fr.fid = self.fid
        fr.loops, live, _ = self.analyse_cfg(body)
        fr.active = set()
        # rust-call: the last argument may be a tuple to spread
        argc = body["argc"]
        if body.get("spread") and len(args) > argc: 
            args = args[:argc - 1] + [tup(*args[argc - 1:])]
        if len(args) != argc:
            if len(args) == 2 and argc >= 1 and args[1].op == "tup": args = [args[0]] + list(args[1].a)
        if len(args) != argc: raise Limit("arity of %s: %d, %d given" % (x["path"], argc, len(args)))
        s = st.copy()
        for k, a in enumerate(args): s.cells[(fr.fid, k + 1)] = a
        self.stack.append(i)
        try:
            outs = self.run(fr, 0, s, None)
        finally:
            self.stack.pop()
        res = []
        for o in outs:
            if o[0] != "ret": continue
            s2 = o[1]
            v = s2.cells.get((fr.fid, 0), UNDEF)
            if v is UNDEF and self.ty(body["locals"][0])["k"] == "tuple": v = UNIT
            for c in [c for c in s2.cells if isinstance(c, tuple) and c[0] == fr.fid]: del s2.cells[c]
            res.append((s2, v))
        return self.merge(res)

    def merge(self, res):
        """joins results with equal cells into one result with a decision diagram as its value"""
        if len(res) < 2: return res
        groups = []
        for s, v in res:
            for g in groups:
                if g[0][0].cells == s.cells: g.append((s, v)); break
            else: groups.append([(s, v)])
        out = []
        for g in groups:
            if len(g) == 1: out.append(g[0]); continue
            # only when the value is the same everywhere, or all are plain data
            same = all(v is g[0][1] for _, v in g)
            if not same:
                out += g
                continue
            common = dict(g[0][0].facts)
            for s, _ in g[1:]:
                for k in list(common):
                    f = s.facts.get(k)
                    if f is None: del common[k]
                    else: common[k] = common[k].union(f)
            # exact only if the union of the guards is the common one
            guards = [{k: s for k, s in st.facts.items() if common.get(k) != s} for st, _ in g]
            d = FALSE
            for x in guards:
                c = TRUE
                for k, s_ in x.items(): c = band(c, inn(k, s_))
                d = bor(d, c)
            if d is TRUE: out.append((State(g[0][0].cells, common), g[0][1]))
            else: out += g
        return out

    def recursive(self, i, args, st):
        x = self.insts[i]
        self.unknown.append("recursion:" + x["path"])
        return self.opaque_call("rec:" + x["path"], args, st, x["body"]["locals"][0])

    def opaque_call(self, name, args, st, rty=None):
        """an uninterpreted call: result and the targets of &mut arguments become terms of the call"""
        vals = []
        s = st.copy()
        refs = []
        for a in args:
            for t in ([a] if a.op == "ref" else [y for y in subterms(a) if y.op == "ref"]):
                refs.append(t)
            vals.append(self.deep(st, a))
        t = mk("call", name, *vals)
        for k, r in enumerate(refs):
            try: self.store(s, r, mk("post", k, t))
            except Limit: pass
        ty = self.ty(rty) if rty is not None else None
        if ty and ty["k"] == "bool": return [(s, inn(mk("bcall", name, *vals), ONE))]
        if ty and ty["k"] == "tuple" and not ty["elems"]: return [(s, UNIT)]
        return [(s, t)]

    def deep(self, st, v):
        """replaces references by the values behind them"""
        if v.op == "ref": return self.deep(st, self.load1(st, v))
        rs = [y for y in subterms(v) if y.op == "ref"]
        if not rs: return v
        return subst(v, {r: self.deep(st, self.load1(st, r)) for r in rs})

    def run(self, fr, bb, st, within):
        """executes from block bb; returns outcomes ('ret', st) or ('edge', target, st) when leaving
        the blocks `within` or returning to its head (a pair (blocks, head))"""
        outs = []
        work = [(bb, st, True)]
        while work:
            bb, st, first = work.pop()
            while True:
                if within is not None and not first:
                    if bb == within[1] or bb not in within[0]:
                        outs.append(("edge", bb, st))
                        break
                if bb in fr.loops and bb not in fr.active:
                    for tgt, s2 in self.loop(fr, bb, st): work.append((tgt, s2, False))
                    break
                first = False
                self.steps += 1
                if self.steps > self.budget: raise Limit("step budget exhausted")
                nxt = self.block(fr, bb, st, outs)
                if not nxt: break
                for b2, s2 in nxt[1:]: work.append((b2, s2, False))
                bb, st = nxt[0]
        return outs

    def block(self, fr, bb, st, outs):
        b = fr.body["blocks"][bb]
        for s in b["s"]:
            if s[0] == "=":
                dty = fr.body["locals"][s[1][0]] if len(s[1]) == 1 else None
                v = self.rvalue(fr, s[2], st, dty)
                self.write(fr, s[1], st, v)
            elif s[0] == "setdisc":
                v = self.read(fr, s[1], st)
                self.write(fr, s[1], st, mk("adt", v.a[0], s[2], *v.a[2:]) if v.op == "adt" else mk("setdisc", v, s[2]))
        t = b["t"]
        k = t[0]
        if k == "goto": return [(t[1], st)]
        if k == "return":
            outs.append(("ret", st))
            return []
        if k in ("resume", "unreachable", "abort"): return []
        if k == "drop":
            return [(t[2], st)]
        if k == "switch": return self.switch(fr, t, st)
        if k == "assert":
            c = self.operand(fr, t[1], st)
            out = []
            for s2, v in self.decide(st, c):
                if v == t[2]: out.append((t[5], s2))
                else: self.panic(s2, t[3], t[6] if len(t) > 6 else "")
            return out
        if k == "call":
            res = self.do_call(fr, t, st)
            if t[4] is None: return []
            out = []
            for s2, v in res:
                self.write(fr, t[3], s2, v)
                out.append((t[4], s2))
            return out
        raise Limit("terminator " + k)

    def switch(self, fr, t, st):
        v = self.operand(fr, t[1], st)
        tt = self.ty(self.optype(fr, t[1]))
        isb = tt and tt["k"] == "bool"
        out = []
        for s2, leaf in self.split(st, as_bool(v) if isb else v):
            if leaf.op in ("bool", "int"):
                x = leaf.a[0] if leaf.op == "int" else (1 if leaf.a[0] else 0)
                tgt = t[3]
                for val, b in t[2]:
                    if int(val) == x: tgt = b
                out.append((tgt, s2))
                continue
            if leaf.op in ("undef", "panic"): continue
            rest = ALL_I
            for val, b in t[2]:
                val = int(val)
                rest = rest.inter(IntSet([(val, val)]).compl())
                for g, l in paths(simp(inn(leaf, IntSet([(val, val)])), s2.facts)):
                    if l is TRUE:
                        s3 = s2.restrict(g)
                        if s3 is not None: out.append((b, s3))
            for g, l in paths(simp(inn(leaf, rest), s2.facts)):
                if l is TRUE:
                    s3 = s2.restrict(g)
                    if s3 is not None: out.append((t[3], s3))
        return out

    # ------------------------------------------------------------ calls
    def do_call(self, fr, t, st):
        f, args = t[1], [self.operand(fr, a, st) for a in t[2]]
        where = t[5] if len(t) > 5 else ""
        if isinstance(f, list):
            fv = self.operand(fr, f, st)
            return self.call_value(fv, args, st)
        return self.call_fn(f, args, st, where, [self.optype(fr, a) for a in t[2]], self.pltype(fr, t[3]))

    def call_fn(self, f, args, st, where="", atys=None, rty=None):
        inst = self.insts[f["inst"]] if "inst" in f else None
        path = inst["path"] if inst else f["fn"]
        name = norm_path(f["fn"])
        self.calls[f["fn"]] = self.calls.get(f["fn"], 0) + 1
        # resolve virtual calls on known receivers
        a = self.anchors.get(path) or self.anchors.get(f["fn"])
        if a:
            return a(self, st, args, f, where, rty)
        if inst and inst["kind"] == "virtual":
            recv = self.load(st, args[0])
            c = self.devirt(f, recv)
            if c is not None: return self.call_inst(c, args, st)
        if f["fn"].split("::")[-1] in ("call_once", "call_mut", "call") and (f.get("trait") or "").split("<")[0].split("::")[-1] in ("Fn", "FnMut", "FnOnce"):
            a = self.load(st, args[1])
            if a.op == "tup": return self.call_value(args[0], list(a.a), st)
        if inst and inst.get("local") and inst.get("body") and inst["kind"] == "item":
            return self.call_inst(f["inst"], args, st)
        cx = Call(self, st, args, f, name, path, where, atys or [], rty)
        key = name
        if f.get("trait"): key = f["trait"].split("<")[0].split("::")[-1] + "::" + f["fn"].split("::")[-1]
        m = self.models.get(key) or self.models.get(name) or self.models.get(f["fn"])
        if m:
            r = m(cx)
            if r is not None:
                return [r] if isinstance(r, tuple) else r
        if self.mod.is_panic(f["fn"]):
            self.panic(st, "panic:" + f["fn"], where, self.mod.panic_text(self, st, args))
            return []
        if inst and inst.get("body"):
            return self.call_inst(f["inst"], args, st)
        if not (inst and inst['kind'] == 'virtual' and path.startswith('elasticlunr::')): self.unknown.append(path)
        return self.opaque_call(short(path), args, st, rty)

    def devirt(self, f, recv):
        if recv.op != "adt": return None
        meth = f["fn"].split("::")[-1]
        for i, x in enumerate(self.insts):
            if x and x.get("body") and x.get("trait") and x["path"].endswith(">::" + meth) and x["path"].startswith("<" + recv.a[0] + " as "): return i
        return None

    def call_value(self, fv, args, st, owner=None):
        """calls a closure or function value; owner: reference to the closure for FnMut state"""
        f = self.load(st, fv)
        if f.op == "fnp":
            if f.a[0] >= 0:
                i = f.a[0]
                x = self.insts[i]
                fn = {"fn": x.get("trait_item") or f.a[1], "inst": i, "args": x.get("args", []), "crate": x["crate"]}
                if x.get("trait"): fn["trait"] = x["trait"]
                return self.call_fn(fn, args, st)
            return self.call_fn({"fn": f.a[1], "args": []}, args, st)
        if f.op == "clo":
            i = f.a[0]
            if i < 0: raise Limit("closure without a body")
            body = self.insts[i].get("body")
            if not body: raise Limit("closure without a body: " + self.insts[i]["path"])
            t1 = self.ty(body["locals"][1])
            s = st
            if t1["k"] == "ref" and t1.get("mut"):
                if fv.op == "ref": self_ = fv
                else:
                    s = st.copy()
                    self_ = mk("ref", self.newcell(s, f, "clo"), ())
            else: self_ = f
            return self.call_inst(i, [self_] + list(args), s)
        if f.op == "dd":
            out = []
            for s2, l in self.split(st, f): out += self.call_value(l, args, s2)
            return out
        return self.opaque_call("dyn", [f] + list(args), st)

    # ------------------------------------------------------------ pure closures
    def guard_of(self, st0, st1):
        g = {}
        for k, s in st1.facts.items():
            if st0.facts.get(k) != s: g[k] = s
        return g

    def pure(self, st, f, args, extra=None):
        """value of a pure closure call as one decision diagram"""
        s0 = st.copy()
        if extra:
            s0 = s0.restrict(extra)
            if s0 is None: return UNDEF
        base = dict(s0.cells)
        res = self.call_value(f, args, s0)
        cases = []
        for s, v in res:
            for c, x in base.items():
                if s.cells.get(c) is not x: raise Impure(str(c))
            cases.append((self.guard_of(s0, s), self.deep(s, v)))
        return ddcases(cases)

    def lam_over(self, st, f, s, wrap=lambda e: [e]):
        """lam n. f(elem(s, n)) as a term over a fresh n: (n, term)"""
        n = fresh("n")
        h = seqlen(s)
        g = {}
        for gg, l in paths(lt(n, h)):
            if l is TRUE: g = gg
        v = self.pure(st, f, wrap(elem(s, n)), g)
        return n, v

    # ------------------------------------------------------------ loops
    def loop(self, fr, head, st):
        L = fr.loops[head]
        live = self.loopcache[id(fr.body)][1][head]
        st = st.copy()
        # forget dead locals of this frame that nothing refers to
        cells = {c for c in st.cells if isinstance(c, tuple) and c[0] == fr.fid}
        keep = {c for c in st.cells if c not in cells or c[1] in live or c[1] <= fr.body["argc"]}
        keep = self.reach(st, keep)
        for c in cells - keep: del st.cells[c]

        def body(s):
            fr.active.add(head)
            try: outs = self.run(fr, head, s, (L, head))
            finally: fr.active.discard(head)
            r = []
            for o in outs:
                if o[0] == "ret": raise Limit("return inside a loop")
                r.append(("back" if o[1] == head else o[1], o[2]))
            return r
        lv = self.loopcache[id(fr.body)][1]

        def canon(k):
            """the block reached from k through blocks that do nothing"""
            for _ in range(8):
                if not isinstance(k, int): break
                b = fr.body["blocks"][k]
                if b["t"][0] != "goto" or any(x[0] == "=" and not self.is_unit_store(x) for x in b["s"]): break
                k = b["t"][1]
            return k

        def alive(k, s):
            if not isinstance(k, int): return set(s.cells)
            keep = {c for c in s.cells if not (isinstance(c, tuple) and c[0] == fr.fid) or c[1] in lv[k]}
            return self.reach(s, keep)
        return self.loop_fix(st, body, (canon, alive))

    def is_unit_store(self, x):
        if x[0] != "=" or len(x[1]) != 1: return False
        r = x[2]
        return r[0] == "use" and r[1][0] == "k" and isinstance(r[1][2], dict) and "zst" in r[1][2]

    def reach(self, st, keep):
        todo, keep = list(keep), set(keep)
        while todo:
            c = todo.pop()
            v = st.cells.get(c)
            if v is None: continue
            for y in subterms(v):
                if y.op == "ref" and y.a[0] not in keep:
                    keep.add(y.a[0])
                    todo.append(y.a[0])
        return keep

    def loop_fix(self, st, body, exits=None):
        import loops
        if self.unroll:
            # lists of known length: iterate as long as the loop's end is decided
            todo, out = [st], []
            for k in range(self.unroll):
                nxt = []
                for s in todo:
                    for t, s2 in body(s):
                        if t == "back": nxt.append(s2)
                        else: out.append((t, s2))
                todo = nxt
                if not todo: return out
                if len(todo) > 64: break
        return loops.loop_fix(self, st, body, exits)


def seq_upd(v, n, x):
    s = as_seq(v)
    if n.op == "int":
        ps = list(s.a[0])
        for k in range(min(len(ps), n.a[0] + 1)):
            if ps[k].op != "one": break
            if k == n.a[0]:
                ps[k] = mk("one", x)
                return seq(*ps)
    d = sub(sub(seqlen(s), I(1)), n)
    ps = list(s.a[0])
    k = len(ps) - 1
    while k >= 0 and ps[k].op == "one":
        if d.op == "int" and d.a[0] == len(ps) - 1 - k:
            ps[k] = mk("one", x)
            return seq(*ps)
        k -= 1
    at = I(0)
    for k, p in enumerate(ps):
        if p.op == "one":
            if at is n:
                ps[k] = mk("one", x)
                return seq(*ps)
            at = add(at, I(1))
        elif p.op == "sl": at = add(at, sub(p.a[2], p.a[1]))
        else: break
    return seq(mk("supd", s, n, x))


def short(p):
    return re.sub(r"\{closure@[^}]*\}", "{closure}", p)


class Call:
    """the arguments of a modelled call"""

    def __init__(self, it, st, args, f, name, path, where, atys, rty):
        self.it, self.st, self.args, self.f, self.name, self.path = it, st, args, f, name, path
        self.where, self.atys, self.rty = where, atys, rty

    def ty(self, k):
        """type argument k of the callee"""
        a = self.f.get("args", [])
        ts = [x for x in a if isinstance(x, int)]
        return ts[k] if k < len(ts) else None

    def v(self, k): return self.it.load(self.st, self.args[k])

    def ret(self, v, st=None): return (st or self.st, v)

    def panic(self, st, kind, detail=""): self.it.panic(st, kind, self.where, detail)
