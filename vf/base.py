"""Shared by the property rules: context of a run, symbolic execution of public operations by the
abstract interpreter, comparison of terms, violations and findings."""
import re, time
from terms import *
from interp import Interp, State, Limit, Impure, bound
import model as M


class Ctx:
    """collects what one check looked at and what it found"""

    def __init__(self, pid, J, feats=None):
        self.pid, self.J = pid, J
        self.viol = []            # (key, where, text)
        self.incon = []           # what could not be decided
        self.oblig = []           # (rule, construct, ok)
        self.functions = set()
        self.paths = 0
        self.calls = 0
        self.feats = feats
        self.rule = ""
        self.notes = []

    def bad(self, key, where, text):
        if not any(v[0] == key and v[1] == where for v in self.viol): self.viol.append((key, where, text))

    def check(self, ok, key, where, text, rule=None):
        """one obligation; ok None means undecided"""
        self.oblig.append((rule or key, where, ok))
        if ok is None: self.undecided(where + ": " + text)
        elif not ok: self.bad(key, where, text)
        return ok

    def undecided(self, text):
        if text not in self.incon: self.incon.append(text)


# ---------------------------------------------------------------- fields by type or name
def adt_of(J, path):
    for a in J["adts"]:
        if a["path"] == path: return a
    return None


def field_ix(J, path, name=None, ty=None):
    """index of a field: by name, else the only one whose type matches"""
    a = adt_of(J, path)
    if a is None: return None
    fs = a["variants"][0]["fields"]
    for k, f in enumerate(fs):
        if name and f["name"] == name and (ty is None or re.search(ty, f["tystr"])): return k
    if ty:
        c = [k for k, f in enumerate(fs) if re.search(ty, f["tystr"])]
        if len(c) == 1: return c[0]
    return None


class Fields:
    """field indices of the types that the rules speak about"""

    def __init__(self, J):
        g = lambda p, n, t=None: field_ix(J, p, n, t)
        DS, IT, II, IX, IB = ("elasticlunr::document_store::DocumentStore", "elasticlunr::inverted_index::IndexItem",
                              "elasticlunr::inverted_index::InvertedIndex", "elasticlunr::Index", "elasticlunr::IndexBuilder")
        self.ds = {n: g(DS, n) for n in ("save", "docs", "doc_info", "length")}
        self.it = {"docs": g(IT, "docs", "BTreeMap<std::string::String, "), "df": g(IT, "doc_freq", r"^[iu]\w+$"),
                   "children": g(IT, "children", "BTreeMap<char, ")}
        self.ii = {"root": g(II, "root", "IndexItem")}
        self.ix = {"fields": g(IX, "fields", r"^std::vec::Vec<std::string::String>$"), "tok": g(IX, "field_tokenizers", r"^std::vec::Vec<std::option::Option<"),
                   "pipeline": g(IX, "pipeline", "Pipeline"), "ref": g(IX, "ref_field", r"^std::string::String$"),
                   "version": g(IX, "version", "str$"), "index": g(IX, "index", "InvertedIndex"), "store": g(IX, "document_store", "DocumentStore"),
                   "lang": g(IX, "lang", "Language")}
        self.ib = {"save": g(IB, "save", "^bool$"), "fields": g(IB, "fields", r"^std::vec::Vec<std::string::String>$"),
                   "tok": g(IB, "field_tokenizers", r"^std::vec::Vec<std::option::Option<"), "ref": g(IB, "ref_field", r"^std::string::String$"),
                   "pipeline": g(IB, "pipeline", "Pipeline"), "lang": g(IB, "language", "Language")}
        self.queue = g("elasticlunr::pipeline::Pipeline", "queue", "Vec<")


# ---------------------------------------------------------------- running a public operation
class Run:
    """result of the abstract interpretation of one function"""

    def __init__(self):
        self.res = []          # (State, value)
        self.panics = []
        self.unknown = []
        self.err = None
        self.self0 = None
        self.args = {}
        self.cell = None
        self.it = None
        self.path = None

    def final(self, s):
        return s.cells[self.cell]


ADD_TOKEN = "elasticlunr::inverted_index::InvertedIndex::add_token"
PIPE_RUN = "elasticlunr::pipeline::Pipeline::run"


def anchor(name):
    def f(it, st, args, fn, where, rty): return it.opaque_call(name, args, st, rty)
    return f


def find_fn(J, it, path):
    r = [i for i, x in enumerate(it.insts) if x and x.get("body") and x["path"] == path]
    if r: return r[0]
    return None


def run_fn(cx, path, anchors=(), args=None, facts=None, selfval=None, inst=None, budget=None, unroll=0, setup=None):
    """interprets the function with symbolic arguments; None when it does not exist"""
    it = Interp(cx.J)
    if budget: it.budget = budget
    it.unroll = unroll
    if setup: setup(it)
    i = find_fn(cx.J, it, path) if inst is None else inst
    if i is None: return None
    for a in anchors: it.anchors[a] = anchor(a)
    R = Run()
    R.it, R.path = it, path
    body = it.insts[i]["body"]
    st = State({}, dict(facts or {}))
    a = []
    for k in range(body["argc"]):
        t = it.ty(body["locals"][k + 1])
        u = it.strip(body["locals"][k + 1])
        if args and k in args: v = args[k]
        elif k == 0 and selfval is not None: v = selfval
        else:
            nm = "arg%d" % k
            if u["k"] == "int": v = sym(nm, "usize" if not u["signed"] else None)
            elif u["k"] == "bool": v = inn(sym(nm, "bool"), ONE)
            elif u["k"] == "char": v = sym(nm, "char")
            else: v = sym(nm, None)
        if t["k"] == "ref" and t.get("mut"):
            c = it.newcell(st, v, "self")
            if R.cell is None: R.cell = c
            R.args[k] = v
            v = mk("ref", c, ())
        else: R.args[k] = v
        a.append(v)
    R.self0 = R.args.get(0)
    try: R.res = it.call_inst(i, a, st)
    except (Limit, Impure) as e: R.err = "%s: %s" % (type(e).__name__, e)
    except RecursionError:
        import os, traceback
        if os.environ.get("VF_DEBUG") == "2": print("".join(traceback.format_exc().splitlines(True)[-60:]))
        R.err = "Limit: term depth"
    R.panics, R.unknown = it.panics, sorted(set(it.unknown))
    cx.functions |= {it.insts[k]["path"] for k in it.visited}
    cx.paths += len(R.res) + len(R.panics)
    cx.calls += sum(it.calls.values())
    return R


def gaps(R):
    """why the interpretation is incomplete, or ''"""
    if R.err: return R.err
    if R.unknown: return "no model of " + ", ".join(short(u) for u in R.unknown[:4])
    return ""


def short(p): return re.sub(r"\{closure@[^}]*\}", "{closure}", p)


OPAQUE = {"hav"}


def opaque_ops(t):
    return [x for x in subterms(t) if x.op in ("hav", "post") or x.op == "call" and isinstance(x.a[0], str) and (x.a[0].startswith("rec:"))]


# ---------------------------------------------------------------- comparing terms
def eq_substs(facts):
    m = {}
    for k, s in facts.items():
        if k.op == "eq" and s == ONE:
            a, b = k.a
            if a.id < b.id: a, b = b, a
            if not is_const(a) and a not in subterms(b): m[a] = b
            elif not is_const(b) and b not in subterms(a): m[b] = a
    return m


def eq_close(facts):
    """facts about either side of a known equality hold of the other side"""
    m = eq_substs(facts)
    if not m: return facts
    f = dict(facts)
    for a, b in m.items():
        for x, y in ((a, b), (b, a)):
            s = facts.get(x)
            if s is None: continue
            o = f.get(y)
            f[y] = s if o is None else o.inter(s)
    return f


def norm_under(t, facts):
    t = simp(t, facts)
    m = eq_substs(facts)
    if m:
        t2 = subst(t, m)
        if t2 is not t: t = simp(t2, facts)
    return t


def feasible(facts, g):
    f = dict(facts)
    for k, s in g.items():
        o = f.get(k)
        if o is None: o = bound(k, f)
        n = s if o is None else o.inter(s)
        if n.empty(): return None
        f[k] = n
    return f


def decided(k, facts):
    """the value of an integer term when the facts pin it"""
    k = norm_under(k, facts)
    if k.op == "int": return k.a[0]
    b = bound(k, facts)
    return None if b is None else b.single()


def same(a, b, facts, depth=0):
    """are the two terms equal under the facts"""
    if a is b: return True
    a, b = norm_under(a, facts), norm_under(b, facts)
    if a is b: return True
    if a.op == "dd" or b.op == "dd":
        if depth > 6: return False
        x = a if a.op == "dd" else b
        for s, _ in x.a[1]:
            # split on the top key of one side
            f2 = feasible(facts, {x.a[0]: s}) if x.a[0].op != "undef" else None
            if f2 is None: continue
            if not same(a, b, f2, depth + 1): return False
        return True
    if (a.op == "adt") != (b.op == "adt") and depth < 6:
        # a value taken apart and put together again
        x, y = (a, b) if a.op == "adt" else (b, a)
        if x.a[0] in (OPT, RES):
            d = decided(disc(y, 2), facts)
            if d is not None: return d == x.a[1] and all(same(z, fld(y, i, x.a[1]), facts, depth + 1) for i, z in enumerate(x.a[2:]))
    if a.op in MAPOPS or b.op in MAPOPS:
        if a.op in ("mins", "mrem", "mkeep", "fld", "mempty", "sym", "mget", "wget") and b.op in ("mins", "mrem", "mkeep", "fld", "mempty", "sym", "mget", "wget") and depth < 5:
            return same_map(a, b, facts, depth)
    if a.op == b.op and len(a.a) == len(b.a) and a.op not in ("lam", "comp", "dd", "fold") and depth < 6:
        r = True
        for x, y in zip(a.a, b.a):
            if isinstance(x, T) and isinstance(y, T): r = r and same(x, y, facts, depth + 1)
            elif isinstance(x, tuple) and isinstance(y, tuple):
                r = r and len(x) == len(y) and all(same(p, q, facts, depth + 1) if isinstance(p, T) and isinstance(q, T) else p == q for p, q in zip(x, y))
            else: r = r and x == y
            if not r: return False
        return r
    return False


WORDS = ("a", "ab", "b", "", "A", "a ", "1", "10")


def refuted(a, b, facts, q):
    """are the two conditions told apart by some constant words in place of the arguments and of q"""
    vs = [x for x in {y for t in (a, b) for y in subterms(t)} if x.op == "sym" and isinstance(x.a[0], str) and re.match(r"arg\d+$", x.a[0])]
    if len(vs) > 2: return False
    import itertools
    for c in itertools.product(WORDS, repeat=len(vs) + 1):
        m = dict(zip([q] + vs, [S(x) for x in c]))
        f = {}
        for k, s in facts.items():
            k2 = subst(k, m)
            if k2.op == "dd" and k2 is inn(k2.a[0], ONE): k2 = k2.a[0]
            if is_const(k2):
                if not (k2.op == "int" and k2.a[0] in s or k2.op == "str" and k2.a[0] in s or k2.op == "bool" and int(k2.a[0]) in s): f = None
            elif k2.op == "dd": f = None
            else: f[k2] = s
            if f is None: break
        if f is None: continue
        for g, l in paths(subst(a, m)):
            f2 = feasible(f, g)
            if f2 is None or l.op != "bool": continue
            for h, r in paths(subst(b, m)):
                f3 = feasible(f2, h)
                if f3 is None or r.op != "bool" or r is l: continue
                if all(k in facts or k.op in ("has", "mlen") and k.a[0].op in ("fld", "sym") for k in f3): return True
    return False


def same_keep(a, b, facts):
    """equality of maps that may have been filtered: None when a filter is not understood"""
    if same(a, b, facts): return True
    if not any(x.op == "mkeep" for t in (a, b) for x in subterms(t)): return False
    q = mk("sym", "$q", None)
    return False if refuted(has(a, q), has(b, q), facts, q) else None


MAPOPS = ("mins", "mrem", "mkeep")


def same_map(a, b, facts, depth):
    """extensional equality: same keys and values at an arbitrary key"""
    q = fresh("sym") if False else mk("sym", "$key%d" % depth, None)
    ha, hb = has(a, q), has(b, q)
    if not same(ha, hb, facts, depth + 1): return False
    for g, l in paths(ha):
        if l is not TRUE: continue
        f2 = feasible(facts, g)
        if f2 is None: continue
        if not same(mget(a, q), mget(b, q), f2, depth + 1): return False
    return True


def show_facts(facts, limit=6):
    out = []
    for k, s in facts.items():
        t = show(k, 4)
        if re.fullmatch(r"n\d+", t): continue
        out.append("%s∈%r" % (t, s))
    return "; ".join(out[:limit]) or "always"


CONSTR = {"seq", "one", "sl", "adt", "tup", "mins", "str", "int", "bool", "lit", "float", "ofchars", "ref", "lam", "mempty", "wstep"}


def unfolded(t, memo=None):
    """does the term hold an operation on constants only that was not carried out"""
    memo = {} if memo is None else memo

    def go(x):
        """(has a variable, has such an operation)"""
        if not isinstance(x, T):
            if isinstance(x, tuple):
                r = [go(y) for y in x]
                return any(a for a, _ in r), any(b for _, b in r)
            return False, False
        if x in memo: return memo[x]
        if x.op in ("sym", "bv"): r = (True, False)
        else:
            q = [go(y) for y in x.a]
            v, u = any(a for a, _ in q), any(b for _, b in q)
            r = (v, u or not v and bool(x.a) and x.op not in CONSTR)
        memo[x] = r
        return r
    return go(t)[1]


# ---------------------------------------------------------------- constants of the code under analysis
def consts_of(it):
    """the characters, numbers and texts that the local functions visited by an interpretation mention"""
    chars, ints, texts = set(), set(), set()

    def look(x):
        if isinstance(x, dict):
            if "char" in x and isinstance(x["char"], int): chars.add(x["char"])
            elif "int" in x:
                try: ints.add(int(x["int"]))
                except (TypeError, ValueError): pass
            elif "str" in x and isinstance(x["str"], str): texts.add(x["str"])
            for y in x.values(): look(y)
        elif isinstance(x, list):
            if x and x[0] == "switch" and isinstance(x[2], list):
                for v in x[2]:
                    if isinstance(v, list) and isinstance(v[0], int): ints.add(v[0])
            for y in x: look(y)
    for k in it.visited:
        b = it.insts[k]
        if b.get("local") and b.get("body"): look(b["body"]["blocks"])
    return chars, ints, texts


def special_texts(it, plain="a", cap=48):
    """texts that stand out to the functions visited: holding the characters they mention, or as long as the numbers they mention"""
    chars, ints, texts = consts_of(it)
    cs = []
    for c in sorted(chars | {i for i in ints if 127 < i < 0x110000}):
        for d in (c, c - 1, c + 1):
            if 0 < d < 0x110000 and not 0xD800 <= d < 0xE000 and d not in cs: cs.append(d)
    out = []
    for c in [chr(c) for c in cs][:cap]: out += [c, plain + c, c + plain, plain + c + plain]
    for t in sorted(texts, key=lambda t: (len(t), t)):
        if 0 < len(t) <= 24: out += [t, plain + t, t + plain]
    for n in sorted(i for i in ints if 2 <= i <= 300): out += [plain * (n - 1), plain * n, plain * (n + 1)]
    seen, r = set(), []
    for t in out:
        if t not in seen:
            seen.add(t)
            r.append(t)
    return r[:4 * cap]
