"""Loop summaries: the loop head is widened by anti-unification to a template with recurrence
variables, the body is interpreted once from the template, and the recurrences are solved into
closed forms (induction variables, sequence comprehensions, counts, flags, folds)."""
from terms import *
from interp import State, Limit

GEN = {"adt", "tup", "rec", "clo", "it", "ofchars", "supd"}


class Gen:
    def __init__(self):
        self.init = {}       # phi -> initial term
        self.share = {}      # (initial, new) -> phi
        self.noshare = False
        self.pend = {}

    def new(self, i, b):
        k = (i, b)
        if not self.noshare and k in self.share: return self.share[k]
        p = fresh("phi")
        self.init[p] = i
        self.share[k] = p
        return p

    def base(self, t):
        ph = {p: i for p, i in self.init.items() if p in syms_of(t)}
        n = 0
        while ph and n < 10:
            t = subst(t, ph)
            ph = {p: i for p, i in self.init.items() if p in syms_of(t)}
            n += 1
        return t

    def gen(self, t, b, tt=None):
        if t is b or t in self.init: return t
        if t.op == "ref" and b.op == "ref" and t.a[0] == b.a[0]:
            p = self.projs(t.a[1], b.a[1])
            if p is not None: return mk("ref", t.a[0], p)
        if t.op == "seq" or b.op == "seq":
            if t.op == "seq" and len(t.a[0]) == 1 and t.a[0][0].op == "sl" and t.a[0][0].a[0] in self.init: return t
            return self.seqphi(t, b)
        if t.op in GEN and t.op == b.op and len(t.a) == len(b.a):
            if t.op == "adt" and t.a[:2] == b.a[:2]:
                return mk("adt", t.a[0], t.a[1], *[self.gen(x, y) for x, y in zip(t.a[2:], b.a[2:])])
            if t.op == "tup": return mk("tup", *[self.gen(x, y) for x, y in zip(t.a, b.a)])
            if t.op == "clo" and t.a[0] == b.a[0] and len(t.a[1]) == len(b.a[1]):
                return mk("clo", t.a[0], tuple(self.gen(x, y) for x, y in zip(t.a[1], b.a[1])))
            if t.op == "it" and t.a[0] is b.a[0]:
                return mk("it", t.a[0], self.gen(t.a[1], b.a[1]), self.gen(t.a[2], b.a[2]))
            if t.op == "ofchars":
                return mk("ofchars", self.gen(t.a[0], b.a[0]))
            if t.op == "rec" and t.a[0] is b.a[0]:
                ks = sorted(set(dict(t.a[1])) | set(dict(b.a[1])))
                r = t.a[0]
                for k in ks: r = upd(r, k, self.gen(fld(t, k), fld(b, k)))
                return r
        if b.op == "rec" and b.a[0] is t:
            r = t
            for k, x in b.a[1]: r = upd(r, k, self.gen(fld(t, k), x))
            return r
        if t.op == "str" and b.op == "ofchars" or t.op == "ofchars" and b.op == "str" or \
                (b.op == "ofchars" and t.op != "phi" and _isstr(t)):
            return mk("ofchars", self.seqphi(chars(t), chars(b)))
        # walks through a recursive map
        if b.op in ("wget", "ens", "wput"):
            i, s, base = b.a[1], b.a[2], b.a[0]
            if t.op == b.op and t.a[0] is base and t.a[1] == i and t.a[3:] == b.a[3:]:
                return rebuild(b.op, (base, i, self.seqphi(t.a[2], s)) + b.a[3:])
            if t is base and b.op in ("wget", "ens"):
                return mk(b.op, base, i, self.seqphi(EMPTY, s), *b.a[3:])
        return self.new(self.base(t), b)

    def seqphi(self, t, b):
        if t is b: return t
        if t.op != "seq": return self.new(self.base(t), b)
        if len(t.a[0]) == 1 and t.a[0][0].op == "sl" and t.a[0][0].a[0] in self.init: return t
        if t.op == "seq":
            for p in t.a[0]:
                if p.op == "sl" and p.a[0] in self.init: pass
        return seq(self.new(self.base(t), b))

    def projs(self, p, q):
        out = []
        i = j = 0
        while i < len(p) or j < len(q):
            x = p[i] if i < len(p) else None
            y = q[j] if j < len(q) else None
            if x == y: out.append(x); i += 1; j += 1; continue
            if x and y and x[0] == y[0] == "w" and x[1] == y[1]:
                out.append(("w", x[1], self.seqphi(x[2], y[2])))
                i += 1; j += 1; continue
            if y and y[0] == "w" and (x is None or x[0] != "w"):
                out.append(("w", y[1], self.seqphi(EMPTY, y[2])))
                j += 1; continue
            return None
        return tuple(out)


def _isstr(t):
    return t.op in ("str", "ofchars", "lower", "alower", "trim", "sub")


def chars(s):
    import model
    return model.chars_of(s)


def loop_fix(it, st, body, ends=None):
    for noshare in (False, True):
        r = _loop_fix(it, st, body, noshare, ends)
        if r is not None: return r
    raise Limit("loop recurrences do not stabilise")


def _loop_fix(it, st, body, noshare, ends):
    G = Gen()
    G.noshare = noshare
    n = fresh("n")
    init = dict(st.cells)
    tmpl = dict(init)
    facts = dict(st.facts)
    facts[n] = NONNEG
    for rnd in range(10):
        hs = State(dict(tmpl), dict(facts))
        it.quiet += 1
        try: outs = body(hs)
        finally: it.quiet -= 1
        backs = [s for k, s in outs if k == "back"]
        if not backs: break
        new = dict(tmpl)
        for b in backs:
            for c in list(new):
                if c not in b.cells: continue
                if new[c] is not b.cells[c] and not _matches(new[c], b.cells[c], G): 
                    new[c] = G.gen(new[c], b.cells[c])
        if new == tmpl: break
        tmpl = new
    else:
        return None
    if not backs:
        # the loop never goes round
        res = body(st.copy())
        return [(k, s) for k, s in res if k != "back"]
    outs = body(State(dict(tmpl), dict(facts)))    # with panics recorded
    backs = [s for k, s in outs if k == "back"]
    exits = [(k, s) for k, s in outs if k != "back"]
    hs = State(tmpl, facts)
    used = set()
    for v in tmpl.values(): used |= syms_of(v) & set(G.init)
    phis = [p for p in G.init if p in used]
    steps = []
    for b in backs:
        m = {}
        for c in tmpl:
            if c not in b.cells: continue
            if not match(tmpl[c], b.cells[c], set(phis), m): return None
        g = it.guard_of(hs, b)
        steps.append((g, {p: m.get(p, p) for p in phis}))
    for p in phis: it.phis[p] = (G.init[p], [d[p] for g, d in steps])
    return solve(it, st, n, tmpl, phis, G.init, steps, exits, hs, ends)


def _matches(t, b, G):
    return match(t, b, set(G.init), {})


def match(t, b, phis, m):
    """b is an instance of the template t; fills m: phi -> step"""
    if t in phis:
        if t in m: return m[t] is b
        m[t] = b
        return True
    if t is b and not (syms_of(t) & phis): return True
    if not (syms_of(t) & phis): return False
    if t.op == "seq":
        if len(t.a[0]) == 1 and t.a[0][0].op == "sl" and t.a[0][0].a[0] in phis:
            p = t.a[0][0].a[0]
            if t is not seq(p): return t is b
            b = as_seq(b)
            if p in m: return m[p] is b
            m[p] = b
            return True
        if t is b:
            for p in syms_of(t) & phis: m.setdefault(p, p)
            return True
        return False
    if t.op in ("wget", "ens", "wput") :
        if b is t.a[0] and t.op in ("wget", "ens"): return match(t.a[2], EMPTY, phis, m)
        if b.op != t.op: return False
        if b.op == "ref": return False
    if t.op != b.op or len(t.a) != len(b.a):
        if t.op == "rec" and b.op != "rec" and t.a[0] is b:
            return all(match(x, fld(b, i), phis, m) for i, x in t.a[1])
        if t.op == "ofchars": return match(t.a[0], chars(b), phis, m)
        return False
    if t.op == "rec":
        if t.a[0] is not b.a[0] and not match(t.a[0], b.a[0], phis, m): return False
        ks = set(dict(t.a[1])) | set(dict(b.a[1]))
        return all(match(fld(t, k), fld(b, k), phis, m) for k in ks)
    return all(_mm(x, y, phis, m) for x, y in zip(t.a, b.a))


def _mm(x, y, phis, m):
    if isinstance(x, T): return isinstance(y, T) and match(x, y, phis, m)
    if isinstance(x, tuple):
        if not isinstance(y, tuple): return False
        if len(x) != len(y):
            # projections of a reference: a walk over no key is no projection
            xs = [p for p in x]
            if len(y) < len(x):
                k = next((i for i, p in enumerate(xs) if isinstance(p, tuple) and p and p[0] == "w" and (i >= len(y) or y[i][0] != "w")), None)
                if k is not None: return _mm(x, y[:k] + (("w", x[k][1], EMPTY),) + y[k:], phis, m)
            return False
        return all(_mm(p, q, phis, m) for p, q in zip(x, y))
    return x == y


# ---------------------------------------------------------------- solving
def gsubst(g, m):
    """a guard under a substitution: list of guards"""
    out = [{}]
    for k, s in g.items():
        k2 = subst(k, m) if m else k
        if k2 is k: alts = [{k: s}]
        else: alts = [h for h, l in paths(inn(k2, s)) if l is TRUE]
        out = [c for a in out for b in alts for c in [conj(a, b)] if c is not None]
    return out


def solve(it, st0, n, tmpl, phis, init, steps, exits, hs, ends=None):
    phiset = set(phis)
    solved = {}            # phi -> term in n (value at the start of iteration n)

    def resubst(m):
        nonlocal steps
        out = []
        for g, d in steps:
            for g2 in gsubst(g, m):
                out.append((g2, {p: simp(subst(x, m), g2) for p, x in d.items()}))
        steps = out

    def unsolved(t): return (syms_of(t) & phiset) - set(solved)

    # invariants and induction variables
    ch = True
    while ch:
        ch = False
        for p in phis:
            if p in solved: continue
            vs = [d[p] for _, d in steps]
            if all(v is p or v is seq(p) for v in vs): c = init[p]
            else:
                ds = {sub(v, p) if v.op in ("lin", "int") or v is p else None for v in vs}
                if len(ds) != 1: continue
                d = ds.pop()
                if d is None or d.op != "int": continue
                c = add(init[p], mulc(n, d.a[0]))
            solved[p] = c
            resubst({p: c})
            ch = True
    # the loop bound: a linear key in n that every repeating path wants >= 1 (or in 1..)
    bounds = []
    if steps:
        cand = None
        for g, _ in steps:
            ks = {}
            for k, s in g.items():
                if n in syms_of(k) and k.op in ("lin", "n") and s.kind == "I" and s.r:
                    c, ps = lin_parts(k)
                    co = dict(ps).get(n)
                    rest = mk_lin(c, [(t, x) for t, x in ps if t is not n])
                    if co in (1, -1) and n not in syms_of(rest) and not unsolved(rest):
                        if co == -1 and s.lo() > NEG: L = sub(rest, I(s.lo() - 1))       # rest - n >= lo
                        elif co == 1 and s.hi() < POS: L = sub(I(s.hi() + 1), rest)       # n + rest <= hi
                        else: continue
                        ks[L] = k
            cand = ks if cand is None else {L: k for L, k in cand.items() if L in ks}
        bounds = list((cand or {}).items())
    H = None
    hkeys = set()
    implied = []
    if bounds:
        # n can reach at most the smallest of them
        Ls = []
        for L, k in bounds:
            if L not in Ls: Ls.append(L)
            hkeys.add(k)
        if len(Ls) > 1:
            # bounds that no exit tests are implied on every run that does not panic
            sm = {p: (lambda c: lambda m: subst(c, {n: m}))(c) for p, c in solved.items()}
            ex = [L for L in Ls if any(is_exhaust(it.guard_of(hs, s), hkeys, n, sm, L, subst) for _, s in exits)]
            if ex and len(ex) < len(Ls) and all(bound_at(L, st0.facts) for L in Ls if L not in ex):
                implied = [L for L in Ls if L not in ex]
                Ls = ex
        if len(Ls) == 1: H = Ls[0]
        else:
            H = Ls[0]
            for x in Ls[1:]: H = rebuild("min", (H, x))
        u = bound_at(H, st0.facts)
        if not u: H = rebuild("max0", (H,))
    exit_n = []
    for k, s in exits:
        g = it.guard_of(hs, s)
        exit_n.append((k, s, g))
    # rewrite exits with what is solved so far
    def split_guard(g, m):
        r = []
        for g2 in gsubst(g, m):
            r.append(g2)
        return r

    steps = [({k: s for k, s in g.items() if k not in hkeys}, d) for g, d in steps]

    # optional-valued chains
    extra_facts_exh, special = {}, {}
    early_extra = None
    ordinary = [p for p in phis if p not in solved]
    tf = None
    for p in list(ordinary):
        r = try_tfold(it, p, n, init, steps, exits, hs, solved, ordinary, H, hkeys)
        if r is not None:
            tf = (p,) + r
            ordinary.remove(p)
            break
    if tf and tf[1] == "payload":
        steps = [({k: s for k, s in g.items() if k is not tf[3]}, d) for g, d in steps]

    # sequences, counts, flags
    closed = {}            # phi -> function of the iteration count
    for p, c in solved.items():
        closed[p] = (lambda c: lambda m: subst(c, {n: m}))(c)
    ch = True
    while ch:
        ch = False
        for p in list(ordinary):
            r = close_simple(p, n, init[p], steps, phiset - set(closed))
            if r is None: continue
            closed[p] = r
            ordinary.remove(p)
            c = r(n)
            solved[p] = c
            resubst({p: c})
            ch = True
        if not ch:
            for p in list(ordinary):
                dep = set()
                for g, d in steps:
                    dep |= (syms_of(d[p]) & phiset) - set(closed)
                    for k in g: dep |= (syms_of(k) & phiset) - set(closed)
                if d is not None and dep <= {p}:
                    r = close_fold([p], n, init, steps)
                    closed.update(r)
                    ordinary.remove(p)
                    c = r[p](n)
                    solved[p] = c
                    resubst({p: c})
                    ch = True
                    break
    if ordinary:
        r = close_fold(ordinary, n, init, steps)
        closed.update(r)
    if tf:
        p = tf[0]
        mode, TV = tf[1], tf[2]
        closed[p] = (lambda m: TV(m)) if mode == "opt" else (lambda m: fld(TV(m), 0, 1))

    # exits
    res = []
    early = []
    final = []
    for k, s, g in exit_n:
        final.append((k, s, g, is_exhaust(g, hkeys, n, closed, H, subst)))
    mN = {p: closed[p](n) for p in phis}
    E = []
    for k, s, g, ex in final:
        if ex: continue
        if tf and tf_exit(tf, g): continue
        for g2 in gsubst(g, mN):
            g3 = {kk: ss for kk, ss in g2.items() if not (n in syms_of(kk) and is_bound_key(kk, n, H))}
            E.append((g3, TRUE))
    anyt = None
    if E and H is not None:
        # canonical condition "some iteration leaves early"
        tot = list(E)
        for g, d in steps: pass
        cond = cond_of(E)
        f = lam(n, cond)
        anyt = any_(f, H)
        firstn = first_(f, H)
    # a chain that ended early and a chain run to its end are told apart when they lead to different
    # places or when something else that is still needed depends on how far the loop went
    apart = False
    if tf and tf[1] == "opt":
        canon, alive = ends or (lambda k: k, lambda k, s: set(s.cells))
        both = [(k, s) for k, s, g, ex in final if ex or tf_exit(tf, g)]
        apart = len({canon(k) for k, s in both}) > 1
        for k, s in both:
            for c in alive(canon(k), s):
                for x in (syms_of(s.cells[c]) if c in s.cells else ()):
                    if x is n or x in closed and x is not tf[0] and n in syms_of(closed[x](n)): apart = True
    havn = fresh("hav") if apart else None
    for k, s, g, ex in final:
        if ex: m = H
        elif tf and tf_exit(tf, g): m = havn if apart else H
        elif anyt is not None: m = firstn
        else: m = n
        ms = {p: closed[p](m) for p in phis}
        ms[n] = m
        if m is n: ms.pop(n)
        if apart and not ex and tf_exit(tf, g):
            ms[tf[0]] = NONE
            g = {kk: ss for kk, ss in g.items() if kk is not tf[3] and kk not in hkeys and not (n in syms_of(kk) and is_bound_key(kk, n, H))}
        facts = [dict(st0.facts)]
        # translate the exit facts
        for g2 in gsubst(g, ms) if not ex or True else [{}]:
            f2 = {kk: ss for kk, ss in g2.items() if havn is None or havn not in syms_of(kk)}
            ns = State({c: subst(v, ms) for c, v in s.cells.items()}, dict(st0.facts))
            if m is n: ns.facts[n] = NONNEG
            ns = ns.restrict(f2)
            if ns is None: continue
            conds = []
            if anyt is not None and ex: conds.append(bnot(anyt))
            if ex: conds += [le(H, L) for L in implied]
            if anyt is not None and not ex and not (tf and tf_exit(tf, g)): conds.append(anyt)
            if tf and apart:
                # leaving when the chain has ended and leaving at the end of the sequence lead to
                # different places: the chain had ended before the last step
                V = tf[2](H)
                prev = inn(disc(tf[2](sub(H, I(1))), 2), ZERO)
                none_before = ite(le(I(1), H), prev, FALSE)
                conds.append(none_before if not ex else bnot(none_before))
            elif tf:
                V = tf[2](H)
                if tf_exit(tf, g): conds.append(inn(disc(V, 2), ZERO))
                elif ex and tf[1] == "payload": conds.append(inn(disc(V, 2), ONE))
            sts = [ns]
            for c in conds:
                sts = [x for y in sts for x, b in it.decide(y, c) if b]
            for y in sts:
                y = State({c: simp(v, {kk: vv for kk, vv in y.facts.items() if st0.facts.get(kk) != vv}) for c, v in y.cells.items()}, y.facts)
                if tf and tf[1] == "opt" and tf_exit(tf, g):
                    V = tf[2](H)
                    y = State({c: subst(v, {V: NONE}) if V in subterms(v) else v for c, v in y.cells.items()}, y.facts)
                res.append((k, y))
    return res


def bound_at(t, facts):
    from interp import bound
    if t.op == "int": return t.a[0] >= 0
    if t.op == "min": return all(bound_at(x, facts) for x in t.a)
    u = bound(t, facts)
    return u is not None and bool(u.r) and u.lo() >= 0


def is_bound_key(k, n, H):
    c, ps = lin_parts(k)
    d = dict(ps)
    if d.get(n) not in (1, -1): return False
    rest = mk_lin(0, [(t, x * -d[n]) for t, x in ps if t is not n])
    if H is None: return False
    dd = sub(rest, H)
    if dd.op == "int": return True
    if H.op == "max0": 
        dd = sub(rest, H.a[0])
        return dd.op == "int"
    if H.op == "min": return any(sub(rest, x).op == "int" for x in H.a)
    return False


def bounds_of(H):
    if H.op in ("min", "max0"): return [y for x in H.a for y in bounds_of(x)]
    return [H]


def is_exhaust(g, hkeys, n, closed, H, sb):
    if H is None: return False
    m = {p: f(n) for p, f in closed.items()}
    for k, s in g.items():
        k2 = sb(k, m)
        if n not in syms_of(k2): continue
        # the guard says that n has reached the bound
        for h, l in paths(inn(k2, s)):
            if l is not TRUE: continue
            for kk, ss in h.items():
                if not is_bound_key(kk, n, H): continue
                c, ps = lin_parts(kk)
                co = dict(ps)[n]
                rest = mk_lin(c, [(t, x) for t, x in ps if t is not n])
                for Hx in list(bounds_of(H)) + [H]:
                    if co == -1:      # rest - n in ss ; with n = Hx: rest - Hx
                        d = sub(rest, Hx)
                        if d.op == "int" and ss.r and ss.hi() <= d.a[0]: return True
                    else:
                        d = add(rest, Hx)
                        if d.op == "int" and ss.r and ss.lo() >= d.a[0]: return True
    return False


def cond_of(E):
    """disjunction of guards as a decision diagram, false elsewhere"""
    r = FALSE
    for g, _ in E:
        c = TRUE
        for k, s in g.items(): c = band(c, inn(k, s))
        r = bor(r, c)
    return r


def mentions(t, ps): return bool(syms_of(t) & ps)


def close_simple(p, n, i, steps, open_):
    """closed form of a sequence, count or flag: function of the iteration count, or None"""
    vals = [(g, d[p]) for g, d in steps]
    others = open_
    # guards must not depend on open variables, unless every repeating path does the same
    if any(v is not vals[0][1] for _, v in vals):
        for g, v in vals:
            for k in g:
                if mentions(k, others): return None
    else: vals = [({}, vals[0][1])]
    # sequences that grow at the end
    if all(v is p or (v.op == "seq" and v.a[0] and v.a[0][0].op == "sl" and v.a[0][0] is seq(p).a[0][0]) for g, v in vals):
        if any(v.op == "seq" for g, v in vals):
            cs = []
            for g, v in vals:
                rest = mk("seq", v.a[0][1:]) if v.op == "seq" else EMPTY
                if mentions(rest, others): return None
                cs.append((g, seq(*rest.a[0])))
            D = ddcases(cs)
            f = lam(n, D)
            return lambda m: seq(as_seq(i), comp(f, m))
    # numbers that grow
    if i.op in ("int", "lin") or i.op in INTOPS:
        cs = []
        okk = True
        for g, v in vals:
            d = sub(v, p) if v.op in ("lin", "int") or v is p else None
            if d is None or mentions(d, others) : okk = False; break
            if d.op != "int" and p in syms_of(d): okk = False; break
            cs.append((g, d))
        if okk:
            ls = [l for g, c in cs for _, l in paths(c)]
            if all(l.op == "int" and 0 <= l.a[0] <= 4 for l in ls):
                D = ddcases([(g, map_leaves(c, lambda l: mk("seq", (mk("one", UNIT),) * l.a[0]))) for g, c in cs])
                f = lam(n, D)
                return lambda m: add(i, seqlen(comp(f, m)))
            D = ddcases(cs)
            f = lam(n, D)
            return lambda m: add(i, sum_(f, m))
    # flags
    if i.op == "bool" or is_boolish(i):
        cs, kinds = [], set()
        for g, v in vals:
            if v is p: cs.append((g, FALSE)); continue
            for h, l in paths(as_bool(v)):
                gg = conj(g, h)
                if gg is None: continue
                own = {k: s for k, s in gg.items() if k is p}
                if l is TRUE or l is FALSE:
                    if own:
                        if (1 in own[p]) == (l is TRUE): cs.append(({k: s for k, s in gg.items() if k is not p}, None)); continue
                        if any(k is p for k in gg): gg = {k: s for k, s in gg.items() if k is not p}
                    kinds.add(l)
                    cs.append((gg, TRUE))
                else: return None
        if len(kinds) == 1:
            to = kinds.pop()
            base = [(g, TRUE) for g, l in cs if l is TRUE]
            D = cond_of(base)
            if mentions(D, others): return None
            f = lam(n, D)
            if to is TRUE: return lambda m: bor(i, any_(f, m))
            return lambda m: band(i, bnot(any_(f, m)))
    return None


def sum_(f, m):
    body = f.a[1]
    if not contains(body, mk("bv", f.a[0])):
        if body.op == "int": return mulc(m, body.a[0])
    return mk("sum", f, m)


def close_fold(ps, n, init, steps, whole=False):
    if len(ps) == 1:
        p = ps[0]
        D = ddcases([(g, d[p]) for g, d in steps])
        f = lam2(p, n, D)
        i = init[p]
        return {p: lambda m: fold(f, i, m)}
    # each variable's step by itself: variables that do not depend on each other are separate folds
    D = {p: ddcases([(g, d[p]) for g, d in steps]) for p in ps}
    need = {p: {q for q in ps if q is p or contains(D[p], q)} for p in ps}
    ch = True
    while ch:
        ch = False
        for p in ps:
            w = set().union(*[need[q] for q in need[p]])
            if w != need[p]: need[p] = w; ch = True
    if not whole and any(len(need[p]) < len(ps) for p in ps):
        out = {}
        for p in ps:
            qs = [q for q in ps if q in need[p]]
            if len(qs) == 1:
                out[p] = (lambda f, i: lambda m: fold(f, i, m))(lam2(p, n, D[p]), init[p])
            else:
                out[p] = close_fold(qs, n, init, [(g, {q: l for q, l in zip(qs, t.a)}) for g, t in paths(ddcases([(g, tup(*[d[q] for q in qs])) for g, d in steps]))], True)[p]
        return out
    A = fresh("phi")
    m0 = {p: mk("fld", A, k, None) for k, p in enumerate(ps)}
    cs = []
    for g, d in steps:
        for g2 in gsubst(g, m0):
            cs.append((g2, tup(*[subst(d[p], m0) for p in ps])))
    f = lam2(A, n, ddcases(cs))
    i = tup(*[init[p] for p in ps])
    return {p: (lambda k: lambda m: fld(fold(f, i, m), k))(k) for k, p in enumerate(ps)}


# ---------------------------------------------------------------- chains of optional results
def tf_exit(tf, g):
    p, mode, V, key = tf[0], tf[1], tf[2], tf[3]
    s = g.get(key)
    if s is None:
        return False
    return s == ZERO


def try_tfold(it, p, n, init, steps, exits, hs, solved, ordinary, H, hkeys):
    """p is a token (or an optional token) that each step maps through an optional function and
    that ends the chain when it is None"""
    if H is None: return None
    others = set(ordinary) - {p}
    dk = disc(p, 2)
    # payload form: every repeating path has the guard "r is Some" and steps to r's payload
    rs = set()
    for g, d in steps:
        v = d[p]
        if v.op == "fld" and v.a[1] == 0 and v.a[2] == 1 and g.get(disc(v.a[0], 2)) == ONE: rs.add(v.a[0])
        else: rs.add(None)
    if len(rs) == 1 and None not in rs:
        r = rs.pop()
        key = disc(r, 2)
        if key.op == "disc" and p in syms_of(r) and not mentions(r, others):
            if any(it.guard_of(hs, s).get(key) == ZERO or _gk(it.guard_of(hs, s), key, solved) for k, s in exits):
                f = lam2(p, n, r)
                i = init[p]
                # the guards of exits are stated on the unsolved terms
                return "payload", (lambda m: tfold(f, some(i), m)), key
    # optional form
    some_steps, none_ok = [], True
    for g, d in steps:
        s = g.get(dk)
        if s == ONE: some_steps.append(({k: x for k, x in g.items() if k is not dk}, d[p]))
        elif s == ZERO:
            if d[p] is not NONE and d[p] is not p: return None
        else: return None
    if not some_steps: return None
    y = fresh("phi")
    cs = []
    for g, v in some_steps:
        m = {mk("fld", p, 0, 1): y}
        v2 = subst(v, m)
        if p in syms_of(v2) or mentions(v2, others): return None
        for k in g:
            if p in syms_of(subst(k, m)) or mentions(k, others): return None
        for g2 in gsubst(g, m): cs.append((g2, v2))
    f = lam2(y, n, ddcases(cs))
    i = init[p]
    return "opt", (lambda m: tfold(f, i, m)), dk


def _gk(g, key, solved):
    for k, s in g.items():
        if s == ZERO and subst(k, solved) is key: return True
    return False


def tfold(f, i, h):
    if i is NONE: return NONE
    if h.op == "int" and h.a[0] <= 0: return i
    body = f.a[1]
    if all(l.op == "adt" and l.a[:2] == (OPT, 1) for _, l in paths(body)) and i.op == "adt":
        return some(fold(mk("lam", f.a[0], map_leaves(body, lambda l: l.a[2]), f.a[2]), i.a[2], h))
    r = _tfold_walk(f, i, h)
    if r is not None: return r
    return mk("tfold", f, i, h)


def _tfold_walk(f, i, h):
    """a chain of lookups in a recursive map: the walk, present when every step is"""
    if i.op != "adt" or i.a[:2] != (OPT, 1): return None
    root, body = i.a[2], f.a[1]
    y, n = mk("bv", f.a[0]), mk("bv", f.a[2])
    for y, n in ((y, n), (n, y)):
        ps = paths(body)
        if len(ps) != 2: return None
        no = [g for g, l in ps if l is NONE]
        yes = [(g, l.a[2]) for g, l in ps if l.op == "adt" and l.a[:2] == (OPT, 1)]
        if len(no) != 1 or len(yes) != 1: return None
        (g, x) = yes[0]
        if len(g) != 1 or len(no[0]) != 1: continue
        (k, s), = g.items()
        if k.op != "has" or s != ONE or no[0].get(k) != ZERO: continue
        m, c = k.a
        if m.op != "fld" or m.a[0] is not y or contains(c, y): continue
        ix = m.a[1]
        if x is not wget(y, ix, seq(mk("one", c))) and x is not mget(m, c): continue
        v = fresh("n")
        e = subst(c, {n: v})
        w = fresh("n")
        step = lambda q: wget(root, ix, comp(lam(v, seq(mk("one", e))), q))
        miss = any_(lam(w, bnot(has(fld(step(w), ix), subst(e, {v: w})))), h)
        return ite(miss, NONE, some(step(h)))
    return None


REB["tfold"] = tfold
REB["sum"] = sum_
