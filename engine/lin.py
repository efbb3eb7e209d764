"""Linear integer constraints: a small polyhedra domain (equalities solved by
substitution, inequalities kept as `l >= 0`, emptiness by Fourier-Motzkin with
integer tightening)."""
from math import gcd
from functools import lru_cache

ZERO = (0, ())
def const(n): return (n, ())
def var(v): return (0, ((v, 1),))
def is_const(l): return not l[1]
def add(a, b, k=1):
    if not b[1]: return (a[0] + k * b[0], a[1])
    d = dict(a[1])
    for v, c in b[1]:
        x = d.get(v, 0) + k * c
        if x: d[v] = x
        else: d.pop(v, None)
    return (a[0] + k * b[0], tuple(sorted(d.items(), key=lambda t: str(t[0]))))
def sub(a, b): return add(a, b, -1)
def scale(a, k):
    if k == 0: return ZERO
    return (a[0] * k, tuple((v, c * k) for v, c in a[1]))
def vars_of(l): return [v for v, _ in l[1]]
def subst(l, m):
    """replace vars by Lins"""
    if not any(v in m for v, _ in l[1]): return l
    r = (l[0], ())
    for v, c in l[1]:
        r = add(r, scale(m[v], c) if v in m else (0, ((v, c),)))
    return r
def rename(l, f):
    d = {}
    for v, c in l[1]:
        n = f(v); d[n] = d.get(n, 0) + c
    return (l[0], tuple(sorted(((v, c) for v, c in d.items() if c), key=lambda t: str(t[0]))))
def tighten(l):
    if not l[1]: return l
    g = 0
    for _, c in l[1]: g = gcd(g, abs(c))
    if g > 1: return (l[0] // g, tuple((v, c // g) for v, c in l[1]))
    return l
def show(l):
    s = ' '.join(f"{'+' if c>0 else '-'}{'' if abs(c)==1 else abs(c)}{v}" for v, c in l[1])
    return f"{s} {'+' if l[0]>=0 else ''}{l[0]}".strip()

@lru_cache(maxsize=200000)
def _infeasible(ineqs):
    """ineqs: frozenset of Lin >= 0.  True only if certainly infeasible."""
    cur = set()
    for l in ineqs:
        l = tighten(l)
        if not l[1]:
            if l[0] < 0: return True
            continue
        cur.add(l)
    steps = 0
    while cur:
        # keep strongest constant per direction
        best = {}
        for c, t in cur:
            if t not in best or c < best[t]: best[t] = c
        cur = {(c, t) for t, c in best.items()}
        # choose var with least product
        pos = {}; neg = {}
        for l in cur:
            for v, c in l[1]:
                (pos if c > 0 else neg).setdefault(v, []).append(l)
        vs = set(pos) | set(neg)
        one = [v for v in vs if v not in pos or v not in neg]
        if one:
            dead = set(one)
            cur = {l for l in cur if not any(v in dead for v, _ in l[1])}
            continue
        v = min(vs, key=lambda v: (len(pos[v]) * len(neg[v]), str(v)))
        new = {l for l in cur if not any(u == v for u, _ in l[1])}
        for p in pos[v]:
            cp = dict(p[1])[v]
            for n in neg[v]:
                cn = -dict(n[1])[v]
                r = tighten(add(scale(p, cn), scale(n, cp)))
                if not r[1]:
                    if r[0] < 0: return True
                    continue
                new.add(r)
        cur = new
        steps += 1
        if len(cur) > 400 or steps > 40: return False
    return False

def _component(ineqs, vs):
    vs = set(vs); out = set(); rest = set(ineqs); ch = True
    while ch:
        ch = False
        for l in list(rest):
            if any(v in vs for v, _ in l[1]):
                out.add(l); rest.discard(l)
                for v, _ in l[1]:
                    if v not in vs: vs.add(v); ch = True
    return frozenset(out)

class LinCtx:
    __slots__ = ('eq', 'ge', '_h')
    def __init__(s, eq=None, ge=frozenset()):
        s.eq = eq or {}; s.ge = ge; s._h = None
    def norm(s, l): return subst(l, s.eq)
    def add_ge(s, l):
        """l >= 0; returns new ctx or None"""
        l = tighten(s.norm(l))
        if not l[1]: return s if l[0] >= 0 else None
        if l in s.ge: return s
        ge = s.ge | {l}
        neg = scale(l, -1)
        if _infeasible(_component(ge, vars_of(l))): return None
        n = LinCtx(s.eq, ge)
        # implied equality?
        if tighten(neg) in ge: return n.add_eq(l)
        return n
    def add_eq(s, l):
        l = s.norm(l)
        if not l[1]: return s if l[0] == 0 else None
        cand = [(v, c) for v, c in l[1] if abs(c) == 1]
        if not cand:
            g = 0
            for _, c in l[1]: g = gcd(g, abs(c))
            if l[0] % g: return None
            l = (l[0] // g, tuple((v, c // g) for v, c in l[1]))
            cand = [(v, c) for v, c in l[1] if abs(c) == 1]
        if not cand:
            ge = s.ge | {l, scale(l, -1)}
            if _infeasible(_component(ge, vars_of(l))): return None
            return LinCtx(s.eq, ge)
        v, c = max(cand, key=lambda t: (len(str(t[0])), str(t[0])))
        # c*v + rest = 0 -> v = -rest/c
        rest = sub(l, (0, ((v, c),)))
        val = scale(rest, -c)   # c is +-1
        m = {v: val}
        eq = {k: subst(x, m) for k, x in s.eq.items()}
        eq[v] = val
        ge = set()
        touched = set()
        for x in s.ge:
            y = tighten(subst(x, m))
            if not y[1]:
                if y[0] < 0: return None
                continue
            if y != x: touched.update(vars_of(y))
            ge.add(y)
        ge = frozenset(ge)
        if touched and _infeasible(_component(ge, touched)): return None
        return LinCtx(eq, ge)
    def entails_ge(s, l):
        l = s.norm(l)
        if not l[1]: return l[0] >= 0
        n = tighten((-l[0] - 1, tuple((v, -c) for v, c in l[1])))
        return _infeasible(_component(s.ge | {n}, vars_of(n)))
    def entails_eq(s, l):
        l = s.norm(l)
        if not l[1]: return l[0] == 0
        return s.entails_ge(l) and s.entails_ge(scale(l, -1))
    def constraints(s):
        return [sub(var(v), l) for v, l in s.eq.items()], list(s.ge)
    def project(s, keep):
        """(frozenset of equalities, frozenset of inequalities) over `keep` vars, canonical-ish"""
        keep = set(keep)
        # gaussian: eliminate non-kept vars in equalities
        eqs = [sub(var(v), l) for v, l in s.eq.items()]
        ge = list(s.ge)
        allv = set()
        for l in eqs + ge: allv.update(vars_of(l))
        elim = [v for v in allv if v not in keep]
        changed = True
        while changed:
            changed = False
            for i, e in enumerate(eqs):
                c = [(v, k) for v, k in e[1] if v in elim and abs(k) == 1]
                if c:
                    v, k = c[0]
                    val = scale(sub(e, (0, ((v, k),))), -k)
                    m = {v: val}
                    eqs = [subst(x, m) for j, x in enumerate(eqs) if j != i]
                    ge = [subst(x, m) for x in ge]
                    changed = True
                    break
        eqs = [e for e in eqs if e[1]]
        for e in [e for e in eqs if any(v in elim for v, _ in e[1])]:
            eqs.remove(e); ge += [e, scale(e, -1)]
        cur = {tighten(l) for l in ge if l[1]}
        while True:
            vs = {}
            for l in cur:
                for v, c in l[1]:
                    if v not in keep: vs.setdefault(v, [0, 0])[0 if c > 0 else 1] += 1
            if not vs: break
            v = min(vs, key=lambda v: (vs[v][0] * vs[v][1], str(v)))
            new = {l for l in cur if not any(u == v for u, _ in l[1])}
            P = [l for l in cur if any(u == v and c > 0 for u, c in l[1])]
            N = [l for l in cur if any(u == v and c < 0 for u, c in l[1])]
            if len(P) * len(N) <= 200:
                for p in P:
                    cp = dict(p[1])[v]
                    for n in N:
                        cn = -dict(n[1])[v]
                        r = tighten(add(scale(p, cn), scale(n, cp)))
                        if r[1]: new.add(r)
            cur = new
        # canonical equalities: reduced row echelon on sorted vars
        ctx = LinCtx()
        for e in sorted(eqs, key=str):
            n = ctx.add_eq(e)
            if n is None: return None
            ctx = n
        cs = sorted({tighten(ctx.norm(l)) for l in cur if ctx.norm(l)[1]}, key=str)
        # redundancy elimination
        kept = list(cs)
        for l in cs:
            o = [x for x in kept if x != l]
            n = (-l[0] - 1, tuple((v, -c) for v, c in l[1]))
            if _infeasible(_component(frozenset(o) | {tighten(n)}, vars_of(n))): kept = o
        return (frozenset(sub(var(v), l) for v, l in ctx.eq.items()), frozenset(kept))
