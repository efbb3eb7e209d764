"""Abstract interpreter over MIR facts.

Domain of one abstract state (a disjunct):
  * cells    - abstract memory: locals and pointees, holding abstract values
  * defs     - how symbolic values have been materialised (lazy shape materialisation)
  * lin      - linear integer constraints (lengths, indices, heights, element counts)
  * order    - strict order facts between key symbols and whole trees ("all keys of T < k")
  * mem/lab  - where the generic element `x` lives, and the provenance of its value
The set of disjuncts at a program point is merged by equality; recursive functions are
summarised by tabulation (least fixpoint over input abstraction -> output abstractions);
loops are widened (see `widen`).
"""
import time
import sys
import lin as L
from facts import Facts
from words import Words
sys.setrecursionlimit(20000)

class Fork(Exception):
    def __init__(s, states): s.states = states
class Undecided(Exception):
    def __init__(s, why): s.why = why
class Dead(Exception): pass          # infeasible state
class Fatal(Undecided): pass
class Panic(Exception):
    def __init__(s, why): s.why = why

UNIT = ('a', None, 0, ())
def I(n): return ('i', L.const(n))
def B(b): return ('b', bool(b))

class St:
    __slots__ = ('cells', 'defs', 'lin', 'order', 'neq', 'rep', 'n', 'und', 'trace', 'ev', 'empty', 'nonempty', 'node', 'parent', 'wdef', 'tdef', 'pres', 'keep', 'extra', 'attr', 'pbound')
    def __init__(s):
        s.cells = {}; s.defs = {}; s.lin = L.LinCtx(); s.order = frozenset(); s.neq = frozenset()
        s.rep = {}; s.n = 0; s.und = (); s.trace = (); s.ev = (); s.empty = frozenset(); s.nonempty = frozenset(); s.node = {}
        s.parent = {}; s.wdef = {}; s.tdef = {}; s.pres = {}; s.keep = {}; s.extra = {}; s.attr = {}; s.pbound = False
    def copy(s):
        t = St.__new__(St)
        t.cells = dict(s.cells); t.defs = dict(s.defs); t.lin = s.lin; t.order = s.order; t.neq = s.neq
        t.rep = dict(s.rep); t.n = s.n; t.und = s.und; t.trace = s.trace; t.ev = s.ev
        t.empty = s.empty; t.nonempty = s.nonempty; t.node = dict(s.node); t.parent = dict(s.parent); t.wdef = dict(s.wdef); t.tdef = dict(s.tdef)
        t.pres = dict(s.pres); t.keep = dict(s.keep); t.extra = dict(s.extra); t.attr = dict(s.attr); t.pbound = s.pbound
        return t
    def fresh(s, p):
        s.n += 1
        return f"{p}#{s.n}"
    # ---- order facts
    def r(s, t):
        while t in s.rep: t = s.rep[t]
        return t
    def lt(s, a, b):
        return (s.r(a), s.r(b)) in s.order
    def add_lt(s, a, b):
        """a<b strictly (terms: key names, or ('t',tree)); closed transitively through keys; raises Dead if inconsistent"""
        a = s.r(a); b = s.r(b)
        if a == b: raise Dead()
        if (a, b) in s.order: return
        if (b, a) in s.order and not isinstance(a, tuple) and not isinstance(b, tuple): raise Dead()
        o = set(s.order)
        lows = {a}; highs = {b}
        if not isinstance(a, tuple): lows |= {p for p, q in o if q == a}
        if not isinstance(b, tuple): highs |= {q for p, q in o if p == b}
        for p in lows:
            for q in highs:
                if p == q:
                    if not isinstance(p, tuple): raise Dead()
                    continue
                o.add((p, q))
        s.order = frozenset(o)
    def add_eq(s, a, b):
        a = s.r(a); b = s.r(b)
        if a == b: return
        if (a, b) in s.order or (b, a) in s.order: raise Dead()
        if (a, b) in s.neq or (b, a) in s.neq: raise Dead()
        if len(b) < len(a) or (len(a) == len(b) and b < a): a, b = b, a
        s.rep[b] = a
        ren = lambda t: a if t == b else t
        o = {(ren(p), ren(q)) for p, q in s.order}
        s.order = frozenset(o)
        s.neq = frozenset((ren(p), ren(q)) for p, q in s.neq)
        pr = {}
        for (S, k), v in s.pres.items():
            k = ren(k)
            if pr.get((S, k), v) != v: raise Dead()
            pr[(S, k)] = v
        s.pres = pr
        if b in s.keep: s.keep[a] = s.keep[b]
        for p, q in list(s.order):
            if q == a:
                for p2, q2 in list(s.order):
                    if p2 == a:
                        if p == q2:
                            if not isinstance(p, tuple): raise Dead()
                            continue
                        s.order = s.order | {(p, q2)}
    def ge(s, l):
        n = s.lin.add_ge(l)
        if n is None: raise Dead()
        s.lin = n
    def eq0(s, l):
        n = s.lin.add_eq(l)
        if n is None: raise Dead()
        s.lin = n
    # ---- presence of key k in tree S
    def pres_of(s, S, k, depth=0):
        k = s.r(k)
        if (S, k) in s.pres: return s.pres[(S, k)]
        W = Words(s)
        r = W.tree_rel(S, k)
        if r is not None: return False
        P = s.parent.get(S)
        if P is not None and depth < 40:
            n = s.node.get(P)
            if n is not None:
                m = (len(n) - 1) // 3; ci = n[0::3].index(S); lo = ci == 0; hi = ci == m
                for j in range(m):
                    q = W.rel(n[3 * j + 1], k)
                    if q == '=': return False
                    if q == '<':
                        if ci <= j: return False
                        if ci == j + 1: lo = True
                    if q == '>':
                        if ci > j: return False
                        if ci == j: hi = True
                if lo and hi: return s.pres_of(P, k, depth + 1)
        w = W.struct(S)
        if w is not None:
            res = False
            for a in w:
                if a[0] == 'e':
                    q = W.rel(W.key(a[1]), k)
                    if q == '=': return True
                    if q is None: res = None
                elif a[0] == 't':
                    p = s.pres_of(a[1], k, depth + 1)
                    if p is True: return True
                    if p is None: res = None
                else:
                    if W.atom_rel(a, k) is None: res = None
            return res
        return None
    def pres_shape(s, S, k, depth=0):
        """presence of k in S decided by the materialised shape alone (None: unknown)"""
        W = Words(s)
        if S in s.empty or W.tree_rel(S, k) is not None: return False
        n = s.node.get(S)
        if n is None or depth > 30: return None
        res = False
        for j, x in enumerate(n):
            if x is None: continue
            if j % 3 == 1:
                q = W.rel(W.key(x), k)
                if q == '=': return True
                if q is None: res = None
            elif j % 3 == 0:
                p = s.pres_shape(x, k, depth + 1)
                if p is True: return True
                if p is None: res = None
        return res
    def pres_check(s):
        """recorded presence facts against the materialised shapes: a contradiction means the path is infeasible"""
        for (S, k), p in list(s.pres.items()):
            if S not in s.node: continue
            q = s.pres_shape(S, s.r(k))
            if q is not None and q != p: raise Dead()

def attempt(st, f):
    """copy st, apply f, return [copy] or [] if infeasible"""
    t = st.copy()
    try:
        f(t)
    except Dead:
        return []
    return [t]

def owner(x):
    """the node a materialised key symbol belongs to"""
    b, d, r = x.rpartition('.')
    return b if d and r[:1] == 'k' and (len(r) == 1 or r[1:].isdigit()) else None

import seqs

class Interp:
    def __init__(self, facts, mode, roles, budget=20000000):
        self.F = facts; self.mode = mode; self.R = roles
        self.table = {}; self.stack = []; self.viol = {}; self.und = {}
        self.stats = dict(stmts=0, calls=0, folds=0, obligations=0, discharged=0, entries=0, states=0)
        self.budget = budget; self.deadline = None
        self.fnstack = []; self.fnbase = 0; self.cur = ''
        self.scc = facts.sccs()
        self.models = {}
        self.want_panics = False
        self.lost = {}
        self.panicked = []
        self.analysed = set()
        import models
        models.install(self)
        self.hooks = {}
        from summ import Summ
        self.S = Summ(self); self.S.byid = {}; self.S.roots = set()
        self.curentry = None
        self.keytypes = set(); self.unit_vals = False
    def event(self, st, kind, x): pass
    def put_quiet(self, st, cell, path, val):
        u = st.und
        self.put(st, cell, path, val)
        st.und = u
    def assume_same(self, st, x, y):
        raise Undecided('same')
    def keycmp(self, st, a, b):
        """three-way comparison of two keys: [(-1|0|1, state)]"""
        W = Words(st)
        a = W.key(a); b = W.key(b)
        if isinstance(a, tuple) or isinstance(b, tuple):
            if a == b: return [(0, st)]
            st.und = st.und + ('comparison with a derived key',)
            return [(n, st.copy()) for n in (-1, 0, 1)]
        q = W.rel(a, b)
        if q: return [({'<': -1, '=': 0, '>': 1}[q], st)]
        # presence of one key in the tree the other is the root of is decided first
        for x, y in ((a, b), (b, a)):
            S = owner(x)
            if S in st.node:
                if st.pres_of(S, y) is None:
                    out = []
                    for p in (False, True):
                        def f(t, p=p): t.pres[(S, t.r(y))] = p
                        out += attempt(st, f)
                    raise Fork(out)
        out = []
        for n in (-1, 0, 1):
            def f(t, n=n):
                if n < 0: t.add_lt(a, b)
                elif n > 0: t.add_lt(b, a)
                else:
                    for x, y in ((a, b), (b, a)):
                        if owner(x) in t.node and t.pres_of(owner(x), y) is False: raise Dead()
                    t.add_eq(a, b)
                # consistency of presence facts
                t.pres_check()
                for (S, k), p in list(t.pres.items()):
                    if p and Words(t).tree_rel(S, k) is not None: raise Dead()
                    if p and S in t.node and t.node[S][0] is None:
                        Wt = Words(t)
                        if all(Wt.rel(x, k) in ('<', '>') for x in t.node[S][1::3]): raise Dead()
            out += [(n, t) for t in attempt(st, f)]
        return out
    def valeq(self, st, x, y, neg):
        if x == y: return [(st, B(not neg))]
        if x[0] == 'i' and y[0] == 'i': return [(st, B(self.icmp(st, 'Ne' if neg else 'Eq', x[1], y[1])))]
        if x[0] == 's' and y[0] == 's' and self.keylike(x[2]) and self.keylike(y[2]):
            return [(s, B((n == 0) != neg)) for n, s in self.keycmp(st, x[1], y[1])]
        if x[0] == 'a' and y[0] == 'a' and not x[3] and not y[3]: return [(st, B((x[2] == y[2]) != neg))]
        return [(st, ('s', st.fresh('nd'), self.R.bool_ty))]
    def keylike(self, ty):
        return ty is not None and self.F.tstr(ty) in self.keytypes
    def otherscalar(self, ty):
        """scalars that are neither keys nor values of the containers (predicates, iterators, hashers, ...)"""
        return ty is None or self.F.tstr(ty) not in self.valtypes
    maxdepth = 70; valtypes = frozenset(); consts = {}; unroll = 0; exact = None; strict = False
    def cterm(self, st, v):
        v = self.res(st, v)
        if v[0] == 's': return ('s', v[1])
        return self.deep(st, v)
    def kname(self, st, v):
        v = self.res(st, v)
        if v[0] == 's': return st.r(v[1])
        if v[0] == 'T': st.und = st.und + ('unknown key',); return '?key'
        raise Undecided('key is ' + v[0])
    def ty_of_content(self, v, t):
        if v[0] == 'vec': return v[1]
        return t
    # ------------------------------------------------------------------ symbols
    def mk(self, st, name, ty):
        x = self.F.ty(ty); k = x['k']
        if k in ('int', 'uint'):
            if self.mode == 'seq' and x['s'] == 'i8': return ('nd',)
            v = L.var(name)
            if k == 'uint': st.ge(v)
            return ('i', v)
        if k == 'tuple' and not x['ts']: return UNIT
        return ('s', name, ty)
    def expand(self, st, v):
        """v = ('s', name, ty) without a definition: list of states in which it has one"""
        _, name, ty = v
        x = self.F.ty(ty); k = x['k']; F = self.F
        out = []
        def setd(t, val): t.defs[(name, ty)] = val
        role = self.R.role(ty)
        if role == 'opt':
            def none(t):
                self.set_empty(t, name); setd(t, ('a', ty, 0, ()))
            def some(t):
                self.set_nonempty(t, name); setd(t, ('a', ty, 1, (('s', name, x['v'][1]['f'][0]['t']),)))
            return attempt(st, none) + attempt(st, some)
        if role == 'node':
            return self.R.expand_node(self, st, name, ty)
        if k == 'bool':
            return attempt(st, lambda t: setd(t, B(False))) + attempt(st, lambda t: setd(t, B(True)))
        if F.is_box(ty):
            def f(t): setd(t, ('arc', self.mk(t, name if role else name + '.*', x['args'][0]), False))
            return attempt(st, f)
        if k in ('ref', 'ptr'):
            def f(t):
                c = name + '.*'
                if c not in t.cells: t.cells[c] = self.mk(t, c, x['t'])
                setd(t, ('r', c, ()))
            return attempt(st, f)
        if F.is_vec(ty):
            def f(t):
                n = L.var('len:' + name)
                t.ge(n)
                setd(t, ('vec', ty, (('g', name, L.ZERO, n),)))
            return attempt(st, f)
        if k in ('struct', 'tuple'):
            fs = [(str(i), t) for i, t in enumerate(x['ts'])] if k == 'tuple' else [(f['n'], f['t']) for f in x.get('v', [{'f': []}])[0]['f']]
            if k == 'struct' and 'v' not in x: raise Undecided('opaque ' + x['s'])
            def f(t):
                setd(t, ('a', ty, 0, tuple(self.mk(t, f"{name}.{n}", ft) for n, ft in fs)))
                self.R.struct_invariant(self, t, name, ty)
            return attempt(st, f)
        if k == 'closure':
            def f(t): setd(t, ('a', ty, 0, tuple(self.mk(t, f"{name}.{i}", ft) for i, ft in enumerate(x['ups']))))
            return attempt(st, f)
        if k == 'enum' and 'v' in x:
            for vi, var in enumerate(x['v']):
                def f(t, vi=vi, var=var):
                    setd(t, ('a', ty, vi, tuple(self.mk(t, f"{name}.{var['n']}.{ff['n']}", ff['t']) for ff in var['f'])))
                out += attempt(st, f)
            return out
        raise Undecided('cannot expand ' + x['s'])
    def set_empty(self, st, name):
        if name in st.nonempty: raise Dead()
        if name in st.empty: return
        w = st.wdef.get(name)
        st.empty = st.empty | {name}
        if w is not None and self.mode == 'seq':
            for a in Words(st).nf(w):
                if a[0] == 'e': raise Dead()
                if a[0] == 't': self.set_empty(st, a[1])
                else: st.empty = st.empty | {a}
        for (S, k), v in list(st.pres.items()):
            if S == name and v: raise Dead()
        n = st.node.get(name)
        if n is not None: raise Dead()
        if name in st.parent and st.pres: st.pres_check()
        if self.mode == 'num':
            st.eq0(L.var('h:' + name)); st.eq0(L.var('b:' + name))
        elif getattr(self.R, 'counts', False): st.eq0(L.var('c:' + name))
    def set_nonempty(self, st, name):
        if name in st.empty: raise Dead()
        if name in st.nonempty: return
        st.nonempty = st.nonempty | {name}
        if self.mode == 'seq':
            if getattr(self.R, 'counts', False): st.ge(L.sub(L.var('c:' + name), L.const(1)))
            w = st.wdef.get(name)
            if w is not None:
                nw = Words(st).nf(w)
                if not nw: raise Dead()
                if len(nw) == 1 and nw[0][0] == 't': self.set_nonempty(st, nw[0][1])
        if self.mode == 'num':
            st.ge(L.sub(L.var('h:' + name), L.const(1)))
            st.ge(L.add(L.var('b:' + name), L.const(1))); st.ge(L.sub(L.const(1), L.var('b:' + name)))
    # ------------------------------------------------------------------ values
    def res(self, st, v):
        """follow the definition of a symbol, if any"""
        while v[0] == 's' and (v[1], v[2]) in st.defs: v = st.defs[(v[1], v[2])]
        return v
    def force(self, st, v):
        v = self.res(st, v)
        if v[0] == 's':
            raise Fork(self.expand(st, v))
        return v
    def deep(self, st, v):
        v = self.res(st, v)
        if v[0] == 'a': return ('a', v[1], v[2], tuple(self.deep(st, f) for f in v[3]))
        if v[0] == 'arc': return ('arc', self.deep(st, v[1]), v[2])
        if v[0] == 'i': return ('i', st.lin.norm(v[1]))
        if v[0] == 'vec': return ('vec', v[1], tuple(('e', self.deep(st, s[1])) if s[0] == 'e' else s if s[0] == 'q' else ('g', s[1], st.lin.norm(s[2]), st.lin.norm(s[3])) for s in seqs.resolve(st, v[2])))
        return v
    def get(self, st, cell, path):
        if cell not in st.cells: raise Undecided('read of dead cell ' + str(cell))
        v = st.cells[cell]
        for p in path: v = self.step(st, v, p)
        return v
    def step(self, st, v, p):
        if p[0] == 'f':
            v = self.force(st, v)
            if v[0] == 'a':
                if p[1] >= len(v[3]): raise Undecided('field out of range')
                return v[3][p[1]]
            if v[0] == 'T': return ('T', None)
            raise Undecided(f'field of {v[0]}')
        if p[0] == 'v':
            v = self.force(st, v)
            if v[0] == 'a' and v[2] != p[1]: raise Dead()
            return v
        if p[0] == 'd':
            v = self.force(st, v)
            if v[0] == 'arc': return v[1]
            raise Undecided(f'box deref of {v[0]}')
        if p[0] == 'e':
            return self.vec_get(st, v, p[1])
        if p[0] == 'sl':
            return self.vec_slice(st, v, p[1], p[2])
        if p[0] == 'end':
            v = self.force(st, v); s = seqs.resolve(st, v[2])[-1 if p[1] else 0]
            if s[0] != 'e': raise Undecided('end of a sequence')
            return s[1]
        raise Undecided('path ' + str(p))
    def put(self, st, cell, path, val):
        if str(cell).startswith('cur@') : st.und = st.und + ('write through a generalised cursor',)
        if cell not in st.cells and path: raise Undecided('write to dead cell')
        st.cells[cell] = self._put(st, st.cells.get(cell, ('u',)), path, val)
    def _put(self, st, v, path, val):
        if not path: return val
        p = path[0]
        if v[0] == 'mu' and p[0] == 'f': return self._put(st, v, path[1:], val)
        if p[0] == 'v':
            v = self.force(st, v); return self._put(st, v, path[1:], val)
        if p[0] == 'f':
            v = self.force(st, v)
            if v[0] == 'u':
                raise Undecided('partial init')
            if v[0] != 'a': raise Undecided(f'write field of {v[0]}')
            fs = list(v[3]); fs[p[1]] = self._put(st, fs[p[1]], path[1:], val)
            return ('a', v[1], v[2], tuple(fs))
        if p[0] == 'd':
            v = self.force(st, v)
            if v[0] != 'arc': raise Undecided('write box deref')
            return ('arc', self._put(st, v[1], path[1:], val), v[2])
        if p[0] == 'e':
            return self.vec_put(st, v, p[1], lambda e: self._put(st, e, path[1:], val))
        if p[0] == 'end':
            v = self.force(st, v); segs = list(seqs.resolve(st, v[2])); i = -1 if p[1] else 0
            if segs[i][0] != 'e': raise Undecided('end of a sequence')
            segs[i] = ('e', self._put(st, segs[i][1], path[1:], val))
            return ('vec', v[1], tuple(segs))
        if p[0] == 'sl':
            # write through a subslice: rebuild
            return self.vec_put_slice(st, v, p[1], p[2], lambda sv: self._put(st, sv, path[1:], val))
        raise Undecided('put path ' + str(p))
    # ---- vectors: segment lists
    def seg_len(self, s): return L.const(1) if s[0] == 'e' else L.var('len:' + s[1]) if s[0] == 'q' else L.sub(s[3], s[2])
    def vec_len(self, st, v):
        v = self.force(st, v)
        if v[0] != 'vec': raise Undecided('len of ' + v[0])
        n = L.ZERO
        for s in v[2]: n = L.add(n, self.seg_len(s))
        return n
    def elem_sym(self, st, seg_sym, ty_elem, idx):
        return self.R.elem_value(self, st, seg_sym, ty_elem, idx)
    def vec_split(self, st, v, at):
        """(left segs, right segs) cut at index `at` (Lin); may Fork"""
        v = self.force(st, v)
        if v[0] != 'vec': raise Undecided('split of ' + v[0])
        if st.lin.entails_ge(L.sub(L.const(-1), at)): raise Panic('index out of bounds')
        pos = L.ZERO; left = []
        segs = list(v[2])
        for i, s in enumerate(segs):
            d = L.sub(at, pos)     # remaining offset
            if st.lin.entails_eq(d): return left, segs[i:]
            n = self.seg_len(s)
            e = L.sub(d, n)        # at - (pos+n)
            if st.lin.entails_ge(e):
                left.append(s); pos = L.add(pos, n); continue
            if s[0] == 'e':
                # either at == pos or at >= pos+1
                raise Fork(attempt(st, lambda t: t.ge(L.scale(d, -1))) + attempt(st, lambda t: t.ge(L.sub(d, L.const(1)))))
            if not st.lin.entails_ge(L.sub(d, L.const(1))):
                raise Fork(attempt(st, lambda t: t.ge(L.scale(d, -1))) + attempt(st, lambda t: t.ge(L.sub(d, L.const(1)))))
            if not st.lin.entails_ge(L.sub(L.scale(e, -1), L.const(1))):
                raise Fork(attempt(st, lambda t: t.ge(e)) + attempt(st, lambda t: t.ge(L.sub(L.scale(e, -1), L.const(1)))))
            m = L.add(s[2], d)
            return left + [('g', s[1], s[2], m)], [('g', s[1], m, s[3])] + segs[i + 1:]
        if st.lin.entails_eq(L.sub(at, pos)): return left, []
        d = L.sub(at, pos)
        fs = attempt(st, lambda t: t.eq0(d))
        fs += attempt(st, lambda t: (t.ge(L.sub(d, L.const(1)))))
        if st.lin.entails_ge(L.sub(d, L.const(1))): raise Panic('index out of bounds')
        raise Fork(fs)
    def vec_get(self, st, v, idx):
        v = self.force(st, v)
        l, r = self.vec_split(st, v, idx)
        if not r: raise Panic('index out of bounds')
        s = r[0]
        if s[0] == 'e': return s[1]
        n = self.seg_len(s)
        if not st.lin.entails_ge(L.sub(n, L.const(1))):
            raise Fork(attempt(st, lambda t: t.ge(L.sub(n, L.const(1)))) + attempt(st, lambda t: t.eq0(n)))
        return self.elem_sym(st, s[1], self.F.elem_ty(v[1]), s[2])
    def _take1(self, st, v, idx):
        """(left, elem value, right) around idx"""
        v = self.force(st, v)
        l, r = self.vec_split(st, v, idx)
        r = [s for s in r if not (s[0] == 'g' and st.lin.entails_eq(self.seg_len(s)))]
        if not r: raise Panic('index out of bounds')
        s = r[0]
        if s[0] == 'e': return l, s[1], r[1:]
        n = self.seg_len(s)
        if not st.lin.entails_ge(L.sub(n, L.const(1))):
            raise Fork(attempt(st, lambda t: t.ge(L.sub(n, L.const(1)))) + attempt(st, lambda t: t.eq0(n)))
        e = self.elem_sym(st, s[1], self.F.elem_ty(v[1]), s[2])
        rest = ('g', s[1], L.add(s[2], L.const(1)), s[3])
        return l, e, [rest] + r[1:]
    def norm_segs(self, st, segs):
        out = []
        for s in segs:
            if s[0] == 'g' and st.lin.entails_eq(self.seg_len(s)): continue
            if out and s[0] == 'g' and out[-1][0] == 'g' and out[-1][1] == s[1] and st.lin.entails_eq(L.sub(out[-1][3], s[2])):
                out[-1] = ('g', s[1], out[-1][2], s[3]); continue
            out.append(s)
        return tuple(out)
    def mkvec(self, st, ty, segs): return ('vec', ty, self.norm_segs(st, segs))
    def vec_put(self, st, v, idx, f):
        v = self.force(st, v)
        l, e, r = self._take1(st, v, idx)
        return ('vec', v[1], tuple(l + [('e', f(e))] + r))
    def vec_slice(self, st, v, lo, hi):
        v = self.force(st, v)
        l, r = self.vec_split(st, v, hi)
        v2 = ('vec', v[1], tuple(l))
        a, b = self.vec_split(st, v2, lo)
        return ('vec', v[1], tuple(b))
    def vec_put_slice(self, st, v, lo, hi, f):
        v = self.force(st, v)
        l, r = self.vec_split(st, v, hi)
        a, b = self.vec_split(st, ('vec', v[1], tuple(l)), lo)
        n = f(('vec', v[1], tuple(b)))
        return ('vec', v[1], tuple(a) + tuple(n[2]) + tuple(r))
    # ------------------------------------------------------------------ places
    def place(self, st, fr, p):
        """MIR place -> (cell, path)"""
        cell = (fr, p[0]); path = ()
        for e in p[1]:
            if e == '*':
                v = self.force(st, self.get(st, cell, path))
                if v[0] == 'r': cell, path = v[1], v[2]
                elif v[0] == 'arc': path = path + (('d',),)
                else: raise Undecided('deref of ' + v[0])
            elif e[0] == 'f': path = path + (('f', e[1]),)
            elif e[0] == 'v': path = path + (('v', e[1]),)
            elif e[0] == 'i':
                iv = self.force(st, st.cells[(fr, e[1])])
                path = path + (('e', iv[1]),)
            elif e[0] == 'ci':
                if e[3]:
                    n = self.vec_len(st, self.get(st, cell, path))
                    path = path + (('e', L.sub(n, L.const(e[1]))),)
                else: path = path + (('e', L.const(e[1])),)
            elif e[0] == 'ss':
                n = self.vec_len(st, self.get(st, cell, path))
                hi = L.sub(n, L.const(e[2])) if e[3] else L.const(e[2])
                path = path + (('sl', L.const(e[1]), hi),)
            else: raise Undecided('projection ' + str(e))
        return cell, path
    def read(self, st, fr, p):
        c, pa = self.place(st, fr, p)
        return self.get(st, c, pa)
    def operand(self, st, fr, o):
        if 'cp' in o or 'mv' in o:
            p = o.get('cp') or o.get('mv')
            v = self.read(st, fr, p)
            return v
        if 'const' in o: return self.constant(st, o['const'])
        return B(False)
    def constant(self, st, c):
        t = self.F.ty(c['t']); k = t['k']
        if k == 'fndef': return ('fn', c['t'])
        if 'var' in c: return ('a', c['t'], c['var'], tuple(self.constant(st, f) for f in c['fl']))
        if 'v' in c:
            n = int(c['v'])
            if k == 'bool': return B(n)
            if k in ('int', 'uint'): return I(n)
            if k == 'char': return I(n)
            if k == 'enum':
                for i, var in enumerate(t['v']):
                    if int(var['d']) & 0xff == n & 0xff: return ('a', c['t'], i, ())
            if k == 'struct' and t.get('v'):
                # single-scalar struct
                fs = t['v'][0]['f']
                nz = [i for i, f in enumerate(fs) if self.F.ty(f['t'])['k'] in ('int', 'uint', 'bool', 'struct')]
                if len(nz) == 1 and len(fs) == 1: return ('a', c['t'], 0, (self.constant(st, {'t': fs[0]['t'], 'v': c['v']}),))
            return ('T', c['t'])
        if 'c' in c: return I(c['c'])
        if 'cp' in c:
            if c['cp'] in self.consts: return I(self.consts[c['cp']])
            if c['cp'].lstrip('-').isdigit(): return I(int(c['cp']))
            st.ge(L.sub(L.var('const:' + c['cp']), L.const(1)))
            return ('i', L.var('const:' + c['cp']))
        if 'zst' in c:
            if k == 'struct': return ('a', c['t'], 0, tuple(self.constant(st, {'t': f['t'], 'zst': True}) for f in t.get('v', [{'f': []}])[0]['f']))
            if k == 'enum': return ('a', c['t'], 0, ())
            if k == 'closure': return ('a', c['t'], 0, ())
            if k == 'array': return ('vec', c['t'], ())
            return UNIT
        if 'uneval' in c:
            key = c['uneval']
            if key in self.F.fns:
                rs = self.split(self.run_body(key, [], st))
                if len(rs) == 1: 
                    v = rs[0][1]
                    # promoteds are references into the constant's own frame
                    if v[0] == 'r':
                        st.cells.update({k2: v2 for k2, v2 in rs[0][0].cells.items() if k2 not in st.cells})
                    st.lin = rs[0][0].lin
                    return v
            return ('T', c['t'])
        if 'str' in c or 'mem' in c or 'ptr' in c: return ('T', c['t'])
        return ('T', c['t'])
    # ------------------------------------------------------------------ statements
    def rvalue(self, st, fr, r, span):
        k = r[0]
        if k == 'use':
            v = self.operand(st, fr, r[1])
            if 'cp' in r[1] and v[0] == 'arc':
                # boxes are not Copy: this names the box about to be dereferenced
                c, p = self.place(st, fr, r[1]['cp']); return ('bx', c, p)
            return v
        if k in ('ref', 'reborrow'):
            if r[2][1] == ['*'] and self.res(st, self.get(st, (fr, r[2][0]), ()))[0] == 'T': return ('T', None)
            c, p = self.place(st, fr, r[2])
            return ('r', c, p)
        if k == 'raw':
            c, p = self.place(st, fr, r[2]); return ('r', c, p)
        if k == 'agg':
            kk = r[1]; ops = tuple(self.operand(st, fr, o) for o in r[2])
            if kk['k'] == 'adt':
                if self.F.ty(kk['t'])['k'] == 'union': return ('T', kk['t'])
                return ('a', kk['t'], kk['v'], ops)
            if kk['k'] == 'closure': return ('a', kk['t'], 0, ops)
            if kk['k'] == 'tuple': return ('a', None, 0, ops)
            if kk['k'] == 'array': return ('vec', self.arr_ty(kk['t']), tuple(('e', o) for o in ops))
            raise Undecided('aggregate ' + kk['k'])
        if k == 'discr':
            v = self.force(st, self.read(st, fr, r[1]))
            if v[0] == 'a' and v[1] is not None:
                return I(int(self.F.ty(v[1])['v'][v[2]]['d']))
            if v[0] == 'T': raise Undecided('discriminant of unknown')
            raise Undecided('discriminant of ' + v[0])
        if k == 'cast':
            kind = r[1]
            v = self.operand(st, fr, r[2]) if kind != 'BoxDerefTransmute' else None
            if kind.startswith('IntToInt'):
                v = self.force(st, v)
                if v[0] == 'nd': return v
                if v[0] == 'b': return I(1 if v[1] else 0)
                if v[0] == 'i':
                    tt = self.F.ty(r[3])
                    if tt['k'] == 'uint' and not st.lin.entails_ge(v[1]):
                        return ('wrap', v[1])
                    return v
                if v[0] == 'a': return I(int(self.F.ty(v[1])['v'][v[2]]['d']))
                return ('T', r[3])
            if kind.startswith('PointerCoercion(ReifyFnPointer'): return v
            if kind.startswith('PointerCoercion') or kind.startswith('PtrToPtr'): return v
            if kind == 'BoxDerefTransmute':
                p = r[2].get('cp') or r[2].get('mv')
                c, pa = self.place(st, fr, [p[0], p[1][:-1]])
                b = self.get(st, c, pa)
                if b[0] == 'bx': c, pa = b[1], b[2]
                return ('r', c, pa + (('d',),))
            if kind.startswith('Transmute'):
                if self.F.tstr(r[3]) and v[0] in ('r',): return v
                if v[0] == 'i':
                    if self.F.is_option(r[3]):   # Option<NonZero<_>>: zero is None
                        n = st.lin.norm(v[1])
                        if L.is_const(n): return self.SOME(('i', n)) if n[0] else self.NONE
                        if st.lin.entails_ge(L.sub(n, L.const(1))): return self.SOME(('i', n))
                        raise Undecided('cast ' + kind)
                    return v
            raise Undecided('cast ' + kind)
        if k == 'bin': return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]))
        if k == 'un':
            v = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                v = self.force(st, v)
                if v[0] == 'b': return B(not v[1])
                return ('T', None)
            if r[1] == 'Neg':
                v = self.force(st, v)
                if v[0] == 'i': return ('i', L.scale(v[1], -1))
                if v[0] == 'nd': return v
                return ('T', None)
            if r[1] == 'PtrMetadata':
                v = self.force(st, v)
                if v[0] == 'r': return ('i', self.vec_len(st, self.get(st, v[1], v[2])))
            raise Undecided('unop ' + r[1])
        if k == 'repeat':
            raise Undecided('repeat')
        raise Undecided('rvalue ' + k)
    def arr_ty(self, t):
        # some type index whose elem_ty is t
        for i, x in enumerate(self.F.types):
            if x and x['k'] in ('array', 'slice') and x.get('t') == t: return i
        self.F.types.append({'k': 'slice', 't': t, 's': f'[{self.F.tstr(t)}]'})
        return len(self.F.types) - 1
    def binop(self, st, op, a, b):
        a = self.force(st, a); b = self.force(st, b)
        if a[0] == 'nd' or b[0] == 'nd':
            if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
                r = self.nd_sign(st, op, a, b)
                return B(r) if r is not None else ('s', st.fresh('nd'), self.R.bool_ty)
            q = ('nd',)
            if op.startswith('Add') and self.nonneg(st, a) and self.nonneg(st, b):
                q = ('nd', '+') if self.positive(st, a) or self.positive(st, b) else ('nd', '0')
            return q if 'With' not in op else ('a', None, 0, (q, B(False)))
        if a[0] == 'b' and b[0] == 'b':
            m = {'BitAnd': a[1] and b[1], 'BitOr': a[1] or b[1], 'BitXor': a[1] != b[1], 'Eq': a[1] == b[1], 'Ne': a[1] != b[1],
                 'Lt': a[1] < b[1], 'Le': a[1] <= b[1], 'Gt': a[1] > b[1], 'Ge': a[1] >= b[1]}
            if op in m: return B(m[op])
        if a[0] == 'wrap' or b[0] == 'wrap':
            return self.wrap_cmp(st, op, a, b)
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            if op in ('Add', 'AddUnchecked', 'AddWithOverflow'):
                r = ('i', L.add(x, y))
                return r if 'With' not in op else ('a', None, 0, (r, B(False)))
            if op in ('Sub', 'SubUnchecked', 'SubWithOverflow'):
                r = ('i', L.sub(x, y))
                return r if 'With' not in op else ('a', None, 0, (r, B(False)))
            if op.startswith('Mul'):
                if L.is_const(st.lin.norm(x)): r = ('i', L.scale(y, st.lin.norm(x)[0]))
                elif L.is_const(st.lin.norm(y)): r = ('i', L.scale(x, st.lin.norm(y)[0]))
                else: r = ('T', None)
                return r if 'With' not in op else ('a', None, 0, (r, B(False)))
            if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'): return B(self.icmp(st, op, x, y))
            if op == 'Div':
                y = st.lin.norm(y)
                if L.is_const(y) and y[0] > 0:
                    xn = st.lin.norm(x)
                    if L.is_const(xn): return I(xn[0] // y[0])
                    q = L.var(st.fresh('div'))
                    if st.lin.entails_ge(x):
                        d = L.sub(x, L.scale(q, y[0]))
                        st.ge(q); st.ge(d); st.ge(L.sub(L.const(y[0] - 1), d))
                        return ('i', q)
            if op in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'Rem', 'Div'):
                x = st.lin.norm(x); y = st.lin.norm(y)
                if L.is_const(x) and L.is_const(y):
                    p, q = x[0], y[0]
                    return I({'BitAnd': p & q, 'BitOr': p | q, 'BitXor': p ^ q, 'Shl': p << (q & 63), 'Shr': p >> (q & 63), 'Rem': p % q if q else 0, 'Div': p // q if q else 0}[op])
                return ('T', None)
            if op == 'Cmp':
                raise Undecided('three-way compare')
        if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            if a[0] == 'r' and b[0] == 'r' and op in ('Eq', 'Ne') and a == b: return B(op == 'Eq')
            return ('s', st.fresh('nd'), self.R.bool_ty)
        return ('T', None)
    # heights are not tracked in seq mode, except that a stored height is positive iff the subtree is nonempty
    def nonneg(self, st, v):
        return len(v) > 1 if v[0] == 'nd' else v[0] == 'i' and st.lin.entails_ge(v[1])
    def positive(self, st, v):
        if v[0] == 'nd': return len(v) > 1 and (v[1] == '+' or v[1] in st.nonempty)
        return v[0] == 'i' and st.lin.entails_ge(L.sub(v[1], L.const(1)))
    def nd_sign(self, st, op, a, b):
        """comparison of an untracked height with a constant, where it only tells zero from positive"""
        if a[0] != 'nd':
            a, b = b, a; op = {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}.get(op, op)
        if b[0] != 'i' or len(a) < 2: return None
        c = st.lin.norm(b[1])
        if not L.is_const(c): return None
        c = c[0]
        if c < 0: return {'Lt': False, 'Le': False, 'Gt': True, 'Ge': True, 'Eq': False, 'Ne': True}[op]
        if (op, c) in (('Ge', 0),): return True
        if (op, c) in (('Lt', 0),): return False
        zero = {('Eq', 0): True, ('Le', 0): True, ('Lt', 1): True, ('Ne', 0): False, ('Gt', 0): False, ('Ge', 1): False}.get((op, c))
        if a[1] == '+': return (not zero) if zero is not None else None
        if a[1] == '0': return None
        S = a[1]
        if zero is not None:
            if S in st.nonempty: return not zero
            if self.is_empty(st, S): return zero
            raise Fork(attempt(st, lambda t: self.set_empty(t, S)) + attempt(st, lambda t: self.set_nonempty(t, S)))
        if self.is_empty(st, S): return {'Lt': 0 < c, 'Le': 0 <= c, 'Gt': 0 > c, 'Ge': 0 >= c, 'Eq': 0 == c, 'Ne': 0 != c}[op]
        return None
    def is_empty(self, st, S):
        return S in st.empty or Words(st).nf((('t', S),)) == ()
    def wrap_cmp(self, st, op, a, b):
        """(x as unsigned) <= c: true iff 0<=x<=c"""
        if a[0] == 'wrap' and b[0] == 'i' and op in ('Le', 'Lt', 'Gt', 'Ge'):
            hi = b[1] if op in ('Le', 'Gt') else L.sub(b[1], L.const(1))
            x = a[1]; pos = op in ('Le', 'Lt')
            ge0 = st.lin.entails_ge(x); lehi = st.lin.entails_ge(L.sub(hi, x))
            if ge0 and lehi: return B(pos)
            neg = L.sub(L.scale(x, -1), L.const(1)); big = L.sub(L.sub(x, hi), L.const(1))
            if st.lin.entails_ge(neg) or st.lin.entails_ge(big): return B(not pos)
            def inr(t): t.ge(x); t.ge(L.sub(hi, x))
            raise Fork(attempt(st, inr) + attempt(st, lambda t: t.ge(neg)) + attempt(st, lambda t: t.ge(big)))
        return ('s', st.fresh('nd'), self.R.bool_ty)
    def icmp(self, st, op, x, y):
        d = L.sub(x, y)
        dn = st.lin.norm(d)
        if L.is_const(dn):
            n = dn[0]
            return {'Lt': n < 0, 'Le': n <= 0, 'Gt': n > 0, 'Ge': n >= 0, 'Eq': n == 0, 'Ne': n != 0}[op]
        pos = lambda t: t.ge(L.sub(d, L.const(1)))
        nonneg = lambda t: t.ge(d)
        neg = lambda t: t.ge(L.sub(L.scale(d, -1), L.const(1)))
        nonpos = lambda t: t.ge(L.scale(d, -1))
        if op in ('Lt', 'Ge'):
            if st.lin.entails_ge(d): return op == 'Ge'
            if st.lin.entails_ge(L.sub(L.scale(d, -1), L.const(1))): return op == 'Lt'
            raise Fork(attempt(st, neg) + attempt(st, nonneg))
        if op in ('Gt', 'Le'):
            if st.lin.entails_ge(L.scale(d, -1)): return op == 'Le'
            if st.lin.entails_ge(L.sub(d, L.const(1))): return op == 'Gt'
            raise Fork(attempt(st, pos) + attempt(st, nonpos))
        if st.lin.entails_ge(L.sub(d, L.const(1))) or st.lin.entails_ge(L.sub(L.scale(d, -1), L.const(1))): return op == 'Ne'
        if st.lin.entails_eq(d): return op == 'Eq'
        raise Fork(attempt(st, lambda t: t.eq0(d)) + attempt(st, pos) + attempt(st, neg))
    # ------------------------------------------------------------------ bodies
    def run_body(self, key, args, st):
        """inline analysis of a call: returns list of (state, return value)"""
        f = self.F.fns[key]
        self.analysed.add(key)
        st = st.copy()
        st.n += 1
        fr = st.n if not f.get('isconst') else 'c:' + key
        if len(args) != f['argc'] and len(args):
            # rust-call ABI: last argument is a tuple to spread
            t = self.res(st, args[-1])
            if t[0] == 'a' and len(args) - 1 + len(t[3]) == f['argc']: args = list(args[:-1]) + list(t[3])
        for i, a in enumerate(args): st.cells[(fr, i + 1)] = a
        return self.run_from(key, fr, 0, st)
    def outer_heads(self, f):
        """loop heads whose natural loop contains another loop head"""
        if '_outer' not in f:
            hs = self.heads(f); o = self.F.rpo(f); pred = {}
            for b in o:
                for s in self.F.succs(f, b): pred.setdefault(s, []).append(b)
            res = set()
            for h in hs:
                body = {h}; todo = [b for b in pred.get(h, ()) if b in o and o[b] >= o[h]]
                while todo:
                    b = todo.pop()
                    if b in body: continue
                    body.add(b); todo += [p for p in pred.get(b, ()) if p in o]
                if any(g != h and g in body for g in hs): res.add(h)
            f['_outer'] = res
        return f['_outer']
    def heads(self, f):
        if '_heads' not in f:
            o = self.F.rpo(f)
            f['_heads'] = {s for b in o for s in self.F.succs(f, b) if s in o and o[s] <= o[b]}
        return f['_heads']
    def run_from(self, key, fr, start, st):
        f = self.F.fns[key]
        order = self.F.rpo(f); heads = self.heads(f); outer = self.outer_heads(f)
        if '_npred' not in f:
            n = {}
            for b in order:
                for q in self.F.succs(f, b): n[q] = n.get(q, 0) + 1
            f['_npred'] = n
        npred = f['_npred']
        work = {start: [st]}
        out = []
        self.fnstack.append(key)
        if len(self.fnstack) > self.maxdepth: self.fnstack.pop(); raise Undecided('call depth')
        first = True; visits = {}; size0 = {}
        pending, self.panicked = self.panicked, []
        try:
            while work:
                bb = min(work, key=lambda b: order[b])
                sts = work.pop(bb)
                if len(sts) > 1 and npred.get(bb, 0) > 1: sts = self.distinct(sts)
                if bb in heads and self.unroll:
                    visits[bb] = visits.get(bb, 0) + 1
                    if bb not in size0: size0[bb] = max(len(s.node) for s in sts)
                for s0 in sts:
                    self.drain(f, fr, out)
                    if self.strict and bb in heads and visits[bb] > self.unroll - 12 and not first and self.circling(fr, bb, s0, visits[bb]): self.drain(f, fr, out); continue
                    if bb in heads and not first and not (self.unroll and visits[bb] <= self.unroll and (self.exact or len(s0.node) <= size0[bb] + (bb not in outer))):
                        for s1, rv in self.S.head_call(self, key, fr, bb, s0): self.fin(f, fr, s1, rv, out)
                        continue
                    first = False
                    for (nb, s1) in self.run_block(f, fr, bb, s0):
                        if nb == 'ret':
                            rv = s1.cells.get((fr, 0), UNIT)
                            self.fin(f, fr, s1, rv, out)
                            continue
                        if nb == start and start in heads and not (self.unroll and visits[start] <= self.unroll and (self.exact or len(s1.node) <= size0[start] + (start not in outer))):
                            for s2, rv in self.S.head_call(self, key, fr, nb, s1): self.fin(f, fr, s2, rv, out)
                            continue
                        work.setdefault(nb, []).append(s1)
            self.drain(f, fr, out)
        finally:
            self.fnstack.pop()
            self.panicked = pending
        if len(out) > 1: out = self.distinct(out)
        res = []
        for s in out:
            rv = s.cells.pop('ret')
            res.append((s, rv))
        if len(res) > 20000: raise Fatal('too many outcomes')
        return res
    def circling(self, fr, bb, s, n):
        """a loop of an analysis without loop summaries: the same state again means that it never ends"""
        if n > self.unroll:
            self.lose(Undecided('loop not finished'), self.F.fns[self.fnstack[-1]]); return True
        k = (fr, bb, self.canon(s)); h = s.extra.get(('hd',), ())
        if k in h: self.panicked.append((s, ('panic', 'never returns: loop in ' + self.F.fns[self.fnstack[-1]]['disp']))); return True
        s.extra[('hd',)] = h + (k,)
        return False
    def drain(self, f, fr, out):
        if self.panicked:
            ps, self.panicked = self.panicked, []
            for s, rv in ps: self.fin(f, fr, s, rv, out)
    def fin(self, f, fr, s1, rv, out):
        if not f.get('isconst'):
            for c in [c for c in s1.cells if isinstance(c, tuple) and c[0] == fr]: del s1.cells[c]
        s1.cells['ret'] = rv
        out.append(s1)
    def live_in(self, f):
        """live locals at block entry (drops are not uses: destructors of moved-out values are no-ops here)"""
        lk = '_lived' if 'drop' in self.hooks else '_live'
        if lk in f: return f[lk]
        nb = len(f['blocks']); use = []; de = []
        def pl(p, acc):
            acc.add(p[0])
            for e in p[1]:
                if e != '*' and e[0] == 'i': acc.add(e[1])
        def op(o, acc):
            p = o.get('cp') or o.get('mv')
            if p: pl(p, acc)
        for b in f['blocks']:
            u = set(); d = set()
            def reads(acc):
                for x in acc:
                    if x not in d: u.add(x)
            for s in b['s']:
                if s[0] == '=':
                    acc = set(); r = s[2]
                    if r[0] in ('use',): op(r[1], acc)
                    elif r[0] in ('ref', 'raw', 'reborrow'): pl(r[2], acc)
                    elif r[0] == 'agg':
                        for o in r[2]: op(o, acc)
                    elif r[0] == 'discr': pl(r[1], acc)
                    elif r[0] in ('cast', 'un'): op(r[2], acc)
                    elif r[0] == 'bin': op(r[2], acc); op(r[3], acc)
                    else:
                        def walk(x):
                            if isinstance(x, dict):
                                op(x, acc)
                                for v in x.values(): walk(v)
                            elif isinstance(x, list):
                                if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list): pl(x, acc)
                                for v in x: walk(v)
                        walk(r)
                    if s[1][1]: pl(s[1], acc)
                    reads(acc)
                    if not s[1][1]: d.add(s[1][0])
                elif s[0] == 'sd':
                    acc = set(); pl(s[1], acc); reads(acc)
                elif s[0] in ('live', 'dead'): d.add(s[1])
            t = b['t']; acc = set()
            if t[0] == 'switch': op(t[1], acc)
            elif t[0] == 'assert': op(t[1], acc)
            elif t[0] == 'drop' and lk == '_lived': pl(t[1], acc)
            elif t[0] == 'call':
                for o in t[2]: op(o, acc)
                if 'op' in t[1]: op(t[1]['op'], acc)
                if t[3][1]: pl(t[3], acc)
            elif t[0] == 'ret': acc.add(0)
            reads(acc)
            if t[0] == 'call' and not t[3][1]: d.add(t[3][0])
            use.append(u); de.append(d)
        live = [set() for _ in range(nb)]
        ch = True
        while ch:
            ch = False
            for i in range(nb - 1, -1, -1):
                o = set()
                for s in self.F.succs(f, i): o |= live[s]
                n = use[i] | (o - de[i])
                if n != live[i]: live[i] = n; ch = True
        f[lk] = live
        return live
    def at_bottom(self, st, S):
        """bounded mode: nodes this deep are leaves"""
        if not self.exact: return False
        if len(st.node) >= self.exact[1]: raise Undecided('bound')
        d = 1
        while S in st.parent and d < 50: S = st.parent[S]; d += 1
        return d >= self.exact[0]
    def calls_rec(self, key):
        f = self.F.fns[key]
        if '_crec' not in f: f['_crec'] = any(self.scc.get(k, (0, False))[1] for k in self.F.callees(key))
        return f['_crec']
    def own(self, st, v):
        """is this the only reference to a shared node: None if both are possible"""
        return True if v[2] is True else None
    def distinct(self, sts):
        """states without duplicates, in order; canonical forms are only computed where a cheap comparison does not tell them apart"""
        cheap = []; cnt = {}
        for s in sts:
            sh = []
            for c, v in s.cells.items():
                v = self.res(s, v)
                sh.append((c, v[0], v[2] if v[0] == 'a' else v[1] if v[0] == 'b' else None))
            k = (frozenset(sh), s.ev, frozenset(s.rep.items()), frozenset(s.keep.items()), len(s.order), frozenset(s.und))
            cheap.append(k); cnt[k] = cnt.get(k, 0) + 1
        seen = set(); out = []
        for k, s in zip(cheap, sts):
            if cnt[k] > 1:
                c = self.canon(s)
                if c in seen: continue
                seen.add(c)
            out.append(s)
        return out
    def canon(self, st):
        cells = tuple(sorted(((str(c), self.deep(st, v)) for c, v in st.cells.items()), key=lambda t: t[0]))
        return (cells, st.order, frozenset(st.rep.items()), st.empty, st.nonempty, frozenset(st.pres.items()), frozenset(st.keep.items()),
                frozenset(st.node), frozenset(st.attr.items()), frozenset(st.wdef.items()), frozenset(st.tdef.items()), st.ev, (frozenset(st.lin.eq.items()), st.lin.ge), frozenset(st.und), tuple(sorted(((k, v) for k, v in st.extra.items() if not isinstance(k, tuple)), key=str)))
    def run_block(self, f, fr, bb, st):
        """yields (next block | 'ret', state)"""
        blk = f['blocks'][bb]
        if not self.want_panics and bb not in self.returning(f): return []
        todo = [(st, 0)]; res = []
        while todo:
            s, i = todo.pop(); np = len(self.panicked)
            self.stats['stmts'] += 1
            if self.stats['stmts'] > self.budget: raise Undecided('budget')
            if self.deadline and not self.stats['stmts'] & 127 and time.time() > self.deadline: raise Fatal('deadline')
            if i < len(blk['s']):
                x = blk['s'][i]
                self.cur = x[3] if x[0] in ('=',) else self.cur
                t = s
                try:
                    if x[0] == '=':
                        v = self.rvalue(t, fr, x[2], x[3])
                        c, p = self.place(t, fr, x[1])
                        if p and c not in t.cells:
                            t.cells[c] = self.uninit(f, fr, c)
                        elif p and t.cells[c][0] == 'u': t.cells[c] = self.uninit(f, fr, c)
                        self.put(t, c, p, v)
                    elif x[0] == 'sd':
                        c, p = self.place(t, fr, x[1])
                        v = self.force(t, self.get(t, c, p))
                        self.put(t, c, p, ('a', v[1], x[2], v[3]))
                    elif x[0] == 'dead':
                        c = (fr, x[1])
                        t.cells.pop(c, None)
                    elif x[0] == 'cno': raise Undecided('copy_nonoverlapping')
                    todo.append((t, i + 1))
                except Fork as fk:
                    del self.panicked[np:]
                    todo += [(q, i) for q in fk.states]
                except Dead: pass
                except Panic as e: self.on_panic(s, e.why, f, blk['l'])
                except Undecided as e: self.lose(e, f)
                continue
            self.cur = blk['l']
            try:
                for r in self.terminator(f, fr, blk, s.copy() if blk['t'][0] in ('call', 'switch') else s): res.append(r)
            except Fork as fk:
                del self.panicked[np:]
                todo += [(q, i) for q in fk.states]
            except Dead: pass
            except Panic as e: self.on_panic(s, e.why, f, blk['l'])
            except Undecided as e: self.lose(e, f)
        self.stats['states'] += len(res)
        return res
    def returning(self, f):
        """blocks from which the function can still return"""
        r = f.get('_returning')
        if r is None:
            r = {i for i, b in enumerate(f['blocks']) if b['t'][0] == 'ret'}; n = -1
            while n != len(r):
                n = len(r); r |= {i for i in range(len(f['blocks'])) if i not in r and any(x in r for x in self.F.succs(f, i))}
            f['_returning'] = r
        return r
    def uninit(self, f, fr, c):
        t = f['locals'][c[1]][0]; x = self.F.ty(t)
        if x['k'] == 'tuple': return ('a', None, 0, tuple(('u',) for _ in x['ts']))
        if x['k'] == 'struct': return ('a', t, 0, tuple(('u',) for _ in x['v'][0]['f']))
        return ('u',)
    def lose(self, e, f):
        """a path that leaves what the analysis understands is given up and reported as undecided; the others go on"""
        if isinstance(e, Fatal): raise e
        self.lost.setdefault(e.why, f['path'])
    def on_panic(self, st, why, f, span):
        """a path that ends in a panic; it surfaces as an outcome of every function it unwinds through"""
        if self.want_panics:
            k = next((k for k in reversed(self.fnstack) if self.F.fns[k]['local']), None)
            self.panicked.append((st, ('panic', f"{why} in {self.F.fns[k]['disp'] if k else f['path']}")))
    def terminator(self, f, fr, blk, st):
        t = blk['t']; k = t[0]
        if k == 'goto': return [(t[1], st)]
        if k == 'ret': return [('ret', st)]
        if k in ('unreachable', 'resume', 'abort', 'other'): return []
        if k == 'switch':
            v = self.force(st, self.operand(st, fr, t[1]))
            if v[0] == 'b': n = int(v[1])
            elif v[0] == 'i':
                l = st.lin.norm(v[1])
                if L.is_const(l): n = l[0]
                else:
                    outs = []; rest = [st]
                    for val, b in t[2]:
                        c = L.sub(l, L.const(int(val)))
                        outs += [(b, q) for q in attempt(st, lambda q: q.eq0(c))]
                        nr = []
                        for r in rest:
                            nr += attempt(r, lambda q: q.ge(L.sub(c, L.const(1)))) + attempt(r, lambda q: q.ge(L.sub(L.scale(c, -1), L.const(1))))
                        rest = nr
                    return outs + [(t[3], r) for r in rest]
            elif v[0] == 'T':
                st.und = st.und + ('branch on unknown',)
                return [(b, st.copy()) for b in dict.fromkeys([b for _, b in t[2]] + [t[3]])]
            elif v[0] == 'nd': return [(b, st.copy()) for b in dict.fromkeys([b for _, b in t[2]] + [t[3]])]   # an abstracted number: any branch
            else: raise Undecided('switch on ' + v[0])
            for val, b in t[2]:
                iv = int(val)
                if iv == n or (n < 0 and iv in (n & 0xff, n & 0xffff, n & 0xffffffff, n & (2**64 - 1), n & (2**128 - 1))): return [(b, st)]
            return [(t[3], st)]
        if k == 'drop':
            return self.do_drop(f, fr, t, st)
        if k == 'assert':
            # overflow / bounds / division asserts
            try:
                v = self.force(st, self.operand(st, fr, t[1]))
            except Undecided:
                v = ('T', None)
            if v[0] == 'b':
                if v[1] == t[2]: return [(t[4], st)]
                raise Panic('assert ' + t[3]['k'])
            return [(t[4], st)]
        if k == 'call':
            return self.do_call(f, fr, t, st)
        raise Undecided('terminator ' + k)
    def do_drop(self, f, fr, t, st):
        if 'drop' in self.hooks:
            c, p = self.place(st, fr, t[1])
            if c in st.cells and st.cells[c][0] != 'u': self.hooks['drop'](self, st, self.get(st, c, p), t[4], fr)
        return [(t[2], st)]
    # ------------------------------------------------------------------ calls
    def do_call(self, f, fr, t, st):
        args = [self.operand(st, fr, a) for a in t[2]]
        span = self.cur
        dest = t[3]; nxt = t[4]
        self.curdest = f['locals'][dest[0]][0] if not dest[1] else None
        if 'fn' in t[1]: rs = self.call(t[1]['fn'], args, st)
        else:
            fv = self.force(st, self.operand(st, fr, t[1]['op']))
            if fv[0] == 'fn': rs = self.call(self.F.ty(fv[1])['callee'], args, st)
            elif fv[0] == 'a' and self.F.ty(fv[1])['k'] == 'closure': rs = self.call_closure(fv, ('a', None, 0, tuple(args)), st)
            else: raise Undecided('indirect call')
        outs = []
        dty = f['locals'][dest[0]][0] if not dest[1] else None
        for s, v in rs:
            if nxt is None: continue
            if dty is not None and v[0] == 'a' and v[1] in (self.any_option, self.any_result) and self.F.ty(dty)['k'] == 'enum': v = ('a', dty, v[2], v[3])
            todo = [s]
            while todo:
                q = todo.pop()
                try:
                    q2 = q.copy()
                    c, p = self.place(q2, fr, dest)
                    if p and q2.cells.get(c, ('u',))[0] == 'u': q2.cells[c] = self.uninit(f, fr, c)
                    self.put(q2, c, p, v)
                    outs.append((nxt, q2))
                except Fork as fk: todo += fk.states
                except Dead: pass
        self.cur = span
        return outs
    def call(self, fn, args, st):
        """-> list of (state, value)"""
        self.stats['calls'] += 1
        if fn.get('ctor'):
            # tuple struct / variant constructor used as a function
            return [(st, ('a', fn['out'], fn['variant'], tuple(args)))]
        for name in (fn.get('rdisp'), fn.get('disp')):
            if name in self.models:
                r = self.models[name](self, fn, args, st)
                if r is not NotImplemented: return r
        key = fn.get('key')
        if key in self.F.fns:
            if '#shim:Clone' in key:
                v = self.force(st, args[0]); return [(st, self.get(st, v[1], v[2]))]
            return self.invoke(key, args, st)
        # calls of closures / fn items through Fn traits
        if fn.get('trait', '').startswith('core::ops::function::Fn'):
            return self.call_fn_trait(fn, args, st)
        m = self.trait_default(fn, args, st)
        if m is not None: return m
        raise Undecided('no model for ' + str(fn.get('rdisp') or fn.get('disp')))
    def trait_default(self, fn, args, st): return None
    curdest = None; curfn = None
    def call_fn_trait(self, fn, args, st):
        self.curfn = fn
        f = args[0]
        for _ in range(6):
            f = self.res(st, f)
            if f[0] == 'r':
                f = self.get(st, f[1], f[2])
            else: break
        f = self.res(st, f)
        if f[0] == 'a' and f[1] is not None and self.F.ty(f[1])['k'] == 'closure':
            return self.call_closure(f, args[1], st, selfarg=args[0])
        if f[0] == 'fn':
            tup = self.force(st, args[1])
            return self.call(self.F.ty(f[1])['callee'], list(tup[3]), st)
        if f[0] == 's' and self.F.ty(f[2])['k'] in ('param', 'alias', 'other'):
            return self.user_callback(f, args, st)
        raise Undecided('fn-trait call on ' + str(f[0]))
    def call_closure(self, clo, tup, st, selfarg=None):
        key = self.F.ty(clo[1])['key']
        body = self.F.fns.get(key)
        if body is None: raise Undecided('closure body missing')
        t = self.force(st, tup)
        # self by value or by reference, as the body expects
        want = self.F.ty(body['locals'][1][0])['k']
        if want == 'ref':
            sa = selfarg
            for _ in range(6):
                sv = self.res(st, sa) if sa is not None else None
                if sv is not None and sv[0] == 'r':
                    inner = self.res(st, self.get(st, sv[1], sv[2]))
                    if inner[0] == 'r': sa = inner; continue
                    sa = sv; break
                c = st.fresh('clo'); st.cells[c] = clo; sa = ('r', c, ()); break
            return self.invoke(key, [sa] + list(t[3]), st)
        return self.invoke(key, [clo] + list(t[3]), st)
    def user_callback(self, f, args, st):
        return self.R.user_callback(self, f, args, st)
    def invoke(self, key, args, st):
        if self.exact:
            # bounded mode: recursion is inlined, deeper paths are left out
            if self.fnstack.count(key) > self.exact[0] + 1: raise Undecided('bound')
            return self.split(self.run_body(key, args, st))
        if self.F.fns[key]['local'] and (self.scc.get(key, (0, False))[1] or self.mode == 'num' and self.F.fns[key].get('promoted') is None and self.calls_rec(key)):
            return self.S.fn_call(self, key, args, st)
        if key in self.fnstack[self.fnbase:]: raise Undecided('unexpected recursion ' + key)
        return self.split(self.run_body(key, args, st))
    def split(self, outs):
        ps = [(s, rv) for s, rv in outs if rv[0] == 'panic']
        if not ps: return outs
        if self.want_panics: self.panicked += ps
        return [(s, rv) for s, rv in outs if rv[0] != 'panic']
    # ------------------------------------------------------------------ reports
    def obligation(self, kind, ok, st, detail):
        self.stats['obligations'] += 1
        if ok: self.stats['discharged'] += 1; return
        loc = self.cur; fn = next((k for k in reversed(self.fnstack) if self.F.fns[k]['local']), '?')
        path = self.F.fns[fn]['path'] if fn in self.F.fns else fn
        key = (kind, path)
        if st.und:
            self.und.setdefault(key, (loc, detail, st.und)); return
        if key not in self.viol:
            self.viol[key] = dict(kind=kind, fn=path, loc=loc, detail=detail, chain=[self.F.fns[k].get('disp', k) for k in self.fnstack if self.F.fns[k]['local']])
