"""Clients of the collections: operations written in terms of the point operations and iterators.

A collection is an explicit list of entries (symbolic keys and values, every order relation between
the keys explored), of a size fixed per run.  The operations that other properties decide on the real
representation (lookup, insertion, removal, iteration) act on that list by contract; everything above
them is interpreted.  Code that looks into the representation is outside this domain (undecided)."""
import re, time, itertools
import lin as L, seqs
from absint import *

FAM = re.compile(r'^(?:&(?:\'\w+ )?(?:mut )?)?(?:\w+::)*(AvlMap|BTreeMap|Stack)<')
INH = re.compile(r'^(?:\w+::)*(AvlMap|BTreeMap|Stack)::<.*>::(\w+)$')
ASET = re.compile(r'^(?:\w+::)*AvlSet::<.*>::(new_diff|new_intersection|new_union|new_sym_diff)$')
IMP = re.compile(r'^<(?:\w+::)*(AvlMap|BTreeMap|Stack)<.*> as (?:\w+::)*(\w+)>::(\w+)$')
MAPT = re.compile(r'^(?:crate::)?Map::(\w+)$')

class Client(Interp):
    def __init__(self, F, roles, top):
        super().__init__(F, 'seq', roles)
        self.exact = (150, 0, 0); self.strict = True; self.unroll = 150; self.want_panics = True; self.top = top
        self.pcmp_none = (); self.posts = {}
        self.retype = {}; self.R0 = roles
        for k, f in F.fns.items():
            if f.get('name') == 'next' and f['blocks'] and f['argc'] == 1:
                t = F.ty(f['locals'][1][0])
                if t['k'] == 'ref' and f.get('impl_trait', f.get('disp', '')).find('Iterator') >= 0: self.retype[t['t']] = k
    # ---- representation of a collection
    def coll(self, ty):
        """(index of the contents, index of the length, kind) of a collection type"""
        if ty is None: return None
        x = self.F.ty(ty)
        if x['k'] in ('param', 'alias') : return (0, 1, 'map') if ty in self.mapparams else None
        if x['k'] != 'struct' or not x.get('local'): return None
        m = FAM.match(x['s'])
        if not m: return None
        fs = x['v'][0]['f']
        ln = [i for i, f in enumerate(fs) if self.F.ty(f['t'])['k'] == 'uint']; rt = [i for i, f in enumerate(fs) if i not in ln]
        if len(ln) != 1 or len(rt) != 1: raise Undecided('unknown layout of ' + x['s'])
        return rt[0], ln[0], 'stack' if m.group(1) == 'Stack' else 'map'
    mapparams = frozenset()
    def make(self, st, ty, items):
        ci = self.coll(ty)
        if ci is None: raise Undecided('not a collection: ' + self.F.tstr(ty))
        r = [None, None]; r[ci[1]] = ('i', L.const(len(items)))
        r[ci[0]] = ('vec', ('coll', ty), tuple(('e', x) for x in items))
        return ('a', ty, 0, tuple(r))
    def where(self, st, ref):
        """cell, path and value of the collection behind a reference"""
        v = self.res(st, ref); c = p = None
        for _ in range(6):
            if v[0] == 's' and self.F.ty(v[2])['k'] in ('ref', 'ptr'): v = self.force(st, v)
            if v[0] == 'r': c, p = v[1], v[2]; v = self.res(st, self.get(st, c, p))
            else: break
        ci = self.coll(v[1]) if v[0] == 'a' else None
        if ci is None: raise Undecided('not a collection')
        x = self.res(st, v[3][ci[0]])
        if x[0] == 'a' and x[2] == 1 and self.R0.role(x[1]) == 'opt':   # an explicit tree: read as a list of its entries
            c, p, v = ('TREE', c, p), (), self.make(st, v[1], self.items(st, v, ci)); st.cells[c] = v
        return c, p, v, ci
    def items(self, st, v, ci):
        x = self.res(st, v[3][ci[0]])
        if x[0] == 'a' and x[2] == 0 and x[1] is not None and self.F.is_option(x[1]): return []
        if x[0] == 'a' and self.R0.role(x[1]) == 'opt': return self.walk(st, x)
        if x[0] != 'vec' or not isinstance(x[1], tuple): raise Undecided('contents')
        return [s[1] for s in x[2]]
    def store(self, st, c, p, v, ci, items):
        if c and c[0] == 'TREE': raise Undecided('change of an explicit tree')
        st2 = self.make(st, v[1], items)
        self.put(st, c, p, st2)
    # ---- explicit trees
    def walk(self, st, x):
        x = self.res(st, x)
        if x[2] == 0: return []
        R = self.R0; n = self.res(st, x[3][0])
        while n[0] == 'arc': n = self.res(st, n[1])
        f = n[3]
        return self.walk(st, f[R.fl]) + [('a', None, 0, (f[R.fk], f[R.fv]))] + self.walk(st, f[R.fr])
    def tree(self, ty, shape, items):
        """an option of a shared node; shape: None or (left shape, right shape)"""
        if shape is None: return ('a', ty, 0, ())
        R = self.R0; aty = self.F.ty(ty)['args'][0]; nty = self.F.ty(aty)['args'][0]; fs = self.F.ty(nty)['v'][0]['f']
        k = size(shape[0]); v = [None] * len(fs)
        v[R.fk], v[R.fv] = items[k][3]
        v[R.fl] = self.tree(fs[R.fl]['t'], shape[0], items[:k]); v[R.fr] = self.tree(fs[R.fr]['t'], shape[1], items[k + 1:])
        v[R.hl] = ('i', L.const(height(shape[0]))); v[R.hr] = ('i', L.const(height(shape[1])))
        return ('a', ty, 1, (('arc', ('a', nty, 0, tuple(v)), False),))
    def assume_same(self, st, x, y):
        x = self.under(st, x); y = self.under(st, y)
        if x[0] == 's' and y[0] == 's': st.add_eq(st.r(x[1]), st.r(y[1])); return
        if x[0] != y[0] or x[0] == 'a' and (x[2] != y[2] or len(x[3]) != len(y[3])): raise Dead()
        if x[0] == 'a':
            for p, q in zip(x[3], y[3]): self.assume_same(st, p, q)
        elif x[0] == 'i':
            if x != y: raise Dead()
        elif x != y: raise Undecided('same')
    # ---- keys and comparisons
    def keylike(self, ty): return ty is not None and self.F.ty(ty)['k'] in ('param', 'alias')
    def under(self, st, v):
        for _ in range(8):
            v = self.res(st, v)
            if v[0] == 's' and self.F.ty(v[2])['k'] in ('ref', 'ptr'): v = self.force(st, v)
            if v[0] == 'r': v = self.get(st, v[1], v[2])
            elif v[0] == 'arc': v = v[1]
            else: return v
        return v
    def sym(self, st, v):
        v = self.under(st, v)
        if v[0] == 's': return st.r(v[1])
        if v == UNIT or v[0] == 'a' and not v[3]: return '()'
        raise Undecided('element is ' + v[0])
    def keycmp(self, st, a, b):
        a = st.r(a); b = st.r(b)
        if a == b: return [(0, st)]
        if st.lt(a, b): return [(-1, st)]
        if st.lt(b, a): return [(1, st)]
        return [(n, t) for n, f in ((-1, lambda t: t.add_lt(a, b)), (0, lambda t: t.add_eq(a, b)), (1, lambda t: t.add_lt(b, a))) for t in attempt(st, f)]
    def valeq(self, st, x, y, neg):
        if x == y: return [(st, B(not neg))]
        if x[0] == 's' and y[0] == 's' and x[2] == y[2]:
            a, b = st.r(x[1]), st.r(y[1])
            if a == b: return [(st, B(not neg))]
            if st.lt(a, b) or st.lt(b, a) or (a, b) in st.neq or (b, a) in st.neq: return [(st, B(neg))]
            if self.eqonly:
                def ne(t): t.neq = t.neq | {(a, b)}
                return [(t, B(not neg)) for t in attempt(st, lambda t: t.add_eq(a, b))] + [(t, B(neg)) for t in attempt(st, ne)]
            return [(s, B((n == 0) != neg)) for n, s in self.keycmp(st, a, b)]
        return super().valeq(st, x, y, neg)
    eqonly = False
    def find(self, st, items, key):
        """[(state, position, found)] in sorted entries"""
        todo = [(st, 0)]; out = []
        while todo:
            s, i = todo.pop()
            if i == len(items): out.append((s, i, False)); continue
            for n, t in self.keycmp(s, self.sym(s, key), self.sym(s, items[i][3][0])):
                if n > 0: todo.append((t, i + 1))
                else: out.append((t, i, n == 0))
        return out
    # ---- calls
    def call(self, fn, args, st):
        r = self.contract(fn, args, st)
        if r is not None:
            self.stats['calls'] += 1
            return r
        return super().call(fn, args, st)
    def rettype(self, fn):
        k = fn.get('key')
        if k in self.F.fns: return self.F.fns[k]['locals'][0][0]
        return self.curdest
    real = False
    sharing = None
    def own(self, st, v):
        """larger instances fix which nodes are shared with another collection"""
        o = super().own(st, v)
        if o is None and self.sharing is not None:
            n = self.res(st, v[1])
            x = next((self.res(st, f)[1] for f in n[3] if self.res(st, f)[0] == 's'), '') if n[0] == 'a' else ''
            o = (lambda m: m == 0 or m == 2 and sum(map(ord, x)) % 2 == 0)(self.sharing)
        return o
    def samenode(self, st, x, y):
        """larger instances, in which the order of all keys is fixed, also fix which equal subtrees are one and the same"""
        t = st.copy(); n = len(t.order)
        try: self.assume_same(t, x, y)
        except Dead: return [(st, B(False))]
        def root(v):
            v = self.under(st, v)
            return next((root(f) for f in v[3] if self.under(st, f)[0] == 's'), '') if v[0] == 'a' else st.r(v[1]) if v[0] == 's' else ''
        h = sum(map(ord, root(x)))
        same = self.sharing == 1 or self.sharing == 2 and h % 2 == 0 or self.sharing == 3 and h % 3 > 0
        return [(t if same else st, B(same))]
    def contract(self, fn, args, st):
        if self.real:
            if fn.get('name') == 'hash' and (fn.get('trait') or '').endswith('hash::Hash') and fn.get('key') not in self.F.fns: return self.hashcall(fn, args, st)
            return None
        disp = fn.get('rdisp') or fn.get('disp') or ''
        name = fn.get('rname') or fn.get('name') or disp.rsplit('::', 1)[-1]
        m = ASET.match(disp)
        if m and fn.get('key') != self.top:
            return self.setnew(fn, args, st, {'new_diff': (1, 0, 0), 'new_intersection': (0, 1, 0), 'new_union': (1, 1, 1), 'new_sym_diff': (1, 0, 1)}[m.group(1)])
        m = INH.match(disp)
        if m:
            f = getattr(self, ('s_' if m.group(1) == 'Stack' else 'm_') + m.group(2), None)
            if f is not None and fn.get('key') != self.top and self.isc(st, fn, args, m.group(2)): return f(fn, args, st)
            return None
        m = IMP.match(disp)
        if m and m.group(3) in ('into_iter', 'clone') and not disp.startswith('<&'):
            c = self.res(st, args[0])
            if m.group(3) == 'clone' and fn.get('key') != self.top: return [(st, self.where(st, args[0])[2])]
            if m.group(3) == 'into_iter' and c[0] == 'a' and self.coll(c[1]) and fn.get('key') != self.top:
                return [(st, ('vec', self.rettype(fn), tuple(('e', x) for x in self.items(st, c, self.coll(c[1])))))]
            return None
        m = MAPT.match(fn.get('disp') or '')
        if m and fn.get('key') not in self.F.fns:
            f = {'insert_': self.m_insert, 'get_mut_': self.m_get_mut, 'contains_key_': self.m_contains_key}.get(m.group(1))
            if f: return f(fn, args, st)
            if m.group(1) == 'new_': return [(st, self.make(st, self.curdest, []))]
        tr = fn.get('trait') or ''
        if args and ('::iter::' in tr or tr.endswith('IntoIterator')):
            r = self.iterate(fn, name, args, st)
            if r is not None: return r
        if name == 'hash' and tr.endswith('hash::Hash') and fn.get('key') not in self.F.fns: return self.hashcall(fn, args, st)
        if name == 'default' and tr.endswith('default::Default') and fn.get('key') not in self.F.fns and not args and self.curdest is not None:
            if self.F.ty(self.curdest)['k'] in ('param', 'alias'): return [(st, ('s', 'default', self.curdest))]
        if tr.startswith('core::cmp::Partial') or tr == 'core::cmp::Ord':
            r = self.compare(fn, name, args, st)
            if r is not None: return r
        if name == 'zip' and tr.endswith('Iterator') and len(args) == 2:
            a, b = (self.res(st, x) for x in args)
            if a[0] == 'vec' and b[0] == 'vec':
                return [(st, ('vec', self.rettype(fn), tuple(('e', self.pair(x[1], y[1])) for x, y in zip(a[2], b[2]))))]
        return None
    # ---- comparisons of any values
    def compare(self, fn, name, args, st):
        key = fn.get('key')
        if key in self.F.fns and self.F.fns[key].get('local'): return self.invoke(key, args, st) if key != self.top or self.fnstack else None
        if len(args) != 2: return None
        try: x = self.under(st, args[0]); y = self.under(st, args[1])
        except Undecided: return None
        if name in ('eq', 'ne'): return [(s, B(b == (name == 'eq'))) for b, s in self.geq(st, x, y)]
        r = self.gcmp(st, x, y, name != 'cmp')
        if name == 'cmp': return [(s, self.ordv(n)) for n, s in r]
        if name == 'partial_cmp': return [(s, self.NONE if n is None else self.SOME(self.ordv(n))) for n, s in r]
        f = {'lt': lambda n: n is not None and n < 0, 'le': lambda n: n is not None and n <= 0, 'gt': lambda n: n is not None and n > 0, 'ge': lambda n: n is not None and n >= 0}.get(name)
        if f is None: return None
        return [(s, B(f(n))) for n, s in r]
    def geq(self, st, x, y):
        x = self.under(st, x); y = self.under(st, y)
        if x == y: return [(True, st)]
        if x[0] == 's' and y[0] == 's': return [(self.res(s, v)[1], s) for s, v in self.valeq(st, x, y, False)]
        if x[0] == 'a' and y[0] == 'a' and self.plain(x) and self.plain(y):
            if x[2] != y[2]: return [(False, st)]
            todo = [(st, 0)]; out = []
            while todo:
                s, i = todo.pop()
                if i == len(x[3]): out.append((True, s)); continue
                for b, t in self.geq(s, x[3][i], y[3][i]):
                    if b: todo.append((t, i + 1))
                    else: out.append((False, t))
            return out
        if x[0] == 'vec' and y[0] == 'vec' and len(x[2]) != len(y[2]): return [(False, st)]
        return [(n == 0, s) for n, s in self.gcmp(st, x, y, True)]
    def plain(self, x):
        if x[1] is None: return True
        t = self.F.ty(x[1])
        return t['k'] == 'tuple' or self.F.is_option(x[1]) or t['k'] == 'enum' and not t.get('local')
    def gcmp(self, st, x, y, partial):
        x = self.under(st, x); y = self.under(st, y)
        if x == y and x[0] != 's': return [(0, st)]
        if x[0] == 's' and y[0] == 's':
            a, b = st.r(x[1]), st.r(y[1])
            if a == b: return [(0, st)]
            if partial and self.F.tstr(x[2]) in self.pcmp_none and not st.lt(a, b) and not st.lt(b, a):
                inc = st.extra.get('inc', frozenset())
                if (a, b) in inc or (b, a) in inc: return [(None, st)]
                if (a, b) in st.neq or (b, a) in st.neq: return [(None, st)] + self.keycmp(st, a, b)
                s = st.copy(); s.extra['inc'] = inc | {(a, b)}; s.neq = s.neq | {(a, b)}
                return [(None, s)] + self.keycmp(st, a, b)
            return self.keycmp(st, a, b)
        if x[0] == 'a' and y[0] == 'a' and self.plain(x) and self.plain(y):
            if x[2] != y[2]: return [((x[2] > y[2]) - (x[2] < y[2]), st)]
            todo = [(st, 0)]; out = []
            while todo:
                s, i = todo.pop()
                if i == len(x[3]): out.append((0, s)); continue
                for n, t in self.gcmp(s, x[3][i], y[3][i], partial):
                    if n == 0: todo.append((t, i + 1))
                    else: out.append((n, t))
            return out
        if x[0] == 'i' and y[0] == 'i':
            d = st.lin.norm(L.sub(x[1], y[1]))
            if L.is_const(d): return [((d[0] > 0) - (d[0] < 0), st)]
            r = []
            for n, f in ((-1, lambda t: t.ge(L.sub(L.scale(d, -1), L.const(1)))), (0, lambda t: t.eq0(d)), (1, lambda t: t.ge(L.sub(d, L.const(1))))):
                r += [(n, s) for s in attempt(st, f)]
            return r
        if x[0] == 'b' and y[0] == 'b': return [(x[1] - y[1], st)]
        raise Undecided(f'comparison of {x[0]}/{y[0]}')
    def isc(self, st, fn, args, name):
        if name in ('new', 'new_union', 'new_intersect', 'new_diff', 'new_sym_diff', 'new_join'): return True
        return True
    def ref(self, c, p, ci, i, *f): return ('r', c, p + (('f', ci[0]), ('e', L.const(i))) + tuple(('f', x) for x in f))
    # ---- maps
    def m_new(self, fn, args, st):
        return [(st, self.make(st, self.rettype(fn), []))]
    s_new = m_new
    def m_insert(self, fn, args, st):
        c, p, v, ci = self.where(st, args[0]); it = self.items(st, v, ci); out = []
        for s, i, found in self.find(st, it, args[1]):
            s = s.copy(); e = ('a', None, 0, (args[1], args[2]))
            if found: old = it[i][3][1]; self.store(s, c, p, v, ci, it[:i] + [e] + it[i + 1:]); out.append((s, self.SOME(old)))
            else: self.store(s, c, p, v, ci, it[:i] + [e] + it[i:]); out.append((s, self.NONE))
        return out
    def lookup(self, fn, args, st, f):
        c, p, v, ci = self.where(st, args[0]); it = self.items(st, v, ci); out = []
        return [(s, f(c, p, ci, i) if found else self.NONE) for s, i, found in self.find(st, it, args[1])]
    def pair(self, *x): return ('a', None, 0, tuple(x))
    def m_get(self, fn, args, st): return self.lookup(fn, args, st, lambda c, p, ci, i: self.SOME(self.ref(c, p, ci, i, 1)))
    m_get_mut = m_get
    def m_get_key_value(self, fn, args, st): return self.lookup(fn, args, st, lambda c, p, ci, i: self.SOME(self.pair(self.ref(c, p, ci, i, 0), self.ref(c, p, ci, i, 1))))
    def m_contains_key(self, fn, args, st):
        c, p, v, ci = self.where(st, args[0])
        return [(s, B(f)) for s, i, f in self.find(st, self.items(st, v, ci), args[1])]
    def rem(self, fn, args, st, f):
        c, p, v, ci = self.where(st, args[0]); it = self.items(st, v, ci); out = []
        for s, i, found in self.find(st, it, args[1]):
            s = s.copy()
            if found: self.store(s, c, p, v, ci, it[:i] + it[i + 1:]); out.append((s, self.SOME(f(it[i]))))
            else: out.append((s, self.NONE))
        return out
    def m_remove(self, fn, args, st): return self.rem(fn, args, st, lambda e: e[3][1])
    def m_remove_entry(self, fn, args, st): return self.rem(fn, args, st, lambda e: e)
    def m_len(self, fn, args, st):
        c, p, v, ci = self.where(st, args[0]); return [(st, v[3][ci[1]])]
    s_len = m_len
    def m_is_empty(self, fn, args, st):
        c, p, v, ci = self.where(st, args[0]); return [(st, B(not self.items(st, v, ci)))]
    s_is_empty = m_is_empty
    def m_clear(self, fn, args, st):
        c, p, v, ci = self.where(st, args[0]); self.store(st, c, p, v, ci, []); return [(st, UNIT)]
    s_clear = m_clear
    def endkv(self, fn, args, st, last):
        c, p, v, ci = self.where(st, args[0]); it = self.items(st, v, ci)
        if not it: return [(st, self.NONE)]
        i = len(it) - 1 if last else 0
        return [(st, self.SOME(self.pair(self.ref(c, p, ci, i, 0), self.ref(c, p, ci, i, 1))))]
    def m_first_key_value(self, fn, args, st): return self.endkv(fn, args, st, False)
    def m_last_key_value(self, fn, args, st): return self.endkv(fn, args, st, True)
    def popkv(self, fn, args, st, last):
        c, p, v, ci = self.where(st, args[0]); it = self.items(st, v, ci)
        if not it: return [(st, self.NONE)]
        self.store(st, c, p, v, ci, it[:-1] if last else it[1:])
        return [(st, self.SOME(it[-1 if last else 0]))]
    def m_pop_first(self, fn, args, st): return self.popkv(fn, args, st, False)
    def m_pop_last(self, fn, args, st): return self.popkv(fn, args, st, True)
    def m_iter(self, fn, args, st):
        c, p, v, ci = self.where(st, args[0]); it = self.items(st, v, ci)
        return [(st, ('vec', self.rettype(fn), tuple(('e', self.pair(self.ref(c, p, ci, i, 0), self.ref(c, p, ci, i, 1))) for i in range(len(it)))))]
    m_iter_mut = m_iter
    def m_for_each(self, fn, args, st):
        c, p, v, ci = self.where(st, args[0]); it = self.items(st, v, ci); sts = [st]
        f = st.fresh('fe'); 
        for i in range(len(it)):
            nx = []
            for s in sts:
                s = s.copy(); s.cells[f] = args[1]
                e = self.pair(self.ref(c, p, ci, i, 0), self.ref(c, p, ci, i, 1))
                nx += [q for q, _ in self.call_fn_trait(fn, [('r', f, ()), self.pair(e)], s)]
            sts = nx
        return [(s, UNIT) for s in sts]
    def m_append(self, fn, args, st):
        c, p, v, ci = self.where(st, args[0]); d, q, w, cj = self.where(st, args[1])
        sts = [(st, self.items(st, v, ci))]
        for e in self.items(st, w, cj):
            nx = []
            for s, it in sts:
                for t, i, found in self.find(s, it, e[3][0]): nx.append((t.copy(), it[:i] + [e] + it[i + (1 if found else 0):]))
            sts = nx
        out = []
        for s, it in sts:
            self.store(s, c, p, v, ci, it); self.store(s, d, q, w, cj, []); out.append((s, UNIT))
        return out
    def m_split_off(self, fn, args, st):
        c, p, v, ci = self.where(st, args[0]); it = self.items(st, v, ci); out = []
        for s, i, found in self.find(st, it, args[1]):
            s = s.copy(); self.store(s, c, p, v, ci, it[:i]); out.append((s, self.make(s, v[1], it[i:])))
        return out
    def setop(self, args, st, keep):
        a = self.res(st, args[0]); b = self.res(st, args[1]); ci = self.coll(a[1])
        if ci is None: raise Undecided('not a collection')
        sts = [(st, self.items(st, a, ci), self.items(st, b, ci), [])]; out = []
        while sts:
            s, x, y, acc = sts.pop()
            if not x or not y: out.append((s, self.make(s, a[1], acc + (x if keep[0] else []) + (y if keep[2] else [])))); continue
            for n, t in self.keycmp(s, self.sym(s, x[0][3][0]), self.sym(s, y[0][3][0])):
                if n < 0: sts.append((t, x[1:], y, acc + ([x[0]] if keep[0] else [])))
                elif n > 0: sts.append((t, x, y[1:], acc + ([y[0]] if keep[2] else [])))
                else: sts.append((t, x[1:], y[1:], acc + ([y[0]] if keep[1] else [])))
        return out
    def setnew(self, fn, args, st, keep):
        out = []
        for s, r in self.setop([self.res(st, a)[3][0] for a in args], st, keep): out.append((s, ('a', self.res(st, args[0])[1], 0, (r,))))
        return out
    def m_new_diff(self, fn, args, st): return self.setop(args, st, (1, 0, 0))
    def m_new_sym_diff(self, fn, args, st): return self.setop(args, st, (1, 0, 1))
    # ---- stacks
    def s_iter(self, fn, args, st):
        c, p, v, ci = self.where(st, args[0]); it = self.items(st, v, ci)
        return [(st, ('vec', self.rettype(fn), tuple(('e', self.ref(c, p, ci, i)) for i in range(len(it)))))]
    s_iter_mut = s_iter
    def s_push(self, fn, args, st):
        c, p, v, ci = self.where(st, args[0]); it = self.items(st, v, ci); self.store(st, c, p, v, ci, [args[1]] + it); return [(st, UNIT)]
    def s_pop(self, fn, args, st):
        c, p, v, ci = self.where(st, args[0]); it = self.items(st, v, ci)
        if not it: return [(st, self.NONE)]
        self.store(st, c, p, v, ci, it[1:]); return [(st, self.SOME(it[0]))]
    def s_top(self, fn, args, st):
        c, p, v, ci = self.where(st, args[0]); it = self.items(st, v, ci)
        return [(st, self.SOME(self.ref(c, p, ci, 0)) if it else self.NONE)]
    s_top_mut = s_top
    # ---- iterators held as lists
    def iterval(self, st, a):
        """(cell, path, list value) of a receiver"""
        v = self.res(st, a); c = p = None
        for _ in range(6):
            if v[0] == 'r': c, p = v[1], v[2]; v = self.res(st, self.get(st, c, p))
            else: break
        return (c, p, v) if v[0] == 'vec' and not isinstance(v[1], tuple) else None
    def iterate(self, fn, name, args, st):
        x = self.iterval(st, args[0])
        if x is None: return None
        c, p, v = x
        if name == 'into_iter':
            if c is None: return [(st, v)]
            if self.F.ty(v[1])['k'] in ('array', 'slice') or self.F.is_vec(v[1]): return [(st, ('vec', self.curdest, tuple(('e', ('r', c, p + (('e', L.const(i)),))) for i in range(len(v[2])))))]
            return [(st, args[0])] if self.res(st, args[0])[0] == 'r' else None
        if c is None and name not in ('size_hint',):
            return None
        if name in ('next', 'next_back'):
            if not v[2]: return [(st, self.NONE)]
            i = -1 if name == 'next_back' else 0
            self.put(st, c, p, ('vec', v[1], v[2][:-1] if i else v[2][1:]))
            return [(st, self.SOME(v[2][i][1]))]
        if name == 'len': return [(st, I(len(v[2])))]
        if name == 'size_hint':
            n = len(v[2])
            if self.F.ty(v[1])['k'] in ('param', 'alias'):
                return [(st.copy(), self.pair(I(lo), hi)) for lo in sorted({0, n}) for hi in (self.NONE, self.SOME(I(n)))]
            return [(st, self.pair(I(n), self.SOME(I(n))))]
        return None
    def inext(self, st, cell, path, ty):
        """next() of any iterator value stored at a place"""
        x = self.iterval(st, ('r', cell, path))
        if x is not None: return self.iterate({}, 'next', [('r', cell, path)], st)
        v = self.res(st, self.get(st, cell, path))
        k = self.retype.get(v[1] if v[0] == 'a' else None)
        if k is None and v[0] == 'a' and v[1] is not None: k = next((q for t, q in self.retype.items() if self.F.adt(t) and self.F.adt(t) == self.F.adt(v[1])), None)
        if k is None: raise Undecided('no next() for ' + (self.F.tstr(v[1]) if v[0] == 'a' and v[1] is not None else v[0]))
        return self.call(dict(key=k, disp=self.F.fns[k].get('disp'), trait='core::iter::traits::iterator::Iterator', name='next'), [('r', cell, path)], st)
    def hashcall(self, fn, args, st):
        v = self.under(st, args[0])
        if v[0] == 'a' and v != UNIT and (v[1] is None or self.F.ty(v[1])['k'] == 'tuple' or self.F.adt(v[1]) in ('std::option::Option', 'core::option::Option')):
            if v[1] is not None and self.F.ty(v[1])['k'] != 'tuple': st.ev = st.ev + (('v', v[2]),)
            for x in v[3]: self.hashcall(fn, [x], st)
            return [(st, UNIT)]
        if v[0] == 's': st.ev = st.ev + (('h', st.r(v[1])),)
        elif v[0] == 'i': st.ev = st.ev + (('n', str(st.lin.norm(v[1]))),)
        elif v == UNIT: pass
        elif v[0] == 'b': st.ev = st.ev + (('b', v[1]),)
        else: st.ev = st.ev + (('?', v[0]),)
        return [(st, UNIT)]
    # ---- user closures
    def user_callback(self, f, args, st):
        """an arbitrary function: records its arguments; a mutable argument is left with a new value; a boolean is free per call"""
        tup = self.force(st, args[1]); ev = []; name = f[1] if f[0] == 's' else 'f'
        st = st.copy()
        for a in tup[3]:
            q = self.res(st, a)
            for x in (q[3] if q[0] == 'a' and q[1] is None or q[0] == 'a' and self.F.ty(q[1])['k'] == 'tuple' else (q,)):
                u = self.under(st, x)
                ev.append(st.r(u[1]) if u[0] == 's' else str(u[0]))
        tys = [x for x in ((self.curfn or {}).get('args') or []) if isinstance(x, int)]
        tt = self.F.ty(tys[1]) if len(tys) > 1 else {}
        muts = [i for i, t in enumerate(tt.get('ts', ())) if self.F.ty(t)['k'] == 'ref' and self.F.ty(t).get('m')]
        for i in muts:
            a = self.res(st, tup[3][i])
            old = self.under(st, a)
            if a[0] == 'r' and old[0] == 's':
                n = f'{name}({st.r(old[1])})'
                self.put(st, a[1], a[2], ('s', n, old[2]))
        st.ev = st.ev + (('call', name) + tuple(ev),)
        d = self.curdest
        if d is None or d == self.unit_ty() or self.F.tstr(d) == '()': return [(st, UNIT)]
        if self.F.ty(d)['k'] == 'bool':
            out = []
            for b in (True, False):
                kk = (name,) + tuple(ev[:1])
                if st.keep.get(kk, b) != b: continue
                t = st.copy(); t.keep[kk] = b; out.append((t, B(b)))
            return out
        return [(st, ('s', f'{name}({",".join(ev)})', d))]
    def unit_ty(self): return -1

# ------------------------------------------------------------------ building arguments
def size(s): return 0 if s is None else 1 + size(s[0]) + size(s[1])
def height(s): return 0 if s is None else 1 + max(height(s[0]), height(s[1]))
def shapes(n):
    """balanced shapes with n nodes"""
    if n == 0: return [None]
    return [(a, b) for k in range(n) for a in shapes(k) for b in shapes(n - 1 - k) if abs(height(a) - height(b)) <= 1]
def mkitems(I, ty, name, n, sort):
    """entries of an arbitrary collection of this type"""
    x = I.F.ty(ty)
    targs = [a for a in x.get('args', []) if isinstance(a, int)]
    if sort == 'stack': return [('s', f'{name}{i}', targs[0]) for i in range(n)]
    kt, vt = targs[0], targs[1]
    v = lambda i: UNIT if I.F.tstr(vt) == '()' else ('s', f'{name}v{i}', vt)
    return [('a', None, 0, (('s', f'{name}k{i}', kt), v(i))) for i in range(n)]
def build(I, st, ty, name, n, ctx):
    """a symbolic argument: collections and iterators have n elements"""
    F = I.F; x = F.ty(ty); k = x['k']
    if k == 'ref' or k == 'ptr':
        c = ('A', name)
        st.cells[c] = build(I, st, x['t'], name, n, ctx)
        return ('r', c, ())
    if k == 'struct' and x.get('local'):
        ci = I.coll(ty)
        if ci is not None:
            it = mkitems(I, ty, name, n, ci[2])
            if ci[2] == 'map':
                for a, b in zip(it, it[1:]): st.add_lt(a[3][0][1], b[3][0][1])
            v = I.make(st, ty, it)
            if name in ctx.get('shape', {}): v = ('a', ty, 0, tuple(I.tree(x['v'][0]['f'][i]['t'], ctx['shape'][name], it) if i == ci[0] else f for i, f in enumerate(v[3])))
            return v
        return ('a', ty, 0, tuple(build(I, st, f['t'], name if I.coll(f['t']) or F.ty(f['t'])['k'] == 'struct' else f"{name}.{f['n']}", n, ctx) for f in x['v'][0]['f']))
    if ty in ctx.get('seqs', {}):
        e = ctx['seqs'][ty]
        if callable(e): return ('vec', ty, tuple(('e', e(I, st, f'{name}{i}')) for i in range(n)))
        return ('vec', ty, tuple(('e', elem(I, st, e, f'{name}{i}')) for i in range(n)))
    if k == 'array': return ('vec', ty, tuple(('e', elem(I, st, x['t'], f'{name}{i}')) for i in range(n)))
    if F.is_vec(ty): return ('vec', ty, tuple(('e', elem(I, st, F.elem_ty(ty), f'{name}{i}')) for i in range(n)))
    if k in ('param', 'alias'):
        if ty in I.mapparams:
            kt, vt = ctx['kv']
            it = [('a', None, 0, (('s', f'{name}k{i}', kt), ('s', f'{name}v{i}', vt))) for i in range(n)]
            for a, b in zip(it, it[1:]): st.add_lt(a[3][0][1], b[3][0][1])
            return I.make(st, ty, it)
        return ('s', name, ty)
    return I.mk(st, name, ty)
def elem(I, st, ty, name):
    x = I.F.ty(ty)
    if x['k'] == 'tuple' and x['ts']: return ('a', None, 0, tuple(elem(I, st, t, f'{name}.{i}') for i, t in enumerate(x['ts'])))
    if x['k'] == 'ref':
        c = ('E', name); st.cells[c] = elem(I, st, x['t'], name); return ('r', c, ())
    if x['k'] == 'tuple': return UNIT
    return ('s', name, ty)

class C:
    """one outcome"""
    def __init__(self, I, s, rv, res, ctx): self.I = I; self.s = s; self.rv = rv; self.res = res; self.ctx = ctx
    def entry(self, e):
        e = self.I.res(self.s, e)
        if e[0] == 'a' and len(e[3]) == 2: return tuple(self.I.sym(self.s, x) for x in e[3])
        return self.I.sym(self.s, e)
    def contents(self, v):
        """entries of the collection in a value (through references and wrappers), and its length"""
        for _ in range(6):
            v = self.I.res(self.s, v)
            if v[0] == 'r': v = self.I.get(self.s, v[1], v[2])
            elif v[0] == 'a' and not self.I.coll(v[1]):
                q = [f for f in v[3] if self.I.res(self.s, f)[0] in ('a', 'r')]
                if not q: raise Undecided('no collection in result')
                v = q[0]
            elif v[0] == 'a': break
            else: raise Undecided('result is ' + v[0])
        ci = self.I.coll(v[1])
        n = v[3][ci[1]]
        return [self.entry(e) for e in self.I.items(self.s, v, ci)], (self.s.lin.norm(n[1])[0] if n[0] == 'i' and L.is_const(self.s.lin.norm(n[1])) else None)
    def arg(self, name): return self.contents(self.s.cells[('A', name)])
    def keys(self, xs): return [x[0] for x in xs]
    def ren(self, xs):
        r = self.s.r
        return [tuple(r(y) for y in x) if isinstance(x, tuple) else r(x) for x in xs]
    def orig(self, name, n=None):
        """entries of an argument before the call"""
        return self.ren(self.ctx['orig'][name])
    def check(self, what, exp, got):
        self.res.n += 1
        if exp == got: self.res.good += 1; return
        if self.s.und or '?' in str(got): self.res.und.setdefault(what, (exp, got, self.s.und))
        else: self.res.viol.setdefault(what, dict(expected=str(exp), got=str(got), instance=self.facts(), trace=()))
    def facts(self):
        if len(self.s.order) > 400: return dict(initial={k: str(v)[:300] for k, v in self.ctx['orig'].items()}, ranks=str(self.ctx.get('pin', {}).get('ranks'))[:600], equal={k: v for k, v in list(self.s.rep.items())[:20]})
        o = sorted(f'{a}<{b}' for a, b in self.s.order if isinstance(a, str) and isinstance(b, str))
        return dict(initial={k: str(v) for k, v in self.ctx['orig'].items()}, order=o, equal={k: v for k, v in self.s.rep.items()}, choices={str(k): v for k, v in self.s.keep.items()})
    def same(self, a, b):
        a, b = self.s.r(a), self.s.r(b)
        if a == b: return True
        s = self.s
        if s.lt(a, b) or s.lt(b, a) or (a, b) in s.neq or (b, a) in s.neq: return False
        if not self.I.eqonly: return self.cmp(a, b) == 0
        def ne(t): t.neq = t.neq | {(a, b)}
        raise Fork(attempt(s, lambda t: t.add_eq(a, b)) + attempt(s, ne))
    def cmp(self, a, b, partial=False):
        """order of two elements, as established or explored"""
        a, b = self.s.r(a), self.s.r(b)
        inc = self.s.extra.get('inc', frozenset())
        if partial and ((a, b) in inc or (b, a) in inc): return None
        r = self.I.keycmp(self.s, a, b)
        if len(r) != 1: raise Fork([t for _, t in r])
        return r[0][0]
    def bool(self):
        v = self.I.force(self.s, self.rv)
        if v[0] != 'b': raise Undecided('boolean result is ' + v[0])
        return v[1]
    def opt(self, v):
        v = self.I.force(self.s, v)
        if v[0] != 'a': raise Undecided('option result is ' + v[0])
        return v[3][0] if v[2] == 1 else None

class Result:
    def __init__(self): self.n = 0; self.good = 0; self.viol = {}; self.und = {}; self.outs = 0; self.err = None; self.lost = {}

def run(I, key, res, ctx, spec, names, sizes, panics=None, prep=None, start=None):
    """analyse one function on collections of the given sizes"""
    f = I.F.fns[key]; st = start or St(); ctx = dict(ctx, orig={})
    try:
        args = []
        for i in range(f['argc']):
            args.append(build(I, st, f['locals'][i + 1][0], names[i], sizes.get(names[i], 0), ctx))
        c0 = C(I, st, None, res, ctx)
        for nm, a in zip(names, args):
            try: ctx['orig'][nm] = c0.contents(a)[0]
            except Undecided:
                v = I.res(st, a)
                if v[0] == 'vec': ctx['orig'][nm] = [c0.entry(s[1]) for s in v[2]]
        if prep: prep(I, st, args, ctx)
        I.panicked = []; I.lost = {}
        outs = I.S.run_top(key, args, st)
    except Undecided as e:
        res.err = e.why + ' in ' + ' > '.join(I.F.fns[k]['path'].split('::', 1)[-1] for k in I.fnstack[-4:]); I.fnstack.clear(); I.S.stack.clear(); return
    except Panic as e:
        outs = []; I.panicked.append((st, ('panic', e.why)))
    res.lost.update(I.lost)
    for s, w in I.panicked:
        res.n += 1
        if panics and panics(C(I, s, None, res, ctx)): res.good += 1; continue
        cc = C(I, s, None, res, ctx)
        if s.und: res.und.setdefault('completes', ('returns', w[1], s.und))
        else: res.viol.setdefault('completes', dict(expected='returns', got=w[1], instance=cc.facts(), trace=()))
    todo = list(outs); res.outs += len(outs); n = 0
    while todo:
        s, rv = todo.pop(); n += 1
        if n > 50000: res.err = 'too many cases'; return
        sv = (res.n, res.good, dict(res.viol), dict(res.und))
        try: spec(C(I, s.copy(), rv, res, ctx))
        except Fork as fk:
            res.n, res.good, res.viol, res.und = sv; todo += [(q, rv) for q in fk.states]
        except Dead: res.n, res.good, res.viol, res.und = sv
        except Undecided as e: res.n += 1; res.und.setdefault('case', (e.why, None, s.und))
