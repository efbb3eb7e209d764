"""B-tree nodes: a list of entries and, in branches, one more child than entries.

The number of entries of an expanded node is concrete (the analysis forks over the occupancies the
node can have); its subtrees stay opaque symbols.  Two layouts are understood:
  vec  - Node { Vec<(K, V)>, Vec<Arc<Node>> }
  inl  - Node { InlineVec<K, V, n>, Option<Box<InlineVec<Arc<Node>, (), n+1>>> } with
         InlineVec { [MaybeUninit<K>; n], [MaybeUninit<V>; n], len }
Attributes of a tree symbol S: lin variable h:S (height; a leaf has 1) and
attr[S] = (fewest, most entries in S's own node, shape defect or None); without attr an
in-range non-root node."""
import lin as L
from absint import attempt, Dead, Undecided, Fork, I, B, UNIT
from words import Words

class BtreeRoles:
    btree = True
    def __init__(self, F, layout, mn, mx):
        self.F = F; self.layout = layout; self.MIN = mn; self.MAX = mx
        self.bool_ty = next(i for i, t in enumerate(F.types) if t and t['k'] == 'bool')
        self.node_adt = None
        for i, t in enumerate(F.types):
            if t and t['k'] == 'struct' and t.get('local') and t.get('v') and self._layout(i, t): break
        self.optarc = None
        if self.node_adt is None: raise Undecided('no B-tree node type')
    def _arc_of(self, t):
        F = self.F
        return F.adt(F.ty(t)['args'][0]) if F.is_box(t) and F.ty(t).get('args') else None
    def _inline(self, t):
        """(keys field, vals field, len field, key type, val type, capacity) of an InlineVec-like struct"""
        F = self.F; x = F.ty(t)
        if x['k'] != 'struct' or not x.get('local') or not x.get('v'): return None
        fs = x['v'][0]['f']
        ar = [j for j, f in enumerate(fs) if F.ty(f['t'])['k'] == 'array']
        ln = [j for j, f in enumerate(fs) if F.ty(f['t'])['k'] == 'uint']
        if len(ar) != 2 or len(ln) != 1: return None
        if 'val' in fs[ar[0]]['n'] and 'key' in fs[ar[1]]['n']: ar.reverse()
        def mu(t):
            e = F.ty(F.ty(t)['t'])
            return e['args'][0] if e.get('args') else None
        return ar[0], ar[1], ln[0], mu(fs[ar[0]]['t']), mu(fs[ar[1]]['t'])
    def _layout(self, i, t):
        F = self.F; fs = t['v'][0]['f']; d = t['d']
        fe = fk = None
        for j, f in enumerate(fs):
            x = F.ty(f['t'])
            if self.layout == 'vec' and F.is_vec(f['t']):
                e = F.elem_ty(f['t'])
                if F.ty(e)['k'] == 'tuple' and len(F.ty(e)['ts']) == 2: fe = j
                elif self._arc_of(e) == d: fk = j
            if self.layout == 'inl':
                iv = self._inline(f['t'])
                if iv: fe = j
                if F.is_option(f['t']):
                    b = x['args'][0]
                    if F.is_box(b):
                        iv = self._inline(F.ty(b)['args'][0])
                        if iv and iv[3] is not None and self._arc_of(iv[3]) == d: fk = j
        if fe is None or fk is None or len(fs) != 2: return False
        self.node_adt = d; self.fe = fe; self.fc = fk
        return True
    def role(self, ty):
        F = self.F; d = F.adt(ty)
        if d is None: return None
        if d == self.node_adt: return 'node'
        if F.is_option(ty):
            return 'opt' if self.role(F.ty(ty)['args'][0]) == 'arc' else None
        if F.is_box(ty):
            a = F.ty(ty).get('args')
            return 'arc' if a and F.adt(a[0]) == self.node_adt else None
        return None
    def occ(self, st, S): return st.attr.get(S, (self.MIN, self.MAX, None))
    def occ_class(self, a):
        lo, hi, bad = a
        if bad: return (0, 0, bad)
        return None if lo >= self.MIN and hi <= self.MAX else (lo, hi, None)
    # ------------------------------------------------------------ expansion
    def expand_node(self, I_, st, S, ty):
        F = self.F
        fs = F.ty(ty)['v'][0]['f']
        lo, hi, bad = self.occ(st, S)
        if bad: raise Undecided('expansion of an ill-formed node: ' + bad)
        h = L.var('h:' + S)
        out = []; known = st.node.get(S)
        for leaf in (True,) if I_.at_bottom(st, S) else (True, False):
            for n in range(lo, hi + 1):
                if known is not None and ((known[0] is None) != leaf or n != (len(known) - 1) // 3): continue
                def f(t, n=n, leaf=leaf):
                    I_.set_nonempty(t, S)
                    if n == 0 and leaf and S in t.wdef:
                        for a in Words(t).nf(t.wdef[S]):
                            if a[0] == 'e' or a[0] == 't' and (a[1] in t.parent or self.occ(t, a[1])[0] > 0): raise Dead()
                            t.empty = t.empty | {a[1] if a[0] == 't' else a}
                    if leaf: t.eq0(L.sub(h, L.const(1)))
                    else: t.ge(L.sub(h, L.const(2)))
                    t.pbound = True
                    t.attr[S] = (n, n, None)
                    if self.layout == 'vec':
                        ett = F.elem_ty(fs[self.fe]['t']); kt, vt = F.ty(ett)['ts']
                        ct = F.elem_ty(fs[self.fc]['t'])
                    else:
                        iv = self._inline(fs[self.fe]['t']); kt, vt = iv[3], iv[4]
                        kb = F.ty(fs[self.fc]['t'])['args'][0]; kiv = self._inline(F.ty(kb)['args'][0]); ct = kiv[3]
                    ks = [I_.mk(t, f'{S}.k{i}', kt) for i in range(n)]
                    vs = [I_.mk(t, f'{S}.v{i}', vt) for i in range(n)]
                    cs = [] if leaf else [f'{S}.c{i}' for i in range(n + 1)]
                    kn = [f'{S}.k{i}' for i in range(n)]
                    node = []
                    for i in range(n + 1):
                        node.append(None if leaf else cs[i])
                        if i < n: node += [kn[i], I_.cterm(t, vs[i])]
                    t.node[S] = tuple(node)
                    if n == 0 and cs and S in t.wdef: t.wdef[cs[0]] = t.wdef[S]
                    for c in cs:
                        t.parent[c] = S
                        t.nonempty = t.nonempty | {c}
                        t.eq0(L.add(L.sub(L.var('h:' + c), h), L.const(1)))
                    for a, b in zip(kn, kn[1:]): t.add_lt(a, b)
                    if n: self.bounds(t, S, kn)
                    t.defs[(S, ty)] = self.make(I_, t, ty, ks, vs, [('s', c, ct) for c in cs])
                out += attempt(st, f)
        return out
    def bounds(self, t, S, kn):
        lo = hi = None; C = S; old = list(t.order)
        seen = 0
        while C is not None and seen < 40:
            for a, b in old:
                if a == ('t', C) and isinstance(b, str): t.add_lt(kn[-1], b)
                if b == ('t', C) and isinstance(a, str): t.add_lt(a, kn[0])
            P = t.parent.get(C)
            if P is None: break
            n = t.node[P]; i = n[0::3].index(C) * 3
            if lo is None and i: lo = n[i - 2]; t.add_lt(lo, kn[0])
            if hi is None and i + 1 < len(n): hi = n[i + 1]; t.add_lt(kn[-1], hi)
            C = P; seen += 1
    def make(self, I_, st, ty, ks, vs, kids):
        """node value from lists of keys, values and children"""
        F = self.F; fs = F.ty(ty)['v'][0]['f']; val = [None] * len(fs)
        if self.layout == 'vec':
            val[self.fe] = ('vec', fs[self.fe]['t'], tuple(('e', ('a', None, 0, (k, v))) for k, v in zip(ks, vs)))
            val[self.fc] = ('vec', fs[self.fc]['t'], tuple(('e', c) for c in kids))
        else:
            val[self.fe] = self.inline(fs[self.fe]['t'], ks, vs)
            ot = fs[self.fc]['t']
            if not kids: val[self.fc] = ('a', ot, 0, ())
            else:
                bt = F.ty(ot)['args'][0]
                val[self.fc] = ('a', ot, 1, (('arc', self.inline(F.ty(bt)['args'][0], kids, [UNIT] * len(kids)), True),))
        return ('a', ty, 0, tuple(val))
    def inline(self, t, ks, vs):
        F = self.F; fs = F.ty(t)['v'][0]['f']; fk, fv, fl, kt, vt = self._inline(t)
        cap = F.ty(fs[fk]['t']).get('len')
        if isinstance(cap, dict): cap = cap.get('c')
        if cap is None or isinstance(cap, str) and not cap.isdigit(): raise Undecided('generic capacity')
        cap = int(cap)
        val = [None] * len(fs)
        pad = (('e', ('u',)),) * (cap - len(ks))
        val[fk] = ('vec', fs[fk]['t'], tuple(('e', k) for k in ks) + pad)
        val[fv] = ('vec', fs[fv]['t'], tuple(('e', v) for v in vs) + pad)
        val[fl] = I(len(ks))
        return ('a', t, 0, tuple(val))
    def struct_invariant(self, I_, st, name, ty):
        h = I_.hooks.get('struct_invariant')
        if h: h(I_, st, name, ty)
    # ------------------------------------------------------------ reading
    def parts(self, I_, st, v):
        """(keys, vals, kids) value lists of a node value"""
        f = v[3]
        if self.layout == 'vec':
            e = I_.force(st, f[self.fe]); c = I_.force(st, f[self.fc])
            if e[0] != 'vec' or c[0] != 'vec' or any(s[0] != 'e' for s in e[2] + c[2]): raise Undecided('node lists')
            es = [I_.force(st, s[1]) for s in e[2]]
            if any(x[0] != 'a' for x in es): raise Undecided('entry is ' + str([x[0] for x in es]))
            return [x[3][0] for x in es], [x[3][1] for x in es], [s[1] for s in c[2]]
        ks, vs = self.inline_parts(I_, st, f[self.fe])
        o = I_.force(st, f[self.fc])
        if o[0] != 'a': raise Undecided('kids are ' + o[0])
        if o[2] == 0: return ks, vs, []
        b = I_.force(st, o[3][0])
        kk, _ = self.inline_parts(I_, st, b[1])
        return ks, vs, kk
    def inline_parts(self, I_, st, v):
        v = I_.force(st, v)
        if v[0] != 'a': raise Undecided('inline vector is ' + v[0])
        fk, fv, fl, kt, vt = self._inline(v[1])
        n = I_.force(st, v[3][fl])
        n = st.lin.norm(n[1]) if n[0] == 'i' else None
        if n is None or not L.is_const(n): raise Undecided('inline length')
        n = n[0]
        ka = I_.force(st, v[3][fk]); va = I_.force(st, v[3][fv])
        if ka[0] != 'vec' or va[0] != 'vec': raise Undecided('inline storage')
        g = lambda a: [a[2][i][1] if 0 <= i < len(a[2]) else ('u',) for i in range(n)]
        return g(ka), g(va)
    def word(self, I_, st, v, ty):
        v = I_.res(st, v)
        if v[0] == 's': return (('t', v[1]),)
        if v[0] == 'u': return (('uninit',),)
        if v[0] == 'T': return (('?', 'unknown'),)
        if v[0] == 'arc': return self.word(I_, st, v[1], None)
        if v[0] == 'a':
            r = self.role(v[1])
            if r == 'opt': return () if v[2] == 0 else self.word(I_, st, v[3][0], None)
            if r == 'node':
                ks, vs, cs = self.parts(I_, st, v); w = ()
                for i in range(max(len(ks) + 1, len(cs))):
                    if i < len(cs): w += self.word(I_, st, cs[i], None)
                    if i < len(ks):
                        if I_.res(st, ks[i])[0] == 'u' or I_.res(st, vs[i])[0] == 'u': w += (('uninit',),)
                        else: w += (('e', I_.kname(st, ks[i]), I_.cterm(st, vs[i])),)
                return w
        raise Undecided('word of ' + str(v[0]))
    # ------------------------------------------------------------ folding
    def fold(self, I_, st, v, ty):
        v = I_.res(st, v)
        while v[0] == 'a' and self.role(v[1]) == 'opt' and v[2] == 1 or v[0] == 'arc':
            v = I_.res(st, v[3][0] if v[0] == 'a' else v[1])
        if v[0] == 's': return v[1]
        if v[0] == 'a' and self.role(v[1]) == 'opt':
            S = st.fresh('nil'); I_.set_empty(st, S); return S
        if v[0] != 'a': raise Undecided('fold of ' + v[0])
        ks, vs, cs = self.parts(I_, st, v)
        kids = [self.fold(I_, st, c, None) for c in cs]
        n = len(ks); bad = None
        un = any(I_.res(st, x)[0] == 'u' for x in ks + vs)
        if not un:
            kn = [I_.kname(st, k) for k in ks]
            sig = []
            for i in range(max(n + 1, len(kids))):
                sig.append(kids[i] if i < len(kids) else None)
                if i < n: sig += [kn[i], I_.cterm(st, vs[i])]
            sig = tuple(sig)
            for S, nd in st.node.items():
                if len(nd) == len(sig) and self.occ(st, S)[2] is None and all((st.r(a) if isinstance(a, str) else a) == (st.r(b) if isinstance(b, str) else b) for a, b in zip(nd, sig)): return S
            fk = ('folded', sig)
            if fk in st.extra: return st.extra[fk]
        w = self.word(I_, st, v, ty)
        S = st.fresh('f')
        if un: bad = 'uninitialised entry'
        elif kids and len(kids) != n + 1: bad = f'{n} entries but {len(kids)} children'
        for c in kids:
            lo, hi, b = self.occ(st, c)
            if b: bad = b
            elif lo < self.MIN or hi > self.MAX: bad = bad or f'a child holds {lo}..{hi} entries'
            if c in st.empty: bad = 'empty child'
        if not kids: st.eq0(L.sub(L.var('h:' + S), L.const(1)))
        else:
            h0 = L.var('h:' + kids[0])
            for c in kids[1:]:
                if not st.lin.entails_eq(L.sub(L.var('h:' + c), h0)): bad = 'children of different heights'
            st.eq0(L.sub(L.sub(L.var('h:' + S), h0), L.const(1)))
        st.attr[S] = (n, n, bad)
        st.wdef[S] = w
        st.nonempty = st.nonempty | {S}
        if not un: st.extra[fk] = S
        I_.stats['folds'] += 1
        return S
    def elem_value(self, I_, st, seg, ty, idx):
        raise Undecided('segment element')
    def user_callback(self, I_, f, args, st):
        h = I_.hooks.get('callback')
        if h: return h(I_, f, args, st)
        raise Undecided('user callback')
