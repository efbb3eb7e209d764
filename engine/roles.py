"""What the analysed types mean: which types are search trees, how a node's fields read
in order, and the numeric attributes of a tree (height h, entry count c, balance b)."""
import lin as L
from absint import attempt, Dead, Undecided, Fork, I, B, UNIT
from words import Words

class AvlRoles:
    """AVL tree nodes: {key, val, left, right, left_ht, right_ht}"""
    btree = False
    def __init__(self, F):
        self.F = F
        self.node_adt = None
        self.bool_ty = next(i for i, t in enumerate(F.types) if t and t['k'] == 'bool')
        for i, t in enumerate(F.types):
            if t and t['k'] == 'struct' and t.get('local') and t.get('v'):
                fs = t['v'][0]['f']
                ops = [j for j, f in enumerate(fs) if self._opt_arc_of(f['t']) == t['d']]
                if len(ops) == 2:
                    self.node_adt = t['d']
                    self.fname = [f['n'] for f in fs]
                    by = lambda w, dflt: next((j for j in ops if w in fs[j]['n']), dflt)
                    self.fl = by('left', ops[0]); self.fr = by('right', ops[1])
                    hs = [j for j, f in enumerate(fs) if F.ty(f['t'])['s'] == 'i8']
                    self.hl = next((j for j in hs if 'left' in fs[j]['n']), hs[0] if hs else None)
                    self.hr = next((j for j in hs if 'right' in fs[j]['n']), hs[1] if len(hs) > 1 else None)
                    rest = [j for j in range(len(fs)) if j not in ops and j not in hs]
                    if len(rest) != 2 or len(hs) != 2: self.node_adt = None; continue
                    self.fk, self.fv = (rest[0], rest[1])
                    if 'val' in fs[rest[0]]['n'] and 'key' in fs[rest[1]]['n']: self.fk, self.fv = rest[1], rest[0]
                    break
    def _opt_arc_of(self, t):
        F = self.F
        if not F.is_option(t): return None
        a = F.ty(t)['args'][0]
        if not F.is_box(a): return None
        return F.adt(F.ty(a)['args'][0])
    def role(self, ty):
        F = self.F; d = F.adt(ty)
        if d is None: return None
        if d == self.node_adt: return 'node'
        if F.is_option(ty):
            return 'opt' if self.role(F.ty(ty)['args'][0]) == 'arc' else None
        if F.is_box(ty):
            return 'arc' if F.adt(F.ty(ty)['args'][0]) == self.node_adt else None
        return None
    def child_ty(self, nty): return self.F.ty(nty)['v'][0]['f'][self.fl]['t']
    def expand_node(self, I_, st, S, ty):
        F = self.F
        fs = F.ty(ty)['v'][0]['f']
        Ln, Rn = S + '.l', S + '.r'
        def base(t):
            I_.set_nonempty(t, S)
            kt = fs[self.fk]['t']
            vals = [None] * len(fs)
            vals[self.fk] = I_.mk(t, S + '.k', kt); vals[self.fv] = I_.mk(t, S + '.v', fs[self.fv]['t'])
            vals[self.fl] = ('s', Ln, fs[self.fl]['t']); vals[self.fr] = ('s', Rn, fs[self.fr]['t'])
            t.parent[Ln] = S; t.parent[Rn] = S
            return vals
        if I_.mode == 'seq':
            bottom = I_.at_bottom(st, S)
            def f(t):
                vals = base(t)
                if bottom: I_.set_empty(t, Ln); I_.set_empty(t, Rn)
                k = S + '.k'
                vals[self.hl] = ('nd', Ln); vals[self.hr] = ('nd', Rn)
                old = list(t.order)
                t.node[S] = (Ln, k, I_.cterm(t, vals[self.fv]), Rn)
                t.add_lt(('t', Ln), k); t.add_lt(k, ('t', Rn))
                for a, b in old:
                    if a == ('t', S):
                        for u in (('t', Ln), k, ('t', Rn)): t.add_lt(u, b)
                    if b == ('t', S):
                        for u in (('t', Ln), k, ('t', Rn)): t.add_lt(a, u)
                t.defs[(S, ty)] = ('a', ty, 0, tuple(vals))
            return attempt(st, f)
        out = []
        h, c, b = (lambda n: L.var('h:' + n)), (lambda n: L.var('c:' + n)), (lambda n: L.var('b:' + n))
        for bal in (-1, 0, 1):
            def f(t, bal=bal):
                vals = base(t)
                t.eq0(L.sub(b(S), L.const(bal)))
                t.eq0(L.sub(L.sub(h(Rn), h(Ln)), L.const(bal)))
                t.eq0(L.sub(L.sub(h(S), h(Rn if bal >= 0 else Ln)), L.const(1)))
                for n in (Ln, Rn): t.ge(h(n))
                vals[self.hl] = ('i', h(Ln)); vals[self.hr] = ('i', h(Rn))
                t.node[S] = (Ln, S + '.k', None, Rn)
                t.defs[(S, ty)] = ('a', ty, 0, tuple(vals))
            out += attempt(st, f)
        return out
    def struct_invariant(self, I_, st, name, ty):
        h = I_.hooks.get('struct_invariant')
        if h: h(I_, st, name, ty)
    # ---- reading a value as a sequence --------------------------------------
    def word(self, I_, st, v, ty):
        """in-order word of a tree-typed value"""
        v = I_.res(st, v)
        if v[0] == 's': return (('t', v[1]),)
        if v[0] == 'T' or v[0] == 'u': return (('?', 'unknown'),)
        if v[0] == 'arc':
            return self.word(I_, st, v[1], None)
        if v[0] == 'a':
            r = self.role(v[1])
            if r == 'opt':
                if v[2] == 0: return ()
                return self.word(I_, st, v[3][0], None)
            if r == 'node':
                f = v[3]
                k = I_.kname(st, f[self.fk])
                return self.word(I_, st, f[self.fl], None) + (('e', k, I_.cterm(st, f[self.fv])),) + self.word(I_, st, f[self.fr], None)
        raise Undecided('word of ' + str(v[0]))
    def fold(self, I_, st, v, ty):
        """collapse a tree value into one symbol; num mode: obligations on the stored heights and the balance"""
        v = I_.res(st, v)
        while v[0] == 'a' and self.role(v[1]) == 'opt' and v[2] == 1 or v[0] == 'arc':
            v = I_.res(st, v[3][0] if v[0] == 'a' else v[1])
        if v[0] == 's': return v[1]
        if I_.mode == 'seq':
            w = self.word(I_, st, v, ty)
            for S, d in st.wdef.items():
                if d == w: return S
            if v[0] == 'a' and self.role(v[1]) == 'node':
                W = Words(st); kn = I_.kname(st, v[3][self.fk]); wn = None
                for S, n in st.node.items():
                    if st.r(n[1]) != kn: continue
                    if wn is None: wn = W.nf(w)
                    if W.nf(W.node_word(n)) == wn: return S
            S = st.fresh('f')
            st.wdef[S] = w
            if any(a[0] == 'e' for a in w): st.nonempty = st.nonempty | {S}
            I_.stats['folds'] += 1
            return S
        return self.fold_num(I_, st, v)[0]
    def fold_num(self, I_, st, v):
        """-> (symbol); v is a (partially) materialised tree"""
        v = I_.res(st, v)
        if v[0] == 's': return (v[1],)
        if v[0] == 'arc': return self.fold_num(I_, st, v[1])
        if v[0] != 'a': raise Undecided('fold of ' + v[0])
        r = self.role(v[1])
        h, c, b = (lambda n: L.var('h:' + n)), (lambda n: L.var('c:' + n)), (lambda n: L.var('b:' + n))
        if r == 'opt':
            if v[2] == 0:
                S = st.fresh('nil')
                I_.set_empty(st, S)
                return (S,)
            return self.fold_num(I_, st, v[3][0])
        f = v[3]
        for x in (self.hl, self.hr):
            if f[x][0] not in ('i',):
                if I_.res(st, f[x])[0] != 'i': st.und = st.und + ('height field unknown',)
        l, = self.fold_num(I_, st, f[self.fl]); rr, = self.fold_num(I_, st, f[self.fr])
        # which side is taller decides the height: case split
        d = L.sub(h(rr), h(l))
        taller_r = I_.icmp(st, 'Ge', h(rr), h(l))
        S = f"m({l},{rr})"
        if S in st.extra.get('folded', ()): return (S,)
        lh = I_.res(st, f[self.hl]); rh = I_.res(st, f[self.hr])
        if lh[0] == 'i' and rh[0] == 'i':
            I_.obligation('stored-height', st.lin.entails_eq(L.sub(lh[1], h(l))) and st.lin.entails_eq(L.sub(rh[1], h(rr))), st, 'a node\'s stored child heights differ from the heights of its children')
        I_.obligation('avl-balance', st.lin.entails_ge(L.add(d, L.const(1))) and st.lin.entails_ge(L.sub(L.const(1), d)), st, 'subtree heights of a node differ by more than one')
        I_.stats['folds'] += 1
        st.eq0(L.sub(L.sub(h(S), h(rr if taller_r else l)), L.const(1)))
        st.eq0(L.sub(b(S), d))
        st.nonempty = st.nonempty | {S}
        st.extra['folded'] = tuple(sorted(set(st.extra.get('folded', ())) | {S}))
        return (S,)
    def elem_value(self, I_, st, seg, ty, idx):
        raise Undecided('segment element')
    def user_callback(self, I_, f, args, st):
        h = I_.hooks.get('callback')
        if h: return h(I_, f, args, st)
        raise Undecided('user callback')
