"""Singly linked list nodes: {elem, rest}.  A stack reads from its top; the number of entries is c."""
import lin as L
from absint import attempt, Undecided, I, UNIT

C = lambda n: L.var('c:' + n)
class StackRoles:
    btree = False; counts = True
    def __init__(self, F):
        self.F = F; self.node_adt = None
        self.bool_ty = next(i for i, t in enumerate(F.types) if t and t['k'] == 'bool')
        for i, t in enumerate(F.types):
            if t and t['k'] == 'struct' and t.get('local') and t.get('v'):
                fs = t['v'][0]['f']
                ops = [j for j, f in enumerate(fs) if self._opt_arc_of(f['t']) == t['d']]
                if len(ops) == 1 and len(fs) == 2:
                    self.node_adt = t['d']; self.fr = ops[0]; self.fv = 1 - ops[0]; self.fname = [f['n'] for f in fs]
                    break
    def _opt_arc_of(self, t):
        F = self.F
        if not F.is_option(t): return None
        a = F.ty(t)['args'][0]
        if not F.is_box(a): return None
        return F.adt(F.ty(a)['args'][0])
    def role(self, ty):
        F = self.F; d = F.adt(ty)
        if d is None or self.node_adt is None: return None
        if d == self.node_adt: return 'node'
        if F.is_option(ty): return 'opt' if self.role(F.ty(ty)['args'][0]) == 'arc' else None
        if F.is_box(ty): return 'arc' if F.adt(F.ty(ty)['args'][0]) == self.node_adt else None
        return None
    def expand_node(self, I_, st, S, ty):
        fs = self.F.ty(ty)['v'][0]['f']; R = S + '.r'
        bottom = I_.at_bottom(st, S)
        def f(t):
            I_.set_nonempty(t, S)
            vals = [None, None]
            vals[self.fv] = I_.mk(t, S + '.v', fs[self.fv]['t']); vals[self.fr] = ('s', R, fs[self.fr]['t'])
            t.parent[R] = S
            t.node[S] = (None, '*', I_.cterm(t, vals[self.fv]), R)
            t.ge(C(R)); t.eq0(L.sub(L.sub(C(S), C(R)), L.const(1)))
            if bottom: I_.set_empty(t, R)
            t.defs[(S, ty)] = ('a', ty, 0, tuple(vals))
        return attempt(st, f)
    def struct_invariant(self, I_, st, name, ty):
        h = I_.hooks.get('struct_invariant')
        if h: h(I_, st, name, ty)
    def word(self, I_, st, v, ty):
        v = I_.res(st, v)
        if v[0] == 's': return (('t', v[1]),)
        if v[0] == 'T' or v[0] == 'u': return (('?', 'unknown'),)
        if v[0] == 'arc': return self.word(I_, st, v[1], None)
        if v[0] == 'a':
            r = self.role(v[1])
            if r == 'opt': return () if v[2] == 0 else self.word(I_, st, v[3][0], None)
            if r == 'node': return (('e', '*', I_.cterm(st, v[3][self.fv])),) + self.word(I_, st, v[3][self.fr], None)
        raise Undecided('word of ' + str(v[0]))
    def count(self, I_, st, v):
        v = I_.res(st, v)
        if v[0] == 's': return C(v[1])
        if v[0] == 'arc': return self.count(I_, st, v[1])
        if v[0] == 'a':
            if self.role(v[1]) == 'opt': return L.ZERO if v[2] == 0 else self.count(I_, st, v[3][0])
            return L.add(L.const(1), self.count(I_, st, v[3][self.fr]))
        raise Undecided('count of ' + v[0])
    def fold(self, I_, st, v, ty):
        v = I_.res(st, v)
        while v[0] == 'a' and self.role(v[1]) == 'opt' and v[2] == 1 or v[0] == 'arc':
            v = I_.res(st, v[3][0] if v[0] == 'a' else v[1])
        if v[0] == 's': return v[1]
        w = self.word(I_, st, v, ty)
        for S, d in st.wdef.items():
            if d == w: return S
        for S, n in st.node.items():
            if (('e', n[1], n[2]), ('t', n[3])) == w: return S
        S = st.fresh('f')
        st.wdef[S] = w
        st.eq0(L.sub(C(S), self.count(I_, st, v)))
        if any(a[0] == 'e' for a in w): st.nonempty = st.nonempty | {S}
        I_.stats['folds'] += 1
        return S
    def elem_value(self, I_, st, seg, ty, idx): raise Undecided('segment element')
    def user_callback(self, I_, f, args, st):
        h = I_.hooks.get('callback')
        if h: return h(I_, f, args, st)
        raise Undecided('user callback')
