"""Flow facts over one function's MIR: where a value comes from, which edges dominate a block."""
UNIQ = {'try_unwrap', 'into_inner', 'get_mut', 'strong_count', 'is_unique'}
RC = ('alloc::rcs::arc::Arc', 'alloc::sync::Arc', 'alloc::rcs::rc::Rc', 'alloc::rc::Rc')

class Mir:
    def __init__(self, F):
        self.F = F; self._d = {}; self._dom = {}
        self.creators = {}
        for k, f in F.fns.items():
            for i, b in enumerate(f['blocks']):
                if b['c']: continue
                for s in b['s']:
                    if s[0] == '=' and s[2][0] == 'agg' and s[2][1]['k'] == 'closure':
                        self.creators.setdefault(F.types[s[2][1]['t']]['key'], []).append((k, i, s))
    def operand_local(self, op):
        for w in ('mv', 'cp'):
            if w in op: return op[w][0]
        return None
    def defs(self, key):
        """local -> list of (kind, payload) definitions"""
        if key in self._d: return self._d[key]
        d = {}
        for i, b in enumerate(self.F.fns[key]['blocks']):
            if b['c']: continue
            for s in b['s']:
                if s[0] == '=': d.setdefault(s[1][0], []).append(('st', s[2], i))
            t = b['t']
            if t[0] == 'call': d.setdefault(t[3][0], []).append(('call', t, i))
        self._d[key] = d
        return d
    def rv_ops(self, r):
        """locals a right-hand side reads"""
        out = []
        if r[0] in ('ref', 'raw'): out.append(r[2][0])
        elif r[0] in ('discr', 'len', 'copyderef'): out.append(r[1][0])
        else:
            def walk(x):
                if isinstance(x, dict):
                    for w in ('mv', 'cp'):
                        if w in x: out.append(x[w][0])
                elif isinstance(x, list):
                    for y in x: walk(y)
            walk(r[1:])
        return out
    def callee(self, t):
        return t[1].get('fn') if t[0] == 'call' else None
    def roots(self, key, local, seen=None, calls=None):
        """parameters the value of a local may derive from; calls collects the calls on the way"""
        f = self.F.fns[key]; n = self.nargs(f); out = set(); seen = set() if seen is None else seen
        st = [local]
        while st:
            l = st.pop()
            if l in seen: continue
            seen.add(l)
            if 1 <= l <= n: out.add(l)
            for k, p, i in self.defs(key).get(l, ()):
                if k == 'st': st += self.rv_ops(p)
                else:
                    if calls is not None: calls.append((p, i))
                    for a in p[2]:
                        x = self.operand_local(a)
                        if x is not None: st.append(x)
        return out
    def nargs(self, f):
        return f['argc']
    def reach_without(self, f, edge):
        """blocks reachable from entry when the edge (a, b) is removed"""
        seen = {0}; st = [0]
        while st:
            v = st.pop()
            for w in self.F.succs(f, v):
                if (v, w) == edge or w in seen: continue
                seen.add(w); st.append(w)
        return seen
    def edges_dominating(self, key, blk):
        """(switch block, chosen value or None for otherwise, target) of every switch edge that all paths to blk cross"""
        ck = (key, blk)
        if ck in self._dom: return self._dom[ck]
        f = self.F.fns[key]; out = []
        for i, b in enumerate(f['blocks']):
            if b['c'] or b['t'][0] != 'switch': continue
            t = b['t']; tg = {}
            for v, x in t[2]: tg.setdefault(x, []).append(v)
            tg.setdefault(t[3], []).append(None)
            for x, vs in tg.items():
                if blk not in self.reach_without(f, (i, x)): out.append((i, vs, x))
        self._dom[ck] = out
        return out
    def switch_place(self, key, blk):
        """the place whose discriminant (or the local whose value) a switch examines"""
        f = self.F.fns[key]; t = f['blocks'][blk]['t']; l = self.operand_local(t[1])
        if l is None: return None
        for k, p, i in self.defs(key).get(l, ()):
            if k == 'st' and p[0] == 'discr': return p[1]
        return [l, []]
