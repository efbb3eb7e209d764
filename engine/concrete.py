"""Confirms a word mismatch on a small concrete instance of the abstract state.

Two words that do not normalise to the same word are reported only when some assignment of
concrete sorted sequences to the base trees and concrete integers to the base keys satisfies all
facts of the abstract state and makes the two words evaluate differently.  (Nothing of /repo is
executed: only the abstract words are evaluated.)"""
import random
from words import Mode

class NoModel(Exception): pass

def names_in(x, trees, keys, vals):
    """collect base names mentioned in a word"""
    if isinstance(x, tuple) and x:
        t = x[0]
        if t in ('lt', 'at', 'gt') and len(x) == 3: trees.add(x[1]); keys.add(x[2]); return
        if t in ('t', 'flt', 'map', 'tl', 'hd', 'in', 'ls') and len(x) == 2 and isinstance(x[1], str): trees.add(x[1]); return
        if t == 'e':
            k(x[1], trees, keys, vals); v(x[2], trees, keys, vals); return
        if t == 'F':
            for y in x[2:]:
                if isinstance(y, str): trees.add(y)
                else: names_in(y, trees, keys, vals)
            return
        for y in x: names_in(y, trees, keys, vals)
def k(x, trees, keys, vals):
    if isinstance(x, str): keys.add(x)
    elif isinstance(x, tuple) and x and x[0] == 'tm': term(x[1], trees, keys, vals)
def v(x, trees, keys, vals):
    if isinstance(x, tuple) and x:
        if x[0] == 's': vals.add(x[1])
        elif x[0] == 'tm': term(x[1], trees, keys, vals)
        elif x[0] == 'post': v(x[1], trees, keys, vals)
def term(t, trees, keys, vals):
    if t[0] in ('atv', 'atk'): trees.add(t[1]); keys.add(t[2])
    elif t[0] in ('hdk', 'hdv', 'lsk', 'lsv', 'rtk', 'rtv'):
        if isinstance(t[1], str): trees.add(t[1])
        else: names_in(t[1], trees, keys, vals)
    elif t[0] in ('post', 'val'): v(t[1], trees, keys, vals)

class Model:
    def __init__(self, st, rng):
        self.st = st; self.rng = rng; self.T = {}; self.K = {}; self.V = {}; self.nv = 0; self.busy = set(); self.keepf = {}
    def newv(self):
        if Mode.unit: return ('c', '()')
        self.nv += 1
        return ('v', self.nv)
    def key(self, x):
        if Mode.nokey: return 0
        st = self.st
        if isinstance(x, str):
            x = st.r(x)
            d = st.tdef.get(x)
            if d is not None: return self.term(d)
            if x not in self.K:
                raise NoModel('key ' + x)
            return self.K[x]
        if isinstance(x, tuple) and x[0] == 'tm': return self.term(x[1])
        if isinstance(x, int): return x
        raise NoModel('key ' + str(x))
    def val(self, x):
        if Mode.unit and not (isinstance(x, tuple) and x and x[0] == 'c'): return ('c', '()')
        st = self.st
        if isinstance(x, tuple) and x and x[0] == 's':
            d = st.tdef.get(x[1])
            if d is not None: return self.term(d)
            return self.V.setdefault(x[1], self.newv())
        if isinstance(x, tuple) and x and x[0] == 'tm': return self.term(x[1])
        if isinstance(x, tuple) and x and x[0] == 'post': return ('post', self.val(x[1]))
        return ('c', str(x))
    def term(self, t):
        if t[0] == 'key': return self.key(t[1])
        if t[0] == 'val': return self.val(t[1])
        if t[0] == 'post': return ('post', self.val(t[1]))
        if t[0] in ('rtk', 'rtv'):
            n = self.st.node.get(t[1])
            if n is None or len(n) != 4: raise NoModel('root')
            return self.key(n[1]) if t[0] == 'rtk' else self.val(n[2])
        w = self.tree(t[1]) if isinstance(t[1], str) else self.word(t[1])
        if t[0] in ('atv', 'atk'):
            kk = self.key(t[2])
            for a, b in w:
                if a == kk: return a if t[0] == 'atk' else b
            raise NoModel('absent')
        if not w: raise NoModel('empty end')
        e = w[0] if t[0][0] == 'h' else w[-1]
        return e[0 if t[0][2] == 'k' else 1]
    def tree(self, S):
        st = self.st
        if S in st.empty: return []
        if S in self.T: return self.T[S]
        if S in self.busy: raise NoModel('cycle')
        self.busy.add(S)
        try:
            w = st.wdef.get(S)
            n = st.node.get(S)
            if w is not None: r = self.word(w)
            elif n is not None: r = self.node(n)
            else: raise NoModel('tree ' + str(S))
        finally: self.busy.discard(S)
        self.T[S] = r
        return r
    def node(self, n):
        r = []
        for i in range(0, len(n), 3):
            if n[i] is not None: r = r + self.tree(n[i])
            if i + 1 < len(n): r = r + [(self.key(n[i + 1]), self.val(n[i + 2]))]
        return r
    def keepp(self, e):
        """the user's predicate: a function of the key"""
        return self.keepf.setdefault(e[0], self.rng.random() < 0.5)
    def word(self, w):
        out = []
        for a in w:
            t = a[0]
            if t == 'e': out.append((self.key(a[1]), self.val(a[2])))
            elif t == 't': out += self.tree(a[1])
            elif t in ('lt', 'at', 'gt'):
                S = self.tree(a[1]); kk = self.key(a[2])
                out += [e for e in S if (e[0] < kk if t == 'lt' else e[0] == kk if t == 'at' else e[0] > kk)]
            elif t in ('hd', 'tl', 'ls', 'in'):
                S = self.tree(a[1]) if isinstance(a[1], str) else self.word(a[1])
                if not S: raise NoModel('end of empty')
                out += S[:1] if t == 'hd' else S[1:] if t == 'tl' else S[-1:] if t == 'ls' else S[:-1]
            elif t == 'F':
                onl, onr, both = a[1]
                S = self.tree(a[2]) if isinstance(a[2], str) else self.word(a[2])
                T = self.tree(a[3]) if isinstance(a[3], str) else self.word(a[3])
                out += merge(S, T, onl, onr, both)
            elif t == 'flt':
                S = self.tree(a[1]) if isinstance(a[1], str) else self.word((a[1],))
                out += [(e[0], ('post', e[1])) for e in S if self.keepp(e)]
            elif t == 'map':
                S = self.tree(a[1]) if isinstance(a[1], str) else self.word((a[1],))
                out += [(e[0], ('post', e[1])) for e in S]
            elif t == 'flt1':
                e = (self.key(a[1][1]), self.val(a[1][2]))
                if self.keepp(e): out.append((e[0], ('post', e[1])))
            elif t == 'uninit': out.append(('uninitialised', None))
            else: raise NoModel('atom ' + str(t))
        return out

def merge(S, T, onl, onr, both):
    d = {}
    sk = dict(S); tk = dict(T)
    for x in sorted(set(sk) | set(tk)):
        if x in sk and x in tk:
            if both == 'l': d[x] = sk[x]
            elif both == 'r': d[x] = tk[x]
        elif x in sk:
            if onl: d[x] = sk[x]
        elif onr: d[x] = tk[x]
    return sorted(d.items())

def sample(st, extra, rng, tries=60):
    """yield models of the state's facts"""
    trees = set(); keys = set(); vals = set()
    for x in extra: names_in(x, trees, keys, vals)
    for w in st.wdef.values(): names_in(w, trees, keys, vals)
    for n in st.node.values():
        trees |= {c for c in n[0::3] if c is not None}; keys |= set(n[1::3])
        for x in n[2::3]: v(x, trees, keys, vals)
    trees |= set(st.node)
    for (S, kk) in st.pres: trees.add(S); keys.add(kk)
    for a, b in st.order:
        for x in (a, b):
            if isinstance(x, tuple): trees.add(x[1])
            else: keys.add(x)
    for t in st.tdef.values(): term(t, trees, keys, vals)
    trees = {t for t in trees if isinstance(t, str)}
    keys = {st.r(x) for x in keys}
    bt = sorted(t for t in trees if t not in st.wdef and t not in st.node and t not in st.empty)
    bk = sorted(x for x in keys if x not in st.tdef)
    items = [('t', t) for t in bt] + bk
    # strict order among base items, derived trees propagate to their leaves
    def leaves(S, seen=()):
        if S in seen: return []
        if S in st.node:
            n = st.node[S]
            out = []
            for i in range(0, len(n), 3):
                if n[i] is not None: out += leaves(n[i], seen + (S,))
                if i + 1 < len(n): out.append(st.r(n[i + 1]))
            return out
        if S in st.empty: return []
        return [('t', S)]
    pre = {i: set() for i in items}
    for a, b in st.order:
        la = leaves(a[1]) if isinstance(a, tuple) else [st.r(a)]
        lb = leaves(b[1]) if isinstance(b, tuple) else [st.r(b)]
        for x in la:
            for y in lb:
                if x in pre and y in pre and x != y: pre[y].add(x)
    for S, n in st.node.items():
        ls = leaves(S)
        for x, y in zip(ls, ls[1:]):
            if x in pre and y in pre and x != y: pre[y].add(x)
        if len(n) == 4 and n[0] is not None:
            for x in leaves(n[0]):
                if x in pre and st.r(n[1]) in pre: pre[st.r(n[1])].add(x)
            for y in leaves(n[3]):
                if y in pre and st.r(n[1]) in pre: pre[y].add(st.r(n[1]))
    for _ in range(tries):
        m = Model(st, rng)
        hi = {}; done = []; left = set(items); pos = {}
        ok = True
        while left:
            ready = sorted((i for i in left if not (pre[i] & left)), key=str)
            if not ready: ok = False; break
            i = rng.choice(ready)
            left.discard(i)
            lo = max([hi[p] for p in pre[i]] + [0])
            if isinstance(i, tuple):
                n = rng.choice((0, 1, 1, 2, 3)) if i[1] not in st.nonempty else rng.choice((1, 1, 2, 3))
                cur = lo; es = []
                for _ in range(n):
                    cur += rng.choice((1, 2, 3)); es.append((0 if Mode.nokey else cur, m.newv()))
                m.T[i[1]] = es; hi[i] = cur
            else:
                # mostly hit an existing key when presence demands it
                m.K[i] = lo + rng.choice((1, 1, 2, 3)); hi[i] = m.K[i]
        if not ok: continue
        # presence: force membership in base trees
        for (S, kk), p in st.pres.items():
            ls = [x[1] for x in leaves(S) if isinstance(x, tuple)] if S not in st.wdef else []
            kk = st.r(kk)
            if kk not in m.K: continue
            if S not in st.wdef and kk in [x for x in leaves(S) if isinstance(x, str)]: continue
            x = m.K[kk]
            if p and ls and not any(e[0] == x for l in ls for e in m.T.get(l, [])):
                l = rng.choice(ls)
                if l in m.T:
                    m.T[l] = sorted(m.T[l] + [(x, m.newv())])
            if p is False:
                for l in ls:
                    if l in m.T: m.T[l] = [e for e in m.T[l] if e[0] != x]
        try:
            if check(m, st): yield m
        except NoModel: continue

def check(m, st):
    for x in st.nonempty:
        if isinstance(x, str):
            try:
                if not m.tree(x): return False
            except NoModel: 
                continue
    for x in st.empty:
        if isinstance(x, tuple) and m.word((x,)): return False
        if isinstance(x, str) and x in st.wdef and m.word(st.wdef[x]): return False
    for a, b in st.order:
        la = [e[0] for e in m.tree(a[1])] if isinstance(a, tuple) else [m.key(a)]
        lb = [e[0] for e in m.tree(b[1])] if isinstance(b, tuple) else [m.key(b)]
        if la and lb and not max(la) < min(lb): return False
    for a, b in st.neq:
        if m.key(a) == m.key(b): return False
    for (S, kk), p in st.pres.items():
        if any(e[0] == m.key(kk) for e in m.tree(S)) != p: return False
    for S in st.node:
        w = [e[0] for e in m.tree(S)]
        if not Mode.nokey and any(x >= y for x, y in zip(w, w[1:])): return False
        if S in st.wdef:
            n = st.node[S]
            if m.word(st.wdef[S]) != m.node(n): return False
    for kk, b in st.keep.items():
        if isinstance(kk, str): m.keepf[m.key(kk)] = b
    return True

def refute(st, w1, w2, show=(), seed=7, want=40):
    """a concrete instance on which the words differ, or None"""
    rng = random.Random(seed)
    n = 0
    try:
        for m in sample(st, (w1, w2), rng, tries=600):
            n += 1
            try: a = m.word(w1); b = m.word(w2)
            except NoModel: continue
            if a != b: return dict(expected=a, got=b, where={s: m.tree(s) for s in show if s in m.T or s in st.node or s in st.wdef or s in st.empty}, keys={x: y for x, y in m.K.items() if '.' not in x and '#' not in x})
            if n > want: break
    except RecursionError: return None
    return None
def rooted(st, v):
    """is this the entry at the root of a tree of which only the contents are known"""
    n = st.r(v) if isinstance(v, str) else v[1] if isinstance(v, tuple) and v and v[0] == 's' else None
    if n is None or n in st.tdef: return False
    return any(S in st.wdef and (n in map(st.r, t[1::3]) or any(isinstance(x, tuple) and x[:1] == ('s',) and x[1] == n for x in t[2::3])) for S, t in st.node.items())
def refute_term(st, v1, v2, iskey=False, show=(), seed=7):
    if rooted(st, v1) or rooted(st, v2): return None   # which entry that is depends on the shape
    rng = random.Random(seed)
    extra = (('e', v1 if iskey else '__', v2 if not iskey else UNIT_), ('e', '__', v1 if not iskey else UNIT_))
    n = 0
    ex = [('e', v1, UNIT_), ('e', v2, UNIT_)] if iskey else [('e', 0, v1), ('e', 0, v2)]
    for m in sample(st, ex, rng, tries=600):
        n += 1
        try:
            a = m.key(v1) if iskey else m.val(v1); b = m.key(v2) if iskey else m.val(v2)
        except NoModel: continue
        if a != b: return dict(expected=a, got=b, where={s: m.tree(s) for s in show if s in m.T or s in st.node or s in st.wdef or s in st.empty}, keys={x: y for x, y in m.K.items() if '.' not in x and '#' not in x})
        if n > 40: break
    return None
UNIT_ = ('a', None, 0, ())
