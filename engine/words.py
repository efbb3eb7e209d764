"""Sequence algebra: in-order contents of symbolic search trees as words over atoms.

A word is a tuple of atoms
   ('e', key, val)        one entry (key, val: canonical terms)
   ('t', S)               the in-order contents of the opaque tree S
   ('lt',S,k) ('at',S,k) ('gt',S,k)   the part of S strictly below / equal to / above key k
   ('hd',S) ('tl',S) ('ls',S) ('in',S)  first entry / rest, last entry / all but last
   ('F',pol,S,T)          pointwise merge of S and T under policy `pol`
   ('flt',S)              the entries of S kept by the user's predicate, with the value it left behind
   ('map',S)              the entries of S with the value the user's closure left behind
   ('run',X,p,q)          interleaved positions p..q of B-tree node X (2j = child j, 2j+1 = entry j)
Equality of words is decided by normalising both sides with the facts of the state
(materialisations of trees, order facts between keys and trees, word definitions of symbols
returned by summaries); the normal form is unique in the free monoid over unexpanded atoms.
"""
import lin as L

class Mode:
    unit = False     # the containers analysed are sets: every value is ()
    nokey = False    # only the values of the entries are compared
UNITV = ('a', None, 0, ())

class Words:
    def __init__(self, st, depth=0):
        self.st = st; self.fuel = 4000; self.busy = 0; self.inpat = False
    # ---- order queries -------------------------------------------------------
    def rel(self, a, b):
        st = self.st
        if isinstance(a, tuple) or isinstance(b, tuple):
            return '=' if a == b else None
        a = st.r(a); b = st.r(b)
        if a == b: return '='
        if (a, b) in st.order: return '<'
        if (b, a) in st.order: return '>'
        return None
    def tree_rel(self, S, k, depth=0):
        """'<' all of S below k, '>' all above, '0' empty, None unknown"""
        st = self.st; k = st.r(k)
        if S in st.empty: return '0'
        if (('t', S), k) in st.order: return '<'
        if (k, ('t', S)) in st.order: return '>'
        w = self.struct(S)
        if w is not None:
            rs = [self.atom_rel(a, k) for a in w]
            rs = [r for r in rs if r != '0']
            if not rs: return '0'
            if rs[-1] == '<': return '<'
            if rs[0] == '>': return '>'
        P = st.parent.get(S)
        if P is not None and st.pbound and depth < 40:
            # bounded by the neighbouring separators of its parent node
            n = st.node[P]; i = n[0::3].index(S) * 3
            if i and self.rel(self.key(n[i - 2]), k) in ('>', '='): return '>'
            if i + 1 < len(n) and self.rel(self.key(n[i + 1]), k) in ('<', '='): return '<'
            r = self.up_rel(P, k, depth + 1)
            if r in ('<', '>'): return r
        return None
    def up_rel(self, S, k, depth):
        """relation of all of S to k, looking only at recorded facts and at ancestors"""
        st = self.st
        if (('t', S), k) in st.order: return '<'
        if (k, ('t', S)) in st.order: return '>'
        P = st.parent.get(S)
        if P is not None and depth < 40:
            n = st.node[P]; i = n[0::3].index(S) * 3
            if i and self.rel(self.key(n[i - 2]), k) in ('>', '='): return '>'
            if i + 1 < len(n) and self.rel(self.key(n[i + 1]), k) in ('<', '='): return '<'
            return self.up_rel(P, k, depth + 1)
        return None
    def atom_rel(self, a, k):
        st = self.st
        t = a[0]
        if a in st.empty: return '0'
        if t == 'e': return self.rel(self.key(a[1]), self.key(k))
        if t == 't': return self.tree_rel(a[1], k)
        if t in ('lt', 'at', 'gt'):
            r = self.tree_rel(a[1], k)
            if r in ('<', '>', '0'): return r
            q = self.rel(a[2], k)
            if t == 'lt' and q in ('<', '='): return '<'
            if t == 'gt' and q in ('>', '='): return '>'
            return None
        if t in ('tl', 'in', 'hd', 'ls', 'flt', 'map') and isinstance(a[1], str): return self.tree_rel(a[1], k)
        if t == 'F':
            r1 = self.tree_rel(a[2], k); r2 = self.tree_rel(a[3], k)
            if r1 == '0': return r2
            if r2 == '0' or r1 == r2: return r1
            return None
        if t == 'run': return None
        return None
    def words_lt(self, ws, wt):
        """every entry of ws is below every entry of wt (normal forms)"""
        st = self.st
        if not ws or not wt: return False
        ks = None
        for a in ws[-1:]:
            for b in wt[:1]:
                if a[0] == 'e' and not isinstance(a[1], tuple):
                    if self.atom_rel(b, a[1]) == '>': continue
                    return False
                if b[0] == 'e' and not isinstance(b[1], tuple):
                    if self.atom_rel(a, b[1]) == '<': continue
                    return False
                x = ('t', a[1]) if a[0] in ('t', 'lt', 'at', 'gt', 'flt') else None; y = ('t', b[1]) if b[0] in ('t', 'lt', 'at', 'gt', 'flt') else None
                if x and y and (x, y) in st.order: continue
                if ks is None: ks = {q for p in st.order for q in p if isinstance(q, str)}
                if any(self.atom_rel(a, k) == '<' and self.atom_rel(b, k) == '>' for k in ks): continue
                return False
        return True
    # ---- structure -----------------------------------------------------------
    def struct(self, S):
        """one-step definition of S as a word, or None"""
        st = self.st
        if S in st.empty: return ()
        w = st.wdef.get(S)
        if w is not None: return w
        n = st.node.get(S)
        if n is not None: return self.node_word(n)
        return None
    def node_word(self, n):
        if len(n) == 4 and n[0] is not None: return (('t', n[0]), ('e', n[1], n[2]), ('t', n[3]))
        out = []
        for i in range(0, len(n), 3):
            if n[i] is not None: out.append(('t', n[i]))
            if i + 1 < len(n): out.append(('e', n[i + 1], n[i + 2]))
        return tuple(out)
    def cut(self, w, k):
        """(lt, at, gt) words of the sorted word w at key k, or None when undetermined"""
        rs = [self.atom_rel(a, k) for a in w]
        n = len(w)
        lo = 0
        for i in range(n):
            if rs[i] == '<': lo = i + 1
        hi = n
        for i in range(n - 1, -1, -1):
            if rs[i] == '>': hi = i
        if lo > hi: return None
        eq = [i for i in range(n) if rs[i] == '=']
        if eq:
            i = eq[0]
            return (w[:i], (w[i],), w[i + 1:])
        mid = [a for a, r in zip(w[lo:hi], rs[lo:hi]) if r != '0']
        if not mid: return (w[:lo], (), w[hi:])
        if len(mid) == 1 and mid[0][0] == 't':
            S = mid[0][1]
            sw = self.struct(S)
            if sw is not None:
                c = self.cut(sw, k)
                if c is not None: return (w[:lo] + c[0], c[1], c[2] + w[hi:])
                return None
            return (w[:lo] + (('lt', S, k),), (('at', S, k),), (('gt', S, k),) + w[hi:])
        if len(mid) == 1 and mid[0][0] == 'F':
            _, pol, S, T = mid[0]
            return None
        return None
    # ---- normal form ---------------------------------------------------------
    def nf(self, w):
        if not self.busy: self.fuel = 4000
        self.busy += 1
        try: return self.nf1(w)
        finally: self.busy -= 1
    def nf1(self, w):
        out = []
        for a in w: self.ex(a, out)
        if any(not isinstance(x, str) for x in self.st.empty): out = [a for a in out if a not in self.st.empty]
        return self.collapse(out)
    def ex(self, a, out):
        self.fuel -= 1
        if self.fuel < 0: out.append(a); return
        st = self.st; t = a[0]
        if a in st.empty: return
        if t == 'e':
            out.append(('e', '*' if Mode.nokey else self.key(a[1]), self.val(a[2]))); return
        if t == 't':
            w = self.struct(a[1])
            if w is None: out.append(a)
            else:
                for b in w: self.ex(b, out)
            return
        if t in ('lt', 'at', 'gt'):
            _, S, k = a
            k = st.r(k)
            if S in st.empty: return
            c = self.cut((('t', S),), k)
            i = ('lt', 'at', 'gt').index(t)
            if c is None: out.append((t, S, k)); return
            for b in c[i]:
                if b[0] == t and b[1] == S:
                    if t == 'at':
                        p = st.pres_of(S, k)
                        if p is True: out.append(('e', self.key(k), self.val(('tm', ('atv', S, k)))))
                        elif p is None: out.append(b)
                    else: out.append((t, S, k))
                elif b[0] == 'at' and t == 'at':
                    p = st.pres_of(b[1], k)
                    if p is True: out.append(('e', self.key(k), self.val(('tm', ('atv', b[1], k)))))
                    elif p is None: out.append(b)
                else: self.ex(b, out)
            return
        if t in ('hd', 'tl', 'ls', 'in'):
            w = self.nf((('t', a[1]),) if isinstance(a[1], str) else a[1])
            self.ends(t, w, a, out)
            return
        if t == 'flt':
            w = self.nf((('t', a[1]),))
            for b in w:
                if b[0] == 't': out.append(('flt', b[1]))
                elif b[0] == 'e':
                    kp = st.keep.get(b[1])
                    if kp is None: out.append(('flt1', b))
                    elif kp: out.append(('e', b[1], self.val(('post', b[2]))))
                else: out.append(('flt', b))
            return
        if t == 'map':
            for b in self.nf((('t', a[1]),)):
                if b[0] == 't': out.append(('map', b[1]))
                elif b[0] == 'e': out.append(('e', b[1], self.val(('post', b[2]))))
                else: out.append(('map', b))
            return
        if t == 'F':
            self.exF(a, out); return
        out.append(a)
    def ends(self, t, w, a, out):
        if t in ('tl', 'hd'):
            if not w: out.append(('bad',)); return
            h = w[0]
            if h[0] == 'e':
                if t == 'hd': out.append(h)
                else: out.extend(w[1:])
                return
            if h[0] == 't' and ('t', h[1]) in self.st.nonempty or (h[0] == 't' and h[1] in self.st.nonempty):
                if t == 'hd': out.append(('e', ('tm', ('hdk', h[1])), self.val0(('tm', ('hdv', h[1])))))
                else: out.append(('tl', h[1])); out.extend(w[1:])
                return
            out.append((t, w)); return
        if not w: out.append(('bad',)); return
        h = w[-1]
        if h[0] == 'e':
            if t == 'ls': out.append(h)
            else: out.extend(w[:-1])
            return
        if h[0] == 't' and h[1] in self.st.nonempty:
            if t == 'ls': out.append(('e', ('tm', ('lsk', h[1])), self.val0(('tm', ('lsv', h[1])))))
            else: out.extend(w[:-1]); out.append(('in', h[1]))
            return
        out.append((t, w))
    def exF(self, a, out):
        _, pol, S, T = a
        onl, onr, both = pol
        st = self.st
        ws = self.nf((('t', S),)); wt = self.nf((('t', T),))
        self.exFw(pol, ws, wt, out)
    def exFw(self, pol, ws, wt, out):
        onl, onr, both = pol
        st = self.st
        if not ws:
            if onr: out.extend(wt)
            return
        if not wt:
            if onl: out.extend(ws)
            return
        # cut at a known entry of the left, else of the right operand
        for i, x in enumerate(ws):
            if x[0] == 'e' and not isinstance(x[1], tuple):
                c = self.cut(wt, x[1])
                if c is None: continue
                at = self.nf(c[1])
                if any(b[0] == 'at' for b in at): continue
                self.exFw(pol, ws[:i], self.nf(c[0]), out)
                if at:
                    if both == 'l': out.append(x)
                    elif both == 'r': out.append(('e', x[1], at[0][2]))
                elif onl: out.append(x)
                self.exFw(pol, ws[i + 1:], self.nf(c[2]), out)
                return
        for i, x in enumerate(wt):
            if x[0] == 'e' and not isinstance(x[1], tuple):
                c = self.cut(ws, x[1])
                if c is None: continue
                at = self.nf(c[1])
                if any(b[0] == 'at' for b in at): continue
                self.exFw(pol, self.nf(c[0]), wt[:i], out)
                if at:
                    if both == 'r': out.append(x)
                    elif both == 'l': out.append(('e', x[1], at[0][2]))
                elif onr: out.append(x)
                self.exFw(pol, self.nf(c[2]), wt[i + 1:], out)
                return
        out.append(('F', pol, tuple(ws), tuple(wt)))
    def key(self, k):
        st = self.st
        if isinstance(k, tuple):
            if k[0] == 'tm': return self.term(k)
            return k
        k = st.r(k)
        d = st.tdef.get(k)
        if d is not None: return self.term(('tm', d))
        return k
    def val0(self, v): return UNITV if Mode.unit else v
    def val(self, v):
        if Mode.unit: return UNITV
        if isinstance(v, tuple) and v and v[0] == 'tm': return self.term(v)
        if isinstance(v, tuple) and v and v[0] == 'post': return ('post', self.val(v[1]))
        if isinstance(v, tuple) and len(v) == 3 and v[0] == 's':
            d = self.st.tdef.get(v[1])
            if d is not None: return self.term(('tm', d))
            return ('s', v[1])
        if isinstance(v, tuple) and len(v) == 2 and v[0] == 's':
            d = self.st.tdef.get(v[1])
            if d is not None: return self.term(('tm', d))
        return v
    def term(self, tm):
        """normalise ('tm',(f,S[,k]))"""
        f = tm[1][0]; st = self.st
        if f in ('atv', 'atk'):
            _, S, k = tm[1]
            k = st.r(k)
            if f == 'atk': return self.key(k)
            c = self.cut((('t', S),), k)
            if c is None: return ('tm', (f, S, k))
            at = c[1]
            if len(at) == 1 and at[0][0] == 'e': return self.val(at[0][2])
            if len(at) == 1 and at[0][0] == 'at': return ('tm', (f, at[0][1], k))
            return ('tm', (f, S, k))
        if f in ('hdk', 'hdv', 'lsk', 'lsv'):
            out = []
            self.ends('hd' if f[0] == 'h' else 'ls', self.nf((('t', tm[1][1]),) if isinstance(tm[1][1], str) else tm[1][1]), None, out)
            if len(out) == 1 and out[0][0] == 'e': return out[0][1 if f[2] == 'k' else 2]
            if len(out) == 1 and out[0][0] in ('hd', 'ls') and out[0][1]: return ('tm', (f, tuple(out[0][1])))
            return ('tm', (f, tm[1][1]))
        if f in ('rtk', 'rtv'):
            n = st.node.get(tm[1][1])
            if n is not None and len(n) == 4 and n[0] is not None: return self.key(n[1]) if f == 'rtk' else self.val(n[2])
            return tm
        if f == 'post': return ('post', self.val(tm[1][1]))
        if f == 'val': return self.val(tm[1][1])
        return tm
    def collapse(self, w):
        """undo splits of trees that are not materialised on this path"""
        st = self.st
        w = list(w); ch = True
        while ch:
            ch = False
            i = 0
            while i < len(w):
                a = w[i]
                if a[0] == 'lt':
                    S, k = a[1], a[2]
                    p = st.pres_of(S, k)
                    if p is False and i + 1 < len(w) and w[i + 1] == ('gt', S, k):
                        w[i:i + 2] = [('t', S)]; ch = True; continue
                    if p is True and i + 2 < len(w) and w[i + 2] == ('gt', S, k) and w[i + 1] == ('e', self.key(k), self.val0(('tm', ('atv', S, k)))):
                        w[i:i + 3] = [('t', S)]; ch = True; continue
                    if p is None and i + 2 < len(w) and w[i + 1] == ('at', S, k) and w[i + 2] == ('gt', S, k):
                        w[i:i + 3] = [('t', S)]; ch = True; continue
                if a[0] == 'e' and isinstance(a[1], tuple) and a[1][0] == 'tm' and a[1][1][0] in ('hdk', 'lsk') and (Mode.unit or isinstance(a[2], tuple) and a[2][0] == 'tm' and a[2][1][1] == a[1][1][1]):
                    X = a[1][1][1]; whole = [('t', X)] if isinstance(X, str) else list(X)
                    if a[1][1][0] == 'hdk' and (Mode.unit or a[2][1][0] == 'hdv'):
                        if i + 1 < len(w) and w[i + 1] == ('tl', X): w[i:i + 2] = whole; ch = True; continue
                        if ('tl', X) in st.empty: w[i:i + 1] = whole; ch = True; continue
                    if a[1][1][0] == 'lsk' and (Mode.unit or a[2][1][0] == 'lsv'):
                        if i > 0 and w[i - 1] == ('in', X): w[i - 1:i + 1] = whole; ch = True; continue
                        if ('in', X) in st.empty: w[i:i + 1] = whole; ch = True; continue
                i += 1
            # symbols that have both a word definition and a materialised shape
            if self.inpat: break
            for S, n in st.node.items():
                d = st.wdef.get(S)
                if d is None or len(n) == 1: continue
                pat = []
                self.inpat = True
                for b in self.node_word(n): self.ex(b, pat)
                self.inpat = False
                m = len(pat)
                if m and m <= len(w):
                    for i in range(len(w) - m + 1):
                        if w[i:i + m] == pat:
                            rep = []
                            self.inpat = True
                            for b in d: self.ex(b, rep)
                            self.inpat = False
                            if rep != pat:
                                w[i:i + m] = rep; ch = True
                            break
            if self.fuel < 0: break
        return tuple(w)
    def eq(self, a, b):
        return self.nf(a) == self.nf(b)

def subst_atom(a, tm, km, vm):
    """rename tree names (tm), key names (km), values (vm: function on values) in an atom"""
    t = a[0]
    if t == 'e': return ('e', subst_key(a[1], tm, km, vm), subst_val(a[2], tm, km, vm))
    if t == 't': return ('t', tm(a[1]))
    if t in ('lt', 'at', 'gt'): return (t, tm(a[1]), km(a[2]))
    if t in ('hd', 'tl', 'ls', 'in', 'flt', 'map') and isinstance(a[1], str): return (t, tm(a[1]))
    if t == 'F': return ('F', a[1], tm(a[2]), tm(a[3]))
    return a
def subst_key(k, tm, km, vm):
    if isinstance(k, tuple):
        if k[0] == 'tm': return ('tm', subst_term(k[1], tm, km, vm))
        return k
    return km(k)
def subst_val(v, tm, km, vm):
    if isinstance(v, tuple) and v:
        if v[0] == 'tm': return ('tm', subst_term(v[1], tm, km, vm))
        if v[0] == 'post': return ('post', subst_val(v[1], tm, km, vm))
        if v[0] == 's': return vm(v)
    return v
def subst_term(t, tm, km, vm):
    if t[0] in ('atv', 'atk'): return (t[0], tm(t[1]), km(t[2]))
    if t[0] in ('hdk', 'hdv', 'lsk', 'lsv', 'rtk', 'rtv'): return (t[0], tm(t[1]))
    if t[0] == 'post': return ('post', subst_val(t[1], tm, km, vm))
    return t
