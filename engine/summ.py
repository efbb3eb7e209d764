"""Summaries of recursive functions and of loops (a loop head together with the rest of its
function is treated as a tail-recursive function of the live variables).

An entry is the abstraction of the arguments: every tree becomes one opaque symbol, every key or
value an opaque scalar, every integer a variable; facts among them are kept.  The outcomes of an
entry are computed to a fixpoint; tree results are abstracted by the set of sequence templates
(words over the entry symbols) they equal, integers by projection of the linear constraints."""
import lin as L, seqs
from absint import attempt, Dead, Undecided, Fatal, Fork, Panic, UNIT, St, B
from words import Words, subst_atom, subst_val, subst_term

class Entry:
    __slots__ = ('key', 'f', 'bb', 'E', 'A', 'out', 'sig', 'done', 'stamp', 'low', 'viol', 'und', 'depth', 'pan', 'panu', 'runs', 'deps', 'cand', 'ban', 'base', 'wide', 'coarse')

def bounds(lin, x, lo, hi):
    """(lower, upper) bound of x within [lo, hi], None where there is none in that range"""
    n = lin.norm(x)
    if L.is_const(n): return n[0], n[0]
    a = b = None
    for c in range(hi, lo - 1, -1):
        if lin.entails_ge(L.sub(x, L.const(c))): a = c; break
    for c in range(lo, hi + 1):
        if lin.entails_ge(L.sub(L.const(c), x)): b = c; break
    return a, b

class Abs:
    """copies values from state src to state dst, abstracting them"""
    def __init__(self, I, src, dst, pfx):
        self.I = I; self.src = src; self.dst = dst; self.pfx = pfx
        self.trees = {}; self.scal = {}; self.cells = {}; self.ints = {}; self.n = 0
        self.order_t = []; self.order_s = []; self.order_c = []; self.order_i = []
        self.treety = {}; self.scalty = {}
        self.wide = False; self.wides = []; self.gen = False
        self.base = None     # out mode: Abs of the entry (identity on its names)
    def new(self, c):
        self.n += 1
        return f"{self.pfx}{c}{self.n}"
    def tree(self, S, ty, c='T'):
        if S not in self.trees:
            self.trees[S] = self.new(c); self.order_t.append(S); self.treety[S] = ty
        return self.trees[S]
    def scalar(self, name, ty):
        st = self.src
        nm = st.r(name)
        if self.base is not None and nm in self.base.dst_scal: return nm
        if nm not in self.scal:
            self.scal[nm] = self.new('a'); self.order_s.append((nm, ty)); self.scalty[self.scal[nm]] = ty
        return self.scal[nm]
    def sty(self, n): return self.scalty.get(n)
    def tree_is_seq(self, S): return self.treety.get(S) is not None
    def integer(self, l):
        l = self.src.lin.norm(l)
        if self.wide:
            n = self.new('n'); self.ints[(l, n)] = n
            if self.src.lin.entails_ge(l): self.wides.append(n)
            return L.var(n)
        if L.is_const(l) and not self.gen: return l
        if l not in self.ints:
            self.ints[l] = self.new('n'); self.order_i.append(l)
        return L.var(self.ints[l])
    def val(self, v, ty):
        I = self.I; F = I.F; st = self.src
        v = I.res(st, v)
        x = F.ty(ty) if ty is not None else None
        r = I.R.role(ty) if ty is not None else None
        if v[0] == 'u': return v
        if v[0] == 'T': return ('T', None)
        if v[0] == 'nd':
            if len(v) > 1 and v[1] not in ('+', '0'):
                if self.base is None or v[1] in st.nonempty: return ('nd', '+') if v[1] in st.nonempty else ('nd',)
                return ('nd',)
            return v
        if r in ('opt', 'arc', 'node'):
            S = I.R.fold(I, st, v, ty)
            if self.base is not None and I.mode == 'seq' and S in self.trees and st.wdef.get(S) == ():
                # two empty results are not one result: each is described on its own
                S = st.fresh('f'); st.wdef[S] = ()
            return ('s', self.tree(S, ty), ty)
        if v[0] == 'b':
            return v
        if v[0] == 'i': return ('i', self.integer(v[1]))
        if v[0] == 'wrap': raise Undecided('wrapped integer across a summary')
        if v[0] == 'fn': return v
        if v[0] == 's':
            k = x['k']
            if k in ('struct', 'enum', 'tuple', 'closure') and not F.is_box(ty) and not F.is_vec(ty):
                v = I.force(st, v)
                return self.val(v, ty)
            if k == 'bool': return ('s', self.new('q'), ty)
            if k in ('ref', 'ptr'):
                return self.val(I.force(st, v), ty)
            if F.is_vec(ty):
                return self.val(I.force(st, v), ty)
            return ('s', self.scalar(v[1], ty), ty)
        if v[0] == 'tm':
            return v
        if v[0] == 'a':
            if v[1] is None:
                if x is None or x['k'] != 'tuple': raise Undecided('untyped aggregate')
                return ('a', None, 0, tuple(self.val(f, t) for f, t in zip(v[3], x['ts'])))
            t = F.ty(v[1])
            if t['k'] == 'closure': return ('a', v[1], v[2], tuple(self.val(f, u) for f, u in zip(v[3], t['ups'])))
            if t['k'] == 'tuple': return ('a', v[1], v[2], tuple(self.val(f, u) for f, u in zip(v[3], t['ts'])))
            return ('a', v[1], v[2], tuple(self.val(f, ff['t']) for f, ff in zip(v[3], t['v'][v[2]]['f'])))
        if v[0] == 'arc':
            inner = x['args'][0] if x and x.get('args') else None
            return ('arc', self.val(v[1], inner), v[2])
        if v[0] == 'r':
            return self.ref(v, ty)
        if v[0] == 'vec':
            if I.hooks.get('seq') and F.ty(v[1])['k'] == 'struct':
                return ('vec', v[1], (('q', self.tree(seqs.fold(I, st, v), v[1], 'Q')),))
            et = F.elem_ty(v[1]); segs = []
            for s in v[2]:
                if s[0] == 'e': segs.append(('e', self.val(s[1], et)))
                else: segs.append(('g', self.tree(s[1], None), self.integer(s[2]), self.integer(s[3])))
            return ('vec', v[1], tuple(segs))
        raise Undecided('abstraction of ' + v[0])
    def ref(self, v, ty):
        I = self.I; F = I.F; st = self.src
        x = F.ty(ty)
        tt = x.get('t')
        mut = bool(x.get('m'))
        ck = (v[1], v[2])
        if self.base is not None:
            # outcome: a reference to an entry cell passes through
            if v[2] == () and v[1] in self.base.dst_cells: return v
            if isinstance(v[1], str) and v[1].startswith('c:') or isinstance(v[1], tuple) and str(v[1][0]).startswith('c:'): pass
        if ck in self.cells:
            return ('r', self.cells[ck], ())
        name = (self.pfx + 'c', len(self.cells))
        self.cells[ck] = name
        if v[1] not in st.cells: raise Undecided('dangling reference')
        content = I.get(st, v[1], v[2])
        if F.ty(tt)['k'] == 'dyn': raise Undecided('dyn')
        self.order_c.append((ck, name, mut, tt))
        self.dst.cells[name] = ('u',)
        self.dst.cells[name] = self.val(content, self.I.ty_of_content(content, tt))
        return ('r', name, ())

class Summ:
    def __init__(self, I):
        self.I = I; self.table = {}; self.stack = []; self.change = 0; self.generalise_ints = False
        self.count = {}
        self.policies = []
    # ---------------------------------------------------------------- calls
    def fn_call(self, I, key, args, st):
        f = I.F.fns[key]
        if len(args) != f['argc'] and len(args):
            t = I.force(st, args[-1])
            if t[0] == 'a' and len(args) - 1 + len(t[3]) == f['argc']: args = list(args[:-1]) + list(t[3])
        return self.call(key, 0, [(i + 1, f['locals'][i + 1][0], a) for i, a in enumerate(args)], st)
    def head_call(self, I, key, fr, bb, st):
        if I.exact: return []
        f = I.F.fns[key]
        live = I.live_in(f)[bb]
        ps = [(l, f['locals'][l][0], st.cells[(fr, l)]) for l in sorted(live) if (fr, l) in st.cells]
        # a local that is only reachable through a live reference is carried by that reference
        return self.call(key, bb, ps, st, fr)
    def call(self, key, bb, params, st, fr=None):
        I = self.I
        res = []; todo = [st]
        while todo:
            s = todo.pop().copy()
            try:
                A, E = self.abstract(key, bb, params, s, fr)
            except Fork as fk:
                todo += fk.states; continue
            except Dead: continue
            except Undecided as ex: I.lose(ex, I.F.fns[key]); continue
            ent = self.lookup(key, bb, A, E)
            outs = self.solve(ent)
            add = []
            for o in outs:
                try: add += self.instantiate(s, A, E, o, ent)
                except Undecided as ex: I.lose(ex, I.F.fns[key])
            if not ent.done:
                for t, _ in add: t.extra['rec'] = True
            elif I.mode == 'seq' and any(not t for o in outs for t in o['tmpl']):
                # a result is inexpressible: the paths without recursion are still exact
                for o, w in ent.base:
                    for t, rv in self.inst_witness(s, A, o, w, ent): add.append((t, rv))
            res += add
            for o, w in ent.pan if ent.done else ():
                try: I.panicked += self.inst_witness(s, A, o, w, ent)
                except Undecided: I.panicked.append((s, ent.panu or ('panic', 'in ' + I.F.fns[key]['path'])))
            if ent.panu and I.want_panics:
                t = s.copy(); t.extra['mrg'] = True; I.panicked.append((t, ent.panu))
        return res
    def abstract(self, key, bb, params, st, fr):
        I = self.I
        E = St(); E.n = 100
        A = Abs(I, st, E, '')
        # an argument that grows without bound: forget the exact integers
        A.gen = self.count.get((key, bb), 0) > 6
        for l, ty, v in params:
            # a local of this frame that is also referenced keeps one identity
            if fr is not None:
                ck = ((fr, l), ())
                E.cells[('E', l)] = ('u',)
                A.cells[ck] = ('E', l)
                A.order_c.append((ck, ('E', l), 'local', ty))
        for l, ty, v in params:
            E.cells[('E', l)] = A.val(v, ty)
        # overlapping mutable references
        cs = [c for c in A.order_c if c[2] is not False]
        for i, (c1, _, m1, _) in enumerate(A.order_c):
            for (c2, _, m2, _) in A.order_c[i + 1:]:
                if c1[0] == c2[0] and (c1[1] == c2[1][:len(c1[1])] or c2[1] == c1[1][:len(c2[1])]) and (m1 is True or m2 is True) and 'local' not in (m1, m2):
                    raise Undecided('overlapping references at a summary boundary')
        W = Words(st)
        if I.R.btree:
            E.pbound = True
            for S in A.order_t:
                if S in st.nonempty: E.nonempty = E.nonempty | {A.trees[S]}
                if S in st.empty or S[0] == 'Q': continue
                a = I.R.occ_class(I.R.occ(st, S))
                if a is not None: E.attr[A.trees[S]] = a
        # facts among the abstracted names
        for S in A.order_t:
            n = A.trees[S]
            if I.mode == 'seq':
                w = W.nf((('t', S),))
                if not w: E.empty = E.empty | {n}
                elif S in st.nonempty or any(a[0] == 'e' for a in w): E.nonempty = E.nonempty | {n}
            else:
                if S in st.empty: E.empty = E.empty | {n}
                elif S in st.nonempty: E.nonempty = E.nonempty | {n}
        keys = [(nm, t) for nm, t in A.order_s if I.keylike(t)]
        if I.mode == 'seq':
            if I.hooks.get('callback') or I.hooks.get('torder'):
                for S in A.order_t:
                    for T in A.order_t:
                        if S != T and W.words_lt(W.nf((('t', S),)), W.nf((('t', T),))): E.order = E.order | {(('t', A.trees[S]), ('t', A.trees[T]))}
            for nm, _ in keys:
                for nm2, _ in keys:
                    if nm != nm2 and W.rel(W.key(nm), W.key(nm2)) == '<': E.order = E.order | {(A.scal[nm], A.scal[nm2])}
                for S in A.order_t:
                    t = A.trees[S]
                    if t in E.empty: continue
                    q = W.tree_rel(S, nm)
                    if q == '<': E.order = E.order | {(('t', t), A.scal[nm])}
                    elif q == '>': E.order = E.order | {(A.scal[nm], ('t', t))}
                    else:
                        p = st.pres_of(S, nm)
                        if p is not None: E.pres[(t, A.scal[nm])] = p
        # integers
        m = {}
        keep = []
        for S in A.order_t:
            for a in ('h:', 'c:', 'b:', 'len:'): m[a + S] = a + A.trees[S]; keep.append(a + S)
        lin = st.lin
        for l in A.order_i:
            v = 'int!' + A.ints[l]
            if A.gen:
                if lin.entails_ge(l): E.ge(L.var(A.ints[l]))
                m[v] = A.ints[l]; continue
            lin2 = lin.add_eq(L.sub(L.var(v), l))
            if lin2 is None: raise Dead()
            lin = lin2; keep.append(v); m[v] = A.ints[l]
        for v in self.consts(lin): keep.append(v); m[v] = v
        pr = lin.project(keep) if I.mode == 'seq' else self.numfacts(lin, A.order_t, ['int!' + A.ints[l] for l in A.order_i if not A.gen], st)
        if I.mode == 'num' and A.gen and self.count.get((key, bb), 0) > (48 if I.scc.get(key, (0, False))[1] else 24): pr = (frozenset(), frozenset())
        if pr is None: raise Dead()
        eqs, ges = pr
        for e in sorted(eqs, key=str): E.eq0(L.rename(e, lambda v: m[v]))
        for g in sorted(ges, key=str): E.ge(L.rename(g, lambda v: m[v]))
        A.linkeep = m
        A.dst_trees = {A.trees[S] for S in A.order_t}
        A.dst_scal = {A.scal[nm] for nm, _ in A.order_s}
        A.dst_cells = {n for _, n, _, _ in A.order_c}
        A.inv_t = {A.trees[S]: S for S in A.order_t}
        A.inv_s = {A.scal[nm]: nm for nm, _ in A.order_s}
        A.inv_c = {n: (ck, mut, t) for ck, n, mut, t in A.order_c}
        A.inv_i = {A.ints[l]: l for l in A.order_i}
        return A, E
    def consts(self, lin):
        vs = set()
        for e, l in lin.eq.items():
            vs.add(e); vs.update(L.vars_of(l))
        for l in lin.ge: vs.update(L.vars_of(l))
        return [v for v in vs if v.startswith('const:')]
    def lookup(self, key, bb, A, E):
        I = self.I
        ek = (key, bb, I.canon(E))
        e = self.table.get(ek)
        if e is None:
            e = Entry(); e.key = key; e.bb = bb; e.E = E; e.A = A; e.out = []; e.sig = None; e.done = False; e.stamp = -1; e.low = None
            e.viol = {}; e.und = {}; e.pan = []; e.panu = None; e.depth = None; e.runs = 0; e.deps = set(); e.cand = {}; e.ban = set(); e.base = []; e.wide = False; e.coarse = False
            self.table[ek] = e
            n = self.count.get((key, bb), 0) + 1
            self.count[(key, bb)] = n
            I.stats['entries'] += 1
            if n > 80: raise Fatal('too many entries for ' + I.F.fns[key]['path'])
        return e
    # ---------------------------------------------------------------- fixpoint
    def solve(self, e):
        I = self.I
        if self.stack: self.stack[-1].deps.add(id(e)); self.byid[id(e)] = e
        else: self.roots.add(id(e)); self.byid[id(e)] = e
        if e.done: return e.out
        if e.depth is not None:
            for q in self.stack: q.low = min(q.low, e.depth) if q.depth > e.depth else q.low
            if self.stack: self.stack[-1].low = min(self.stack[-1].low, e.depth)
            return e.out
        if e.stamp == self.change and e.sig is not None:
            for q in self.stack: q.low = min(q.low, e.low)
            return e.out
        e.depth = len(self.stack); e.low = 10**9
        self.stack.append(e)
        try:
            while True:
                e.runs += 1
                if e.runs > 150: raise Fatal('summary of ' + I.F.fns[e.key]['path'] + ' does not stabilise')
                sv = (I.viol, I.und, I.curentry); fb = I.fnbase; I.fnbase = len(I.fnstack)
                I.viol = {}; I.und = {}; I.curentry = e
                e.deps = set(); e.low = 10**9
                try:
                    rs = I.run_from(e.key, 'E', e.bb, e.E.copy())
                    e.viol = I.viol; e.und = I.und
                finally:
                    I.viol, I.und, I.curentry = sv; I.fnbase = fb
                outs = self.outcomes(e, rs)
                if I.mode == 'seq': outs = self.refine(e, outs)
                sig = self.sig(outs)
                if sig == e.sig: break
                e.out = outs; e.sig = sig; self.change += 1
                if e.low > e.depth and e.low >= 10**9: break
                if e.low > e.depth: break
        finally:
            self.stack.pop()
            d = e.depth; e.depth = None
        e.stamp = self.change
        if e.low >= d:
            e.done = True
        return e.out
    byid = None; roots = None
    def sig(self, outs):
        return frozenset((o['key'], tuple(tuple(map(str, t)) for t in o['tmpl']), str(o['wit'] is not None)) for o in outs)
    # ---------------------------------------------------------------- outcomes
    def outcomes(self, e, rs):
        I = self.I; f = I.F.fns[e.key]
        res = {}; todo = [x for x in rs if x[1][0] != 'panic']; e.base = []
        self.panic_paths(e, f, [x for x in rs if x[1][0] == 'panic'])
        while todo:
            s, rv = todo.pop()
            s = s.copy()
            try:
                o = self.outcome(e, f, s, rv)
            except Fork as fk:
                todo += [(q, rv) for q in fk.states]; continue
            except Dead: continue
            except Undecided as ex: I.lose(ex, f); continue
            if o is None: continue
            k = o['key']
            if I.mode == 'seq' and not s.extra.get('rec') and not s.extra.get('ind') and not s.extra.get('mrg') and not s.und and len(e.base) < 12 and all(self.is_clean(x[2], e, s) for x in o['full']):
                e.base.append((dict(o, tmpl=[[] for _ in o['tmpl']]), dict(clean=True, state=s, names=o['full'])))
            if k in res:
                p = res[k]
                p['tmpl'] = [[t for t in a if t in b] for a, b in zip(p['tmpl'], o['tmpl'])]
                p['wits'] += o['wits']
                p['cut'] = [x for x in p['cut'] if x in o['cut']]
            else: res[k] = o
        out = []
        for o in res.values():
            bad = any(not t for t in o['tmpl'])
            if bad and o['wits'] and I.mode == 'seq':
                clean = [w for w in o['wits'] if w['clean']]
                o['wit'] = clean[:6] if clean else None
                o['unk'] = len(clean) < len(o['wits']) or len(clean) > 6
            out.append(o)
        if not e.wide and e.runs >= 3:
            # integer results that keep changing from round to round are forgotten
            g = {}
            for o in out: g.setdefault(self.noint((o['mkey'][0], o['mkey'][1], o['mkey'][2])), set()).add(repr(o['mkey']))
            if any(len(x) > 2 for x in g.values()):
                e.wide = True; e.cand = {}; e.ban = set()
                return self.outcomes(e, rs)
        if I.mode == 'num' and not e.coarse and len(out) > 32:
            # results with very many height cases (pairs of trees): only their well-formedness is kept
            e.coarse = True
            return self.outcomes(e, rs)
        return self.merge_outs(out)
    def panic_paths(self, e, f, rs):
        """panicking paths are kept one by one with their exact state"""
        e.pan = []; e.panu = None; seen = set(); todo = rs
        while todo:
            s, rv = todo.pop(); s = s.copy()
            if s.extra.get('rec') or s.extra.get('mrg') or s.und: e.panu = rv; continue
            try: o = self.outcome(e, f, s, rv)
            except Fork as fk: todo += [(q, rv) for q in fk.states]; continue
            except Dead: continue
            except Undecided: e.panu = rv; continue
            if o['key'] in seen: continue
            seen.add(o['key'])
            if len(e.pan) >= 12: e.panu = rv; break
            e.pan.append((o, dict(clean=True, state=s, names=o['full'])))
    def noint(self, x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'i': return ('i',)
            return tuple(self.noint(y) for y in x)
        return x
    def refine(self, e, outs):
        """guess and check: an outcome that satisfies several templates is used through its preferred
        one; a template that the next round refutes is banned and the next candidate is tried"""
        failed = False; fails = []
        for o in outs:
            if o['key'] not in e.cand: continue
            for i, (old, new) in enumerate(zip(e.cand[o['key']], o['tmpl'])):
                old = [t for t in old if (o['key'], i, t) not in e.ban]
                if old and old[0] not in new: fails.append(((o['key'], i, old[0]), len(old)))
        # an outcome without alternatives may have failed because of a wrong guess elsewhere
        multi = self.I.R.btree and any(n > 1 for _, n in fails)
        for b, n in fails:
            if n > 1 or not multi: e.ban.add(b)
            failed = True
        # an outcome no template describes may be the fault of a wrong guess for a sibling outcome
        for o in outs:
            for i, new in enumerate(o['tmpl']):
                if new: continue
                for p in outs:
                    if p is not o and p['mkey'] == o['mkey'] and p['key'] in e.cand:
                        old = [t for t in e.cand[p['key']][i] if (p['key'], i, t) not in e.ban]
                        if len(old) > 1: e.ban.add((p['key'], i, old[0])); failed = True
        res = []
        for o in outs:
            c = e.cand.get(o['key'])
            if c is None:
                if failed: continue
                if self.I.R.btree:
                    # prefer what also describes the sibling outcomes
                    for i, t in enumerate(o['tmpl']):
                        cnt = lambda x: -sum(1 for p in outs if i < len(p['tmpl']) and x in p['tmpl'][i])
                        o['tmpl'][i] = sorted(t, key=cnt)
                e.cand[o['key']] = c = [list(t) for t in o['tmpl']]
            o['tmpl'] = [[t for t in l if (o['key'], i, t) not in e.ban] for i, l in enumerate(c)]
            res.append(o)
        return res
    def merge_outs(self, out):
        """joins outcomes that differ only in what they say about the arguments"""
        if self.I.mode != 'seq': return out
        res = []
        for o in out:
            for p in res:
                if o['mkey'] != p['mkey'] or len(o['tmpl']) != len(p['tmpl']): continue
                tm = [[t for t in a if t in b] for a, b in zip(p['tmpl'], o['tmpl'])]
                if any(not t for t in tm): continue
                p['tmpl'] = tm
                p['cut'] = [x for x in p['cut'] if x in o['cut']]
                p['pres'] = [x for x in p['pres'] if x in o['pres']]; p['emp'] = [x for x in p['emp'] if x in o['emp']]
                p['key'] = p['mkey'] + (tuple(p['pres']), tuple(p['emp']))
                p['wits'] = []; p['wit'] = None; p['mrg'] = True
                break
            else: res.append(o)
        return res
    def outcome(self, e, f, s, rv):
        I = self.I
        if I.mode == 'seq': s.pres_check()
        D = St(); O = Abs(I, s, D, 'o'); O.base = e.A; O.wide = e.wide
        A = e.A
        pan = rv[0] == 'panic'
        ret = rv if pan else O.val(rv, f['locals'][0][0])
        cells = []
        for ck, n, mut, t in A.order_c:
            if mut is True and n in s.cells and not pan: cells.append((n, O.val(s.cells[n], I.ty_of_content(s.cells[n], t))))
        W = Words(s)
        T = self.templates(e)
        tm = []; wits = []; clean = True
        onames = []
        if I.mode == 'seq':
            for S in O.order_t:
                w = W.nf((('t', S),))
                tm.append([t for t in T['w'] if W.nf(t) == w])
                onames.append(('t', O.trees[S], w))
            for nm, ty in O.order_s:
                tv = W.val(('s', nm)) if not I.keylike(ty) else W.key(nm)
                kk = 'k' if I.keylike(ty) else 'v'
                c = []
                for t in T[kk]:
                    if (W.key(t) if kk == 'k' else W.val(t)) == tv and t not in c: c.append(t)
                tm.append(c)
                onames.append(('s', O.scal[nm], tv))
            ev = W.nf(s.ev)
            tm.append([t for t in [()] + T['e'] if W.nf(t) == ev])
            onames.append(('ev', None, ev))
        shape = ()
        if I.R.btree:
            shape = tuple((O.trees[S], S in s.empty, I.R.occ_class(I.R.occ(s, S)) if S not in s.empty else None) for S in O.order_t)
            self.joint(I, s, W, O, T, tm, onames)
        pres = []; emp = []; cut = []
        if I.mode == 'seq':
            for S in sorted(A.dst_trees):
                w = W.nf((('t', S),))
                if S in e.E.empty or S in e.E.nonempty: pass
                elif not w: emp.append((S, True))
                elif S in s.nonempty: emp.append((S, False))
                for k in sorted(A.dst_scal):
                    if (S, k) in s.pres or True:
                        p = s.pres_of(S, k) if I.keylike(A.sty(k)) else None
                        if p is None and I.keylike(A.sty(k)) and S not in e.E.empty:
                            at = W.nf((('at', S, k),))
                            if not at: p = False
                            elif any(a[0] == 'e' for a in at): p = True
                        if p is not None and (S, k) not in e.E.pres: pres.append((S, k, p))
                    if p is not None or S not in e.E.empty and S not in s.empty:
                        for c in ('lt', 'gt'):
                            if w and I.keylike(A.sty(k)) and not W.nf(((c, S, k),)): cut.append((c, S, k))
            eqs = tuple(sorted((k, s.r(k)) for k in A.dst_scal if s.r(k) != k and s.r(k) in A.dst_scal))
        else:
            for S in sorted(A.dst_trees):
                if S in e.E.empty or S in e.E.nonempty: continue
                if S in s.empty: emp.append((S, True))
                elif S in s.nonempty: emp.append((S, False))
            eqs = ()
        # linear facts
        keep = []; m = {}
        for S in A.dst_trees:
            for a in ('h:', 'c:', 'b:', 'len:'): m[a + S] = a + S
        for n in A.ints.values(): m[n] = n
        lin = s.lin
        for S in O.order_t:
            for a in ('h:', 'c:', 'b:', 'len:'): m[a + S] = a + O.trees[S]
        for l in O.order_i:
            v = 'int!' + O.ints[l]
            lin = lin.add_eq(L.sub(L.var(v), l))
            if lin is None: raise Dead()
            m[v] = O.ints[l]
        for v in self.consts(lin): m[v] = v
        if I.mode == 'num':
            self.numsplit(s, A, O, e.coarse)
            shape = tuple((O.trees[S], S in s.empty, None) for S in O.order_t)
            pr = self.numfacts(lin, sorted(A.dst_trees) + [S for S in O.order_t], list(A.ints.values()) + ['int!' + O.ints[l] for l in O.order_i], s) if not e.coarse else (frozenset(), frozenset())
            if e.coarse: emp = []
        else: pr = lin.project(list(m))
        if pr is None: raise Dead()
        eqs2 = frozenset(L.rename(x, lambda v: m[v]) for x in pr[0]); ges = frozenset(L.rename(x, lambda v: m[v]) for x in pr[1])
        if getattr(I.R, 'counts', False) and e.runs >= 3:
            # how many links were followed is forgotten: only what relates results to arguments is kept
            arg = lambda x: all(v.startswith('c:') and v[2:] in A.dst_trees for v in L.vars_of(x))
            eqs2 = frozenset(x for x in eqs2 if not arg(x)); ges = frozenset(x for x in ges if not arg(x))
        if e.wide: ges = ges | {L.var(n) for n in O.wides}
        if I.R.btree: eqs2, ges = self.heights(s, A, O, eqs2, ges)
        ocells = tuple((n, D.cells[n]) for ck, n, mut, t in O.order_c)
        key = (ret, tuple(cells), ocells, tuple(pres), tuple(emp), eqs, eqs2, ges, bool(s.und), shape, onames[-1][1] if onames and onames[-1][0] == 'j' else None)
        mkey = (ret, tuple(cells), ocells, eqs, eqs2, ges, bool(s.und), shape, key[-1])
        bad = [(o, t) for o, t in zip(onames, tm) if not t]
        wits = []
        if bad and I.mode == 'seq':
            clean = all(self.is_clean(o[2], e, s) for o, t in bad) and not s.und and not s.extra.get('wit') and not s.extra.get('mrg') and not s.extra.get('ind')
            wits = [dict(clean=clean, state=s, names=onames)]
        return dict(key=key, mkey=mkey, cut=cut, ret=ret, cells=cells, ocells=ocells, pres=pres, emp=emp, eqs=eqs, lin=(eqs2, ges), und=s.und, tmpl=tm, names=[(o[0], o[1]) for o in onames], wits=wits, wit=None, unk=False, trace=s.trace, full=onames, shape=shape)
    def joint(self, I, s, W, O, T, tm, onames):
        """two result trees and a result entry between them that only together form a word over the arguments"""
        ts = [S for S in O.order_t if W.nf((('t', S),))]
        ks = [n for n, t in O.order_s if I.keylike(t)]; vs = [n for n, t in O.order_s if not I.keylike(t) and not I.otherscalar(t)]
        if len(ts) != 2 or len(ks) != 1 or len(vs) > 1: return
        v = ('s', vs[0]) if vs else UNIT
        for a, b in (ts, ts[::-1]):
            w = W.nf((('t', a), ('e', ks[0], v), ('t', b)))
            c = [t for t in T['w'] if W.nf(t) == w]
            if c:
                J = (O.trees[a], O.scal[ks[0]], O.scal[vs[0]] if vs else None, O.trees[b])
                for i, (kind, n, _) in enumerate(onames):
                    if n in J and kind != 'ev': tm[i] = [('joint',)]
                tm.append(c); onames.append(('j', J, w))
                return
    def heights(self, s, A, O, eqs, ges):
        """heights of result trees, relative to argument trees where possible"""
        rel = set(); done = set()
        for S in O.order_t:
            h = L.var('h:' + S); o = L.var('h:' + O.trees[S])
            for T in sorted(A.dst_trees):
                q = s.lin.norm(L.sub(h, L.var('h:' + T)))
                if L.is_const(q): d = q[0]
                else:
                    d = next((d for d in (0, 1, -1) if s.lin.entails_eq(L.sub(q, L.const(d)))), None)
                if d is not None and abs(d) < 3:
                    rel.add(L.sub(L.sub(o, L.var('h:' + T)), L.const(d))); done.add('h:' + O.trees[S]); break
        done |= {'h:' + T for T in A.dst_trees}
        f = lambda l: not (l[1] and all(v in done for v in L.vars_of(l)))
        return frozenset(x for x in eqs if f(x)) | frozenset(rel), frozenset(x for x in ges if f(x))
    def numsplit(self, s, A, O, coarse=False):
        """results are told apart by balance and by how their height relates to an argument's"""
        I = self.I
        for S in O.order_t:
            if S in s.empty: continue
            if S not in s.nonempty: raise Fork(attempt(s, lambda t: I.set_empty(t, S)) + attempt(s, lambda t: I.set_nonempty(t, S)))
            if coarse: continue
            b = L.var('b:' + S)
            if not L.is_const(s.lin.norm(b)):
                lo, hi = bounds(s.lin, b, -1, 1)
                if lo is not None and lo == hi: s.eq0(L.sub(b, L.const(lo)))
                elif lo is not None and hi is not None: raise Fork([t for v in range(lo, hi + 1) for t in attempt(s, lambda t, v=v: t.eq0(L.sub(b, L.const(v))))])
            for T in sorted(A.dst_trees):
                d = L.sub(L.var('h:' + S), L.var('h:' + T))
                if L.is_const(s.lin.norm(d)): continue
                lo, hi = bounds(s.lin, d, -3, 3)
                if lo is None or hi is None or hi - lo > 2: continue
                if lo == hi: s.eq0(L.sub(d, L.const(lo))); continue
                raise Fork([t for v in range(lo, hi + 1) for t in attempt(s, lambda t, v=v: t.eq0(L.sub(d, L.const(v))))])
    def numfacts(self, lin, trees, ints, st):
        """the numeric facts that cross a summary boundary: balances, small height differences, small heights"""
        eqs = []; ges = []
        def rel(x, lo, hi):
            n = lin.norm(x)
            if L.is_const(n):
                if lo <= n[0] <= hi: eqs.append(L.sub(x, n)); return True
                ges.append(L.sub(x, L.const(hi)) if n[0] > hi else L.sub(L.const(lo), x)); return False
            a, b = bounds(lin, x, lo, hi)
            if a is not None and a == b: eqs.append(L.sub(x, L.const(a))); return True
            if a is not None: ges.append(L.sub(x, L.const(a)))
            if b is not None: ges.append(L.sub(L.const(b), x))
            return False
        known = []; lone = any(S in st.empty for S in trees)
        for S in trees:
            if S in st.empty: continue
            rel(L.var('b:' + S), -1, 1)
            h = L.var('h:' + S)
            one = rel(h, 1, 3 if lone else 1)
            for T, o in known:
                if not (one and o): rel(L.sub(h, L.var('h:' + T)), -3, 3)
            known.append((S, one))
        for v in ints:
            x = L.var(v)
            if rel(x, 0, 1): continue
            for T, _ in known:
                if rel(L.sub(x, L.var('h:' + T)), -3, 3): break
        return frozenset(eqs), frozenset(ges)
    def is_clean(self, w, e, s):
        t = str(w)
        return '?' not in t and "'o" not in t
    def templates(self, e):
        """candidate words / terms over the entry symbols, most specific first"""
        A = e.A; I = self.I
        if getattr(A, 'T', None): return A.T
        trees = [A.trees[S] for S in A.order_t if A.tree_is_seq(S)]
        keys = [A.scal[n] for n, t in A.order_s if I.keylike(t)]
        vals = [(A.scal[n], t) for n, t in A.order_s if not I.keylike(t) and not I.otherscalar(t)]
        elems = []
        for k in keys:
            for v, t in vals: elems.append(('e', k, ('s', v)))
            if not vals: elems.append(('e', k, UNIT))
            if vals and I.unit_vals: elems.append(('e', k, UNIT))
        if getattr(I.R, 'counts', False): elems += [('e', '*', ('s', v)) for v, t in vals]
        w = []
        for S in trees:
            if I.hooks.get('callback'): w.append((('flt', S),))
            if I.hooks.get('callback'): w.append((('map', S),))
            for T in trees:
                if T != S:
                    for pol in self.policies: w.append((('F', pol, S, T),))
        for S in trees:
            for k in keys:
                lt, at, gt = ('lt', S, k), ('at', S, k), ('gt', S, k)
                w.append((lt, gt))
                for x in elems:
                    if x[1] == k: w.append((lt, x, gt))
                w += [(lt,), (gt,), (at, gt), (lt, at), (at,)]
        for S in trees: w.append((('t', S),))
        w.append(())
        for x in elems: w.append((x,))
        for S in trees:
            w += [(('tl', S),), (('in', S),)]
            for x in elems: w += [(('t', S), x), (x, ('t', S))]
            for T in trees:
                if T == S: continue
                w.append((('t', S), ('t', T)))
                if I.hooks.get('callback'): w.append((('t', S), ('flt', T)))
                for x in elems: w.append((('t', S), x, ('t', T)))
        if I.R.btree: w.remove(()); w.append(())
        k = list(keys); v = [('s', x) for x, _ in vals]
        for S in trees:
            k += [('tm', ('hdk', S)), ('tm', ('lsk', S)), ('tm', ('rtk', S))]; v += [('tm', ('hdv', S)), ('tm', ('lsv', S)), ('tm', ('rtv', S))]
            for kk in keys: v.append(('tm', ('atv', S, kk)))
        v += [('tm', ('post', x)) for x in v]
        isf = lambda t: any(a[0] in ('flt', 'map') for a in t)
        # filtered contents first, filtered events last
        A.T = dict(w=sorted(w, key=lambda t: -len(t) if isf(t) else 0), e=sorted(w, key=isf), k=k, v=v)
        return A.T
    # ---------------------------------------------------------------- instantiation
    def instantiate(self, st, A, E, o, ent):
        I = self.I
        if o['wit'] and not any(q.key == ent.key for q in self.stack) and not st.extra.get('inscc'):
            out = []
            for w in o['wit']:
                out += self.inst_witness(st, A, o, w, ent)
            if o['unk']: out += self.inst1(st, A, o, ent, unknown=True)
            return out
        return self.inst1(st, A, o, ent)
    def inst1(self, st, A, o, ent, unknown=False):
        I = self.I
        s = st.copy()
        s.n += 1
        if ent.depth is not None and not I.R.btree: s.extra['ind'] = True
        if o.get('mrg'):
            s.extra['mrg'] = True
            # facts about the arguments were joined away and other outcomes exist: this combination may be infeasible
            if len(ent.out or ()) > 1: s.extra['amb'] = True
        tag = s.n
        on = {}
        def tmap(n):
            if n in A.inv_t: return A.inv_t[n]
            if n not in on: on[n] = f"{n}@{tag}"
            return on[n]
        def kmap(n):
            if n in A.inv_s: return A.inv_s[n]
            b = n.split('.')[0]
            if n not in on: on[n] = f"{n}@{tag}"
            return on[n]
        def vmap(v):
            if v[1] in A.inv_s: return ('s', A.inv_s[v[1]])
            return ('s', kmap(v[1]))
        def lvar(v):
            for p in ('h:', 'c:', 'b:', 'len:'):
                if v.startswith(p): return L.var(p + tmap(v[len(p):]))
            if v in A.inv_i: return A.inv_i[v]
            if v.startswith('const:'): return L.var(v)
            if v not in on: on[v] = f"{v}@{tag}"
            return L.var(on[v])
        def linmap(l):
            r = (l[0], ())
            for v, c in l[1]: r = L.add(r, L.scale(lvar(v), c))
            return r
        def val(v):
            if v[0] == 'panic': return v
            if v[0] == 's':
                if v[1] in A.inv_t: return ('s', A.inv_t[v[1]], v[2])
                if v[1] in A.inv_s: return ('s', A.inv_s[v[1]], v[2])
                return ('s', tmap(v[1]), v[2])
            if v[0] == 'i': return ('i', linmap(v[1]))
            if v[0] == 'a': return ('a', v[1], v[2], tuple(val(f) for f in v[3]))
            if v[0] == 'arc': return ('arc', val(v[1]), v[2])
            if v[0] == 'vec': return ('vec', v[1], tuple(('e', val(x[1])) if x[0] == 'e' else ('q', tmap(x[1])) if x[0] == 'q' else ('g', tmap(x[1]), linmap(x[2]), linmap(x[3])) for x in v[2]))
            if v[0] == 'r':
                if v[1] in A.inv_c:
                    ck = A.inv_c[v[1]][0]
                    return ('r', ck[0], ck[1] + v[2])
                c = ('cur@', tag, v[1])
                return ('r', c, v[2])
            return v
        try:
            for S, b in o['emp']:
                if b: I.set_empty(s, A.inv_t[S])
                else: I.set_nonempty(s, A.inv_t[S])
            for a, b in o['eqs']: s.add_eq(A.inv_s[a], A.inv_s[b])
            for S, k, p in o['pres']:
                cs, ck = A.inv_t[S], s.r(A.inv_s[k])
                q = s.pres_of(cs, ck)
                if q is None: s.pres[(cs, ck)] = p
                elif q != p: raise Dead()
            for c, S, k in o['cut']:
                # a side of a tree that is known to be empty
                for a in Words(s).nf(((c, A.inv_t[S], A.inv_s[k]),)):
                    if a[0] == 'e': raise Dead()
                    if a[0] == 't': I.set_empty(s, a[1])
                    else: s.empty = s.empty | {a}
            eqs, ges = o['lin']
            for x in sorted(eqs, key=str): s.eq0(linmap(x))
            for x in sorted(ges, key=str): s.ge(linmap(x))
            if o['und']: s.und = s.und + tuple(u for u in o['und'] if u not in s.und)
            for n, emp, a in o['shape']:
                S = tmap(n)
                if emp: I.set_empty(s, S)
                elif I.mode == 'num': I.set_nonempty(s, S)
                else:
                    s.nonempty = s.nonempty | {S}
                    if a is not None: s.attr[S] = a
            for (kind, nm), ts in zip(o['names'], o['tmpl']):
                if ts and ts[0] == ('joint',): continue
                if kind == 'j':
                    a, k, v, b = nm; X = s.fresh('x')
                    a = tmap(a); b = tmap(b); k = kmap(k); v = ('s', kmap(v)) if v else UNIT
                    s.node[X] = (a, k, v, b); s.parent[a] = X; s.parent[b] = X; s.attr[X] = (0, 0, 'not a node'); s.nonempty = s.nonempty | {X}
                    if not ts or unknown:
                        s.wdef[X] = (('?', X),); s.und = s.und + ('no template for results of ' + I.F.fns[ent.key]['path'],)
                    else: s.wdef[X] = tuple(subst_atom(x, tmap, kmap, vmap) for x in ts[0])
                    continue
                if kind == 't' and I.R.btree and tmap(nm) in s.empty: continue
                if kind == 't':
                    S = tmap(nm)
                    if not ts or unknown:
                        s.wdef[S] = (('?', S),)
                        s.und = s.und + ('no template for a result of ' + I.F.fns[ent.key]['path'],)
                    else:
                        s.wdef[S] = tuple(subst_atom(a, tmap, kmap, vmap) for a in ts[0])
                        if any(a[0] == 'e' for a in ts[0]): s.nonempty = s.nonempty | {S}
                elif kind == 's':
                    n = kmap(nm)
                    if not ts or unknown: s.tdef[n] = ('?', n)
                    else:
                        t = ts[0]
                        if isinstance(t, str): s.tdef[n] = ('key', kmap(t)); s.rep[n] = s.r(kmap(t)); del s.tdef[n]
                        elif t[0] == 's':
                            q = vmap(t)
                            s.tdef[n] = ('val', q)
                        else: s.tdef[n] = subst_term(t[1], tmap, kmap, vmap)
                else:
                    if not ts or unknown:
                        s.ev = s.ev + (('?', 'ev'),); s.und = s.und + ('events of a loop/recursion unknown',)
                    else: s.ev = s.ev + tuple(subst_atom(a, tmap, kmap, vmap) for a in ts[0])
            for n, v in o['ocells']: s.cells[('cur@', tag, n)] = val(v)
            for n, v in o['cells']:
                ck = A.inv_c[n][0]
                I.put(s, ck[0], ck[1], val(v))
            rv = val(o['ret'])
            return [(s, rv)]
        except Dead: return []
    def inst_witness(self, st, A, o, w, ent):
        """a result that no template describes: replay its concrete word in the caller"""
        I = self.I
        q = w['state']
        for S in A.inv_t.values():
            if S in st.wdef or S in st.node and False:
                return self.inst1(st, A, o, ent, unknown=True)
        def ren(n):
            if not isinstance(n, str): return n
            b, d, r = n.partition('.')
            if b in A.inv_t: return A.inv_t[b] + d + r
            if b in A.inv_s: return A.inv_s[b] + d + r
            return n + '@w'
        def deepren(x):
            if isinstance(x, str): return ren(x) if not x in ('e', 't', 'lt', 'at', 'gt', 'tl', 'hd', 'in', 'ls', 'F', 'tm', 'atv', 'hdk', 'hdv', 'lsk', 'lsv', 'post', 's', 'flt', 'map', 'flt1', 'l', 'r', 'a', 'b', 'i') else x
            if isinstance(x, tuple): return tuple(deepren(y) for y in x)
            return x
        s = st.copy()
        try:
            for S in sorted(q.node, key=lambda n: n.count('.')):
                n = q.node[S]
                cs = ren(S)
                if cs in s.empty: raise Dead()
                if cs in s.node and (len(s.node[cs]) != len(n) or (s.node[cs][0] is None) != (n[0] is None)): raise Dead()
                if I.R.btree and cs not in s.node and not cs.endswith('@w') and not I.R.occ(s, cs)[0] <= (len(n) - 1) // 3 <= I.R.occ(s, cs)[1]: raise Dead()
                if cs not in s.node and not cs.endswith('@w'):
                    I.set_nonempty(s, cs)
                    s.node[cs] = tuple(deepren(x) if i % 3 == 2 else ren(x) for i, x in enumerate(n))
                    for c in s.node[cs][0::3]:
                        if c is not None: s.parent[c] = cs
                    if I.R.btree:
                        s.attr[cs] = q.attr.get(S, ((len(n) - 1) // 3,) * 2 + (None,)); s.pbound = True
                        for c in s.node[cs][0::3]:
                            if c is not None: s.nonempty = s.nonempty | {c}
            for S in q.empty:
                if isinstance(S, str):
                    if not ren(S).endswith('@w'): I.set_empty(s, ren(S))
                    continue
                x = deepren(S)
                if '@w' in str(x): continue
                # a part of a tree that the witness found to be empty
                for a in Words(s).nf((x,)):
                    if a[0] == 'e': raise Dead()
                    if a[0] == 't': I.set_empty(s, a[1])
                    else: s.empty = s.empty | {a}
            for a, b in q.rep.items():
                if ren(a).endswith('@w') or ren(b).endswith('@w'): continue
                s.add_eq(ren(a), ren(b))
            for a, b in q.order:
                ra = ('t', ren(a[1])) if isinstance(a, tuple) else ren(a)
                rb = ('t', ren(b[1])) if isinstance(b, tuple) else ren(b)
                if '@w' in str(ra) + str(rb): continue
                s.add_lt(ra, rb)
            for (S, k), p in q.pres.items():
                cur = s.pres_of(ren(S), ren(k))
                if cur is None: s.pres[(ren(S), s.r(ren(k)))] = p
                elif cur != p: raise Dead()
        except Dead: return []
        s.extra['wit'] = True
        if q.extra.get('amb'): s.extra['amb'] = True
        o2 = dict(o); o2['tmpl'] = [ts or [None] for ts in o['tmpl']]
        words = {nm: wd for kind, nm, wd in w['names'] if kind != 'ev'}
        # instantiate with the concrete words
        tm = []
        sub = {}
        for (kind, nm, wd), ts in zip(w['names'], o['tmpl']):
            sub[nm] = deepren(wd)
        outs = self.inst1(s, A, dict(o, tmpl=[ts if ts else [] for ts in o['tmpl']], und=o['und']), ent)
        res = []
        for s2, rv in outs:
            tag = s2.n if False else None
            # replace the unknown definitions by the witness words
            s2.und = st.und
            for n in list(s2.wdef):
                d = s2.wdef[n]
                if len(d) == 1 and d[0] == ('?', n):
                    base = n.rsplit('@', 1)[0]
                    if base in sub: s2.wdef[n] = sub[base]
            for n in list(s2.tdef):
                if s2.tdef[n] == ('?', n):
                    base = n.rsplit('@', 1)[0]
                    if base in sub:
                        v = sub[base]
                        if isinstance(v, str): del s2.tdef[n]; s2.rep[n] = s2.r(v)
                        else: s2.tdef[n] = ('val', v)
            if ('?', 'ev') in s2.ev and None in sub:
                s2.ev = tuple(a for a in s2.ev if a != ('?', 'ev')) + sub[None]
            s2.trace = q.trace
            res.append((s2, rv))
        return res
    def run_top(self, key, args, st):
        """analyse a root operation; a recursive root goes through its summary"""
        return self.I.invoke(key, args, st)
