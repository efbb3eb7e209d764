"""Iterators and ranges of the B-trees on explicit node trees.

The argument is a tree of concrete shape (bounded) over symbolic entries in order; whether a node is
shared stays open.  The constructor and every interleaving of steps from both ends are interpreted."""
import re, time
import lin as L
import client, client_props, seqs, words, roles
from client import C, Result, Client
from absint import *
from btree_roles import BtreeRoles

SL = re.compile(r'^core::slice::<impl \[T\]>::(iter|iter_mut)$|^std::collections::VecDeque::<T, A>::(iter|iter_mut)$')
class Bt(Client):
    def __init__(self, F, layout, top, n=1):
        super().__init__(F, BtreeRoles(F, layout, 1, 11 if layout == 'inl' else 2 * n + 1), top)
        self.consts = {'N': n}; self.layout = layout; self.real = True
    def tree(self, ty, shape, items):
        """a shared node: shape is a number of entries (leaf) or a tuple of child shapes"""
        R = self.R0; F = self.F; nty = F.ty(ty)['args'][0]
        fs = F.ty(nty)['v'][0]['f']
        if isinstance(shape, int): es, kids = items, []
        else:
            es = []; kids = []; p = 0
            if self.layout == 'vec': ct = F.elem_ty(fs[R.fc]['t'])
            else: ct = R._inline(F.ty(F.ty(fs[R.fc]['t'])['args'][0])['args'][0])[3]
            for i, s in enumerate(shape):
                if i: es.append(items[p]); p += 1
                kids.append(self.tree(ct, s, items[p:p + count(s)])); p += count(s)
        return ('arc', R.make(self, None, nty, [e[3][0] for e in es], [e[3][1] for e in es], kids), False)
    def entries(self, st, x):
        """in-order entries below an optional node"""
        x = self.res(st, x)
        while x[0] == 'a' and self.F.is_option(x[1]) if x[1] is not None else False:
            if x[2] == 0: return []
            x = self.res(st, x[3][0])
        while x[0] == 'arc': x = self.res(st, x[1])
        ks, vs, cs = self.R0.parts(self, st, x); out = []
        for i in range(max(len(ks) + 1, len(cs))):
            if i < len(cs): out += self.entries(st, cs[i])
            if i < len(ks): out.append(self.pair(ks[i], vs[i]))
        return out
    def items(self, st, v, ci):
        return self.entries(st, v[3][ci[0]])
    def contract(self, fn, args, st):
        disp = fn.get('rdisp') or fn.get('disp') or ''
        name = fn.get('rname') or fn.get('name') or disp.rsplit('::', 1)[-1]
        m = SL.match(disp)
        if m:
            c, p, v = self.vec_at(st, args[0])
            if any(s[0] != 'e' for s in v[2]): raise Undecided('iteration over an unknown sequence')
            off = L.ZERO
            if p and p[-1][0] == 'sl': off = p[-1][1]; p = p[:-1]
            off = st.lin.norm(off)
            return [(st, ('vec', self.rettype(fn), tuple(('e', ('r', c, p + (('e', L.add(off, L.const(i))),))) for i in range(len(v[2])))))]
        if disp.startswith('<std::collections::VecDeque<T> as std::convert::From<[T'):
            v = self.res(st, args[0]); return [(st, ('vec', self.rettype(fn), v[2]))]
        if disp.startswith('core::slice::<impl std::default::Default for &'):
            d = self.rettype(fn); c = st.fresh('empty'); st.cells[c] = ('vec', self.F.ty(d).get('t', d), ()); return [(st, ('r', c, ()))]
        tr = fn.get('trait') or ''
        if args and ('::iter::' in tr or tr.endswith('IntoIterator')):
            if name == 'into_iter':
                v = self.res(st, args[0])
                if v[0] == 'a' and v[1] is not None and fn.get('key') not in self.F.fns: return [(st, args[0])]
            r = self.iterate(fn, name, args, st)
            if r is not None: return r
        return None
    def iterate(self, fn, name, args, st):
        if name in ('fold', 'sum', 'rev', 'enumerate', 'count'):
            x = self.iterval(st, args[0])
            if x is None: return None
            v = x[2]
            if name == 'count': return [(st, I(len(v[2])))]
            if name == 'rev': return [(st, ('vec', self.rettype(fn), v[2][::-1]))]
            if name == 'enumerate': return [(st, ('vec', self.rettype(fn), tuple(('e', self.pair(I(i), s[1])) for i, s in enumerate(v[2]))))]
            if name == 'fold':
                sts = [(st, args[1])]
                for s in v[2]:
                    nx = []
                    for t, acc in sts:
                        t = t.copy(); f = t.fresh('ff'); t.cells[f] = args[2]
                        nx += self.call_fn_trait(fn, [('r', f, ()), self.pair(acc, s[1])], t)
                    sts = nx
                return sts
            return None
        return super().iterate(fn, name, args, st)

def count(s): return s if isinstance(s, int) else len(s) - 1 + sum(map(count, s))
def trees(h, occ):
    """all shapes of a height whose nodes hold a number of entries in occ"""
    if h == 1: return list(occ)
    sub = trees(h - 1, occ); out = []
    for n in occ:
        todo = [()]
        for _ in range(n + 1): todo = [t + (s,) for t in todo for s in sub]
        out += todo
    return out
def sample(xs, n):
    if len(xs) <= n: return xs
    return [xs[i * (len(xs) - 1) // (n - 1)] for i in range(n)]

def lead(it):
    """(K, V) entry or key of an item"""
def interp(F, layout, key, deadline=200, n=1):
    words.Mode.unit = False; words.Mode.nokey = False
    I = Bt(F, layout, key, n)
    I.deadline = time.time() + deadline
    return I
def build(I, st, ty, shape):
    """a value of a collection type (behind references and wrappers)"""
    F = I.F; x = F.ty(ty)
    if x['k'] == 'ref':
        c = ('A', 'M'); st.cells[c] = build(I, st, x['t'], shape); return ('r', c, ())
    ci = I.coll(ty)
    if ci is None: return ('a', ty, 0, tuple(build(I, st, f['t'], shape) for f in x['v'][0]['f']))
    n = count(shape); items = client.mkitems(I, ty, 'M', n, 'map')
    for a, b in zip(items, items[1:]): st.add_lt(a[3][0][1], b[3][0][1])
    fs = x['v'][0]['f']; r = [None] * 2; r[ci[1]] = ('i', L.const(n)); ot = fs[ci[0]]['t']
    if n == 0 and I.layout == 'vec' or n == 0 and F.is_option(ot): r[ci[0]] = ('a', ot, 0, ())
    elif F.is_option(ot): r[ci[0]] = ('a', ot, 1, (I.tree(F.ty(ot)['args'][0], shape, items),))
    else: r[ci[0]] = I.tree(ot, shape, items)
    return ('a', ty, 0, tuple(r))
def sig(I, st, v): return repr(I.deep(st, v))

KINDS = {'kv': lambda e: e, 'k': lambda e: e[0], 'v': lambda e: e[1]}
def explore(I, it, st, rv, res, ctx, exp, kind, mut, ranged):
    """every interleaving of steps from both ends"""
    cell = ('IT', 'x'); st = st.copy(); st.cells[cell] = rv
    steps = [m for m in ('next', 'next_back') if m in it]
    seen = set(); todo = [(st, 0, len(exp), '')]
    def callm(m, s):
        f = it[m]
        return I.split_safe(f, m, [('r', cell, ())], s)
    while todo:
        s, lo, hi, tr = todo.pop()
        k = (lo, hi, sig(I, s, s.cells[cell]))
        if k in seen: continue
        seen.add(k); ctx['trace'] = tr
        for m in ('len', 'size_hint'):
            if m not in it: continue
            for t, v in callm(m, s.copy()):
                c = C(I, t, v, res, ctx)
                if m == 'len': check(c, tr, 'remaining length', hi - lo, num(c, v))
                else:
                    v = I.force(t, v); a = num(c, v[3][0]); b = c.opt(v[3][1]); b = None if b is None else num(c, b)
                    if ranged: check(c, tr, 'size hint bounds the remaining', True, a <= hi - lo and (b is None or b >= hi - lo) or f'{hi - lo} remain, hint {a}..{b}')
                    else: check(c, tr, 'size hint', (hi - lo, hi - lo), (a, b))
        for m in steps:
            for t, v in callm(m, s.copy()):
                c = C(I, t, v, res, ctx); o = c.opt(v); tr2 = tr + ('b' if m == 'next_back' else 'f')
                check(c, tr2, 'delivers an entry' if hi > lo else 'ends', hi > lo, o is not None)
                if o is None or hi <= lo:
                    if hi <= lo and len(tr2) < hi + 2 and not ctx.get('ended', 0) > 400: ctx['ended'] = ctx.get('ended', 0) + 1; todo.append((t, lo, hi, tr2))
                    continue
                e = exp[hi - 1 if m == 'next_back' else lo]
                got = c.entry(o) if kind == 'kv' else c.entry(o)
                check(c, tr2, 'entry', c.ren([KINDS[kind](e)]), c.ren([got]))
                if mut is not None: lend(c, I, t, o, e, kind, mut, tr2)
                todo.append((t, lo + (m == 'next'), hi - (m == 'next_back'), tr2))
        if lo == hi and mut is not None:
            c = C(I, s, rv, res, ctx)
            got, n = c.arg('M')
            inr = {s.r(e[0]) for e in exp}
            check(c, tr, 'contents afterwards', [(k, 'w:' + k if mut and k in inr else v) for k, v in ctx['all']], c.ren(got))
        if len(seen) > 60000: raise Undecided('too many positions')
def num(c, v):
    v = c.I.force(c.s, v)
    if v[0] == 'i':
        n = c.s.lin.norm(v[1])
        if L.is_const(n): return int(n[0])
    raise Undecided('count')
def check(c, tr, what, exp, got):
    c.ctx['steps'] = tr
    old = c.facts
    def facts(): return dict(old(), steps=' '.join({'f': 'next', 'b': 'next_back'}[x] for x in tr), shape=str(c.ctx['shapeof']), range=str(c.s.extra.get('rg', '')))
    c.facts = facts
    c.check(what, exp, got)
def lend(c, I, t, o, e, kind, mut, tr):
    """references lead into the map; what is written through a mutable one stays there"""
    o = I.res(t, o); refs = [o] if kind != 'kv' else list(o[3])
    for i, r in enumerate(refs):
        r = I.force(t, r)
        if r[0] != 'r': raise Undecided('item is ' + r[0])
        check(c, tr, 'refers into the map', True, r[1] == ('A', 'M'))
        if mut and (kind == 'v' or i == 1):
            old = I.get(t, r[1], r[2])
            I.put(t, r[1], r[2], ('s', 'w:' + t.r(e[0]), I.res(t, old)[2]))
def split_safe(I, f, m, args, s):
    if f.get('key') not in I.F.fns: raise Undecided('no body of ' + m)
    I.curdest = I.F.fns[f['key']]['locals'][0][0]
    todo = [s]; out = []
    while todo:
        q = todo.pop()
        try: out += I.call(dict(f, name=m), args, q)
        except Fork as fk: todo += fk.states
        except Dead: pass
    return out
Bt.split_safe = split_safe

def run(F, disp, kind, mut, shapes, ranged=False, layout='vec', deadline=400):
    import tasks
    it = next((i for i in F.iters if F.disp_of(i['fn']) == disp), None)
    key = F.key_of(disp)
    if not key or not it or 'next' not in it: return tasks.missing(disp)
    res = Result(); errs = []; stmts = 0; funcs = set(); cases = 0; t0 = time.time()
    for shape in shapes:
        I = interp(F, layout, key, max(1, deadline - (time.time() - t0)))
        if ranged: I.hooks['range'] = True
        st = St(); f = F.fns[key]; ctx = dict(orig={}, shapeof=shape)
        try:
            args = [build(I, st, f['locals'][1][0], shape)]
            for i in range(1, f['argc']): args.append(('s', 'range', f['locals'][i + 1][0]))
            for a in range(1): pass
            c0 = C(I, st, None, res, ctx)
            allv = c0.contents(args[0])[0]; ctx['all'] = allv; ctx['orig'] = dict(M=allv)
            I.panicked = []; I.lost = {}
            outs = I.S.run_top(key, args, st)
            for s, rv in outs:
                cs = [(s, ())]
                if ranged:
                    if 'rg' not in s.extra: raise Undecided('the bounds are never read')
                    for e in allv:
                        nx = []
                        for t, acc in cs:
                            for u, b in I.inrange(I, t, e[0]): nx.append((u, acc + ((e,) if b else ())))
                        cs = nx
                else: cs = [(s, tuple(allv))]
                for t, exp in cs:
                    cases += 1
                    explore(I, it, t, rv, res, ctx, [tuple(e) for e in exp], kind, mut, ranged)
        except Undecided as e:
            errs.append((str(shape), e.why + ' in ' + ' > '.join(F.fns[k]['path'].split('::', 1)[-1] for k in I.fnstack[-4:]))); I.fnstack.clear(); I.S.stack.clear()
        except Panic as e:
            I.panicked.append((st, ('panic', e.why)))
        res.lost.update(I.lost)
        for s, w in I.panicked:
            res.n += 1
            cc = C(I, s, None, res, ctx)
            if s.und: res.und.setdefault('completes', ('returns', w[1], s.und))
            else: res.viol.setdefault('completes', dict(expected='returns', got=str(w[1]), instance=dict(cc.facts(), shape=str(shape), steps=ctx.get('trace', ''), range=str(s.extra.get('rg', ''))), trace=()))
        stmts += I.stats['stmts']; funcs |= I.analysed
    und = [(w, v) for w, v in res.und.items()] + [('analysis', x) for x in errs[:3]] + [('path given up', f'{w} in {f}') for w, f in res.lost.items()]
    return dict(obligations=res.n + len(errs) + len(res.lost), discharged=res.good, viol=list(res.viol.items()), und=und,
                info=dict(function=F.fns[key]['disp'], iterator=F.tstr(it['ty']), cases=cases, functions_analysed=len(funcs), statements=stmts, bounded=f'{len(shapes)} tree shapes of up to {max(map(count, shapes))} entries'))
