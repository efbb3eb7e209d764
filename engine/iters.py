"""Specifications of iterators: a queue holding an arbitrary sequence, advanced from either end."""
import lin as L
from absint import *
from words import Words, Mode
import avl_api, seqs

def build(I, st, ctx, ty, name, depth=0):
    """an arbitrary iterator value: every queue holds an unknown sequence, every counter an unknown number"""
    F = I.F; x = F.ty(ty); k = x['k']
    if depth > 12: raise Undecided('iterator type too deep')
    if F.is_vec(ty) and k == 'struct':
        n = 'Q' + name + (str(len(ctx['queues'])) if ctx['queues'] else '')
        ctx['queues'].append(n)
        return ('vec', ty, (('q', n),))
    if k == 'uint':
        v = L.var('len!' + name + (str(len(ctx['ints'])) if ctx['ints'] else '')); st.ge(v); ctx['ints'].append(v)
        return ('i', v)
    if k == 'struct' and x.get('v'):
        return ('a', ty, 0, tuple(build(I, st, ctx, f['t'], name, depth + 1) for f in x['v'][0]['f']))
    if k == 'closure':
        if x['ups']: raise Undecided('iterator closure with captures')
        return ('a', ty, 0, ())
    if k == 'tuple': return ('a', None, 0, tuple(build(I, st, ctx, t, name, depth + 1) for t in x['ts']))
    return I.mk(st, name + '!', ty)
def find(I, st, v, out, depth=0):
    """queues and counters of an iterator value"""
    v = I.res(st, v)
    if v[0] == 'vec': out.setdefault('q', []).append(v)
    elif v[0] == 'i': out.setdefault('n', []).append(v[1])
    elif v[0] == 'a':
        for f in v[3]: find(I, st, f, out, depth + 1)
    return out
def word_of(c, v):
    """the sequence an iterator value still has to deliver"""
    v = c.deref(v)
    d = find(c.I, c.s, v, {})
    if len(d.get('q', ())) != 1: raise Undecided('iterator without a single queue')
    return seqs.seqword(c.I, c.s, d['q'][0]), (d.get('n') or [None])[0]
def item(c, v):
    """(key, value) delivered, None for a missing component"""
    ps = seqs.parts(c.I, c.s, v)
    k = [p[1] for p in ps if p[0] == 'K']; w = [p[1] for p in ps if p[0] == 'V']
    if len(k) > 1 or len(w) > 1 or len(k) + len(w) != len(ps): raise Undecided('item shape')
    return (c.W.key(k[0]) if k else None), (c.W.val(w[0]) if w else None)
def s_next(which, want):
    hk, hv, rest = ('hdk', 'hdv', 'tl') if which == 'next' else ('lsk', 'lsv', 'in')
    def f(c):
        D = c.ctx['queues'][0]
        ne = c.nonempty(D)
        w, n = word_of(c, c.s.cells[('A', 'D')])
        o = c.opt(c.rv)
        c.flag('delivers', ne, o is not None)
        if want == 'len':
            if n is None: return
            exp = L.sub(c.ctx['ints'][0], L.const(1 if ne else 0))
            d = c.s.lin.norm(L.sub(n, exp))
            if c.s.lin.entails_eq(d): return c.ok('remaining-count')
            return c.flag('remaining-count', 'one less' if ne else 'unchanged', 'off by ' + str(d[0]) if L.is_const(d) else 'unrelated')
        if not ne: c.word('remaining', (), w); return
        c.word('remaining', ((rest, D),), w)
        if o is not None:
            k, v = item(c, o)
            if k is None and v is None: raise Undecided('empty item')
            if k is not None: c.keys('item-key', c.W.key(('tm', (hk, D))), k)
            if v is not None and not Mode.unit: c.vals('item-value', c.W.val(('tm', (hv, D))), v)
    return f
def s_make(c):
    """a freshly made iterator covers the whole container, and (borrowed) leaves it alone"""
    w, n = word_of(c, c.rv)
    c.word('covers', (('t', 'M'),), w)
    if n is not None:
        d = c.s.lin.norm(L.sub(n, dict(c.ctx['lens'])['M']))
        if c.s.lin.entails_eq(d): c.ok('count')
        else: c.flag('count', 'number of entries', 'off by ' + str(d[0]) if L.is_const(d) else 'unrelated')
    if ('A', 'M') in c.s.cells: c.word('contents-unchanged', (('t', 'M'),), avl_api.cellword(c, 'M'))
def rangeword(c, S):
    """the entries of S in the range, by cases on the entries and subtrees that are not yet placed"""
    out = ()
    if 'rg' not in c.s.extra: raise Undecided('the bounds are never read')
    lk, uk = c.s.extra['rg']
    for a in c.W.nf((('t', S),)):
        if a[0] == 'e':
            r = c.I.inrange(c.I, c.s, c.W.key(a[1]))
            if len(r) != 1: raise Fork([s for s, _ in r])
            if r[0][1]: out += (a,)
        elif a[0] == 't':
            q = {'<': True, '0': True}
            ok = lk == 'U' or c.W.tree_rel(a[1], 'rg.lb') == '>'; lo = lk != 'U' and c.W.tree_rel(a[1], 'rg.lb') == '<'
            up = uk == 'U' or c.W.tree_rel(a[1], 'rg.ub') == '<'; hi = uk != 'U' and c.W.tree_rel(a[1], 'rg.ub') == '>'
            if lo or hi: continue
            if ok and up: out += (a,); continue
            v = c.I.force(c.s, ('s', a[1], c.ctx['tree_ty']))
            if v[0] == 'a' and v[2] == 1:
                v = c.I.force(c.s, v[3][0])
                if v[0] == 'arc': c.I.force(c.s, v[1])
            raise Undecided('place of ' + a[1])
        else: raise Undecided('word in ' + a[0])
    return out
def s_range(c):
    w, n = word_of(c, c.rv)
    c.word('covers the range', rangeword(c, 'M'), w)
    if ('A', 'M') in c.s.cells: c.word('contents-unchanged', (('t', 'M'),), avl_api.cellword(c, 'M'))
def s_size(exact):
    def f(c):
        n = c.ctx['ints'][0]
        v = c.force(c.rv)
        def same(x, what):
            x = c.force(x)
            if x[0] != 'i': raise Undecided('count is ' + x[0])
            d = c.s.lin.norm(L.sub(x[1], n))
            if c.s.lin.entails_eq(d): c.ok(what)
            else: c.flag(what, 'remaining', 'off by ' + str(d[0]) if L.is_const(d) else 'unrelated')
        if v[0] == 'i': return same(v, 'len')
        lo, hi = c.tup(v)
        h = c.opt(hi)
        if exact:
            same(lo, 'lower bound')
            if h is None: c.flag('upper bound', 'remaining', 'none')
            else: same(h, 'upper bound')
        else:
            lo = c.force(lo)
            if c.s.lin.entails_eq(lo[1]): c.ok('lower bound')
            else: c.flag('lower bound', 0, 'more')
            if h is None: c.ok('upper bound')
            else:
                # any bound not below the number of remaining entries is allowed; the queue holds at most n
                h = c.force(h)
                if c.s.lin.entails_ge(L.sub(h[1], n)): c.ok('upper bound')
                else: c.flag('upper bound', 'at least the remaining', 'less')
    return f
