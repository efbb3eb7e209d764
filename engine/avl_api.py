"""Sequence specifications of the AVL map operations."""
import lin as L
from absint import *
from spec import Case, run, Result

def fnkey(F, *suffix):
    """identity-instantiated local function whose displayed path ends with one of the suffixes"""
    for sfx in suffix:
        for k in F.local_identity():
            if F.fns[k]['disp'].endswith(sfx): return k
    return None

class Build:
    """builds symbolic arguments"""
    def __init__(self, I): self.I = I; self.F = I.F; self.lens = []
    def structval(self, st, ty, name):
        x = self.F.ty(ty); vals = []
        for f in x['v'][0]['f']:
            r = self.I.R.role(f['t'])
            if r == 'opt':
                vals.append(('s', name, f['t']))
                if self.I.R.btree: st.attr[name] = (1, self.I.R.MAX, None)
            elif self.F.ty(f['t'])['k'] in ('uint',):
                v = L.var('len!' + name); st.ge(v); vals.append(('i', v)); self.lens.append((name, v))
            else: vals.append(self.I.mk(st, f"{name}!{f['n']}", f['t']))
        return ('a', ty, 0, tuple(vals))
    def arg(self, st, ctx, ty, name):
        x = self.F.ty(ty)
        if x['k'] == 'ref':
            inner = x['t']
            c = ('A', name)
            st.cells[c] = self.inner(st, ctx, inner, name)
            return ('r', c, ())
        return self.inner(st, ctx, ty, name)
    def inner(self, st, ctx, ty, name):
        x = self.F.ty(ty)
        if x['k'] == 'struct' and x.get('local') and x['v'] and any(self.I.R.role(f['t']) == 'opt' for f in x['v'][0]['f']):
            ctx.setdefault('maps', {})[name] = ty
            return self.structval(st, ty, name)
        if x['k'] == 'struct' and x.get('local') and x['v'] and any(self.F.ty(f['t'])['k'] == 'struct' and self.F.ty(f['t']).get('local') for f in x['v'][0]['f']):
            # wrapper (set over map)
            fs = [self.inner(st, ctx, f['t'], name) for f in x['v'][0]['f']]
            return ('a', ty, 0, tuple(fs))
        return self.I.mk(st, name, ty)

def builder(names, order=(), pre=None):
    def build(I, st, ctx, key=None):
        f = I.F.fns[ctx['key']]
        b = Build(I); args = []
        for i in range(f['argc']):
            args.append(b.arg(st, ctx, f['locals'][i + 1][0], names[i]))
        for a, c in order: st.add_lt(a, c)
        if pre: pre(I, st, ctx)
        ctx['lens'] = b.lens
        return args
    return build

def mapword(c, v):
    """contents of a map-like struct value"""
    v = c.deref(v)
    v = c.force(v)
    if v[0] != 'a': raise Undecided('map value ' + v[0])
    x = c.I.F.ty(v[1])
    for i, f in enumerate(x['v'][0]['f']):
        if c.I.R.role(f['t']) == 'opt': return c.I.R.word(c.I, c.s, v[3][i], f['t'])
    for i, f in enumerate(x['v'][0]['f']):
        y = c.I.F.ty(f['t'])
        if y['k'] == 'struct' and y.get('local'): return mapword(c, v[3][i])
    raise Undecided('no root')
def cellword(c, name): return mapword(c, c.s.cells[('A', name)])

T = lambda S: (('t', S),)
def lag(S, k): return (('lt', S, k),), (('gt', S, k),)

# ------------------------------------------------------------------ specifications
def s_insert(c, val=True):
    p = c.split('M', 'k')
    l, g = lag('M', 'k')
    c.word('contents', l + (('e', 'k', ('s', 'v')),) + g, cellword(c, 'M'))
    o = c.opt(c.rv)
    c.flag('reports-presence', p, o is not None)
    if p and o is not None: c.vals('previous-value', c.W.val(('tm', ('atv', 'M', 'k'))), c.val(o))
def s_remove(entry):
    def f(c):
        p = c.split('M', 'k')
        l, g = lag('M', 'k')
        c.word('contents', l + g, cellword(c, 'M'))
        o = c.opt(c.rv)
        c.flag('reports-presence', p, o is not None)
        if p and o is not None:
            if entry:
                t = c.tup(o); c.keys('removed-key', c.W.key('k'), c.key(t[0])); o = t[1]
            c.vals('removed-value', c.W.val(('tm', ('atv', 'M', 'k'))), c.val(o))
    return f
def s_set_insert(c):
    p = c.split('M', 'k')
    l, g = lag('M', 'k')
    c.word('contents', l + (('e', 'k', UNIT),) + g, cellword(c, 'M'))
    c.flag('reports-newly-inserted', not p, c.bool(c.rv))
def s_set_replace(c):
    p = c.split('M', 'k')
    l, g = lag('M', 'k')
    c.word('contents', l + (('e', 'k', UNIT),) + g, cellword(c, 'M'))
    o = c.opt(c.rv)
    c.flag('reports-presence', p, o is not None)
    if p and o is not None: c.keys('replaced-value', c.W.key('k'), c.key(o))
def s_set_remove(c):
    p = c.split('M', 'k')
    l, g = lag('M', 'k')
    c.word('contents', l + g, cellword(c, 'M'))
    c.flag('reports-presence', p, c.bool(c.rv))
def s_set_take(c):
    p = c.split('M', 'k')
    l, g = lag('M', 'k')
    c.word('contents', l + g, cellword(c, 'M'))
    o = c.opt(c.rv)
    c.flag('reports-presence', p, o is not None)
    if p and o is not None: c.keys('taken-value', c.W.key('k'), c.key(o))
def s_is_empty(c):
    ne = c.nonempty('M')
    c.word('contents-unchanged', T('M') if ne else (), cellword(c, 'M'))
    c.flag('is-empty', not ne, c.bool(c.rv))
def s_get(kind):
    def f(c):
        p = c.split('M', 'k')
        c.word('contents-unchanged', T('M'), cellword(c, 'M'))
        if kind == 'contains': c.flag('reports-presence', p, c.bool(c.rv)); return
        o = c.opt(c.rv)
        c.flag('reports-presence', p, o is not None)
        if p and o is not None:
            if kind == 'kv':
                t = c.tup(o); c.keys('found-key', c.W.key('k'), c.key(t[0])); o = t[1]
            if kind == 'key': c.keys('found-key', c.W.key('k'), c.key(o)); return
            c.vals('found-value', c.W.val(('tm', ('atv', 'M', 'k'))), c.val(o))
    return f
def s_end(which, pop, setlike=False):
    hk, hv, rest = ('hdk', 'hdv', 'tl') if which == 'first' else ('lsk', 'lsv', 'in')
    def f(c):
        ne = c.nonempty('M')
        if not ne: c.word('contents', (), cellword(c, 'M'))
        else: c.word('contents', ((rest, 'M'),) if pop else T('M'), cellword(c, 'M'))
        o = c.opt(c.rv)
        c.flag('reports-nonempty', ne, o is not None)
        if ne and o is not None:
            t = (o, None) if setlike else c.tup(o)
            c.keys('end-key', c.W.key(('tm', (hk, 'M'))), c.key(t[0]))
            if not setlike: c.vals('end-value', c.W.val(('tm', (hv, 'M'))), c.val(t[1]))
    return f
def s_split_off(c):
    p = c.split('M', 'k')
    c.word('kept', (('lt', 'M', 'k'),), cellword(c, 'M'))
    c.word('moved', (('at', 'M', 'k'), ('gt', 'M', 'k')), mapword(c, c.rv))
def s_append(c):
    c.word('merged', (('F', (True, True, 'r'), 'M', 'N'),), cellword(c, 'M'))
    c.word('drained', (), cellword(c, 'N'))
def s_merge(pol):
    def f(c): c.word('merged', (('F', pol, 'M', 'N'),), mapword(c, c.rv))
    return f
def s_join(c):
    c.word('joined', T('M') + (('e', 'k', ('s', 'v')),) + T('N'), mapword(c, c.rv))
def s_clear(c): c.word('contents', (), cellword(c, 'M'))
def s_new(c): c.word('contents', (), mapword(c, c.rv))
def s_clone(c):
    c.flag('clone-length', True, len_same(c))
    c.word('clone', T('M'), mapword(c, c.rv)); c.word('contents-unchanged', T('M'), cellword(c, 'M'))
def s_retain(c):
    c.word('contents', (('flt', 'M'),), cellword(c, 'M'))
    c.word('visits', T('M'), c.s.ev)
def s_foreach(c):
    c.word('visits', T('M'), c.s.ev)
    c.word('contents-unchanged', T('M'), cellword(c, 'M'))
def s_index(c):
    p = c.split('M', 'k')
    c.flag('present', True, p)
    c.vals('found-value', c.W.val(('tm', ('atv', 'M', 'k'))), c.val(c.rv))

def pre_join(I, st, ctx):
    st.add_lt(('t', 'M'), 'k'); st.add_lt('k', ('t', 'N'))

KEEP = (True, True, 'r'); 
MAP = [
 ('insert', ['M', 'k', 'v'], s_insert, {}),
 ('remove', ['M', 'k'], s_remove(False), {}),
 ('remove_entry', ['M', 'k'], s_remove(True), {}),
 ('get', ['M', 'k'], s_get('v'), {}),
 ('get_mut', ['M', 'k'], s_get('v'), {}),
 ('get_key_value', ['M', 'k'], s_get('kv'), {}),
 ('contains_key', ['M', 'k'], s_get('contains'), {}),
 ('first_key_value', ['M'], s_end('first', False), {}),
 ('last_key_value', ['M'], s_end('last', False), {}),
 ('pop_first', ['M'], s_end('first', True), {}),
 ('pop_last', ['M'], s_end('last', True), {}),
 ('split_off', ['M', 'k'], s_split_off, {}),
 ('append', ['M', 'N'], s_append, {}),
 ('new_union', ['M', 'N'], s_merge((True, True, 'r')), {}),
 ('new_intersect', ['M', 'N'], s_merge((False, False, 'l')), {}),
 ('new_diff', ['M', 'N'], s_merge((True, False, None)), {}),
 ('new_sym_diff', ['M', 'N'], s_merge((True, True, None)), {}),
 ('new_join', ['M', 'k', 'v', 'N'], s_join, {'pre': pre_join}),
 ('clear', ['M'], s_clear, {}),
 ('new', [], s_new, {}),
 ('retain', ['M', 'f'], s_retain, {}),
 ('for_each', ['M', 'f'], s_foreach, {}),
]

MAP += [
 ('for_each_mut', ['M', 'f'], lambda c: s_foreach_mut(c), {}),
 ('is_empty', ['M'], s_is_empty, {}),
 ('clone', ['M'], lambda c: s_clone(c), {}),
]
def s_foreach_mut(c):
    c.word('visits', T('M'), c.s.ev)
    c.word('contents', (('map', 'M'),), cellword(c, 'M'))
SET = [
 ('insert', ['M', 'k'], s_set_insert, {}),
 ('replace', ['M', 'k'], s_set_replace, {}),
 ('remove', ['M', 'k'], s_set_remove, {}),
 ('take', ['M', 'k'], s_set_take, {}),
 ('get', ['M', 'k'], s_get('key'), {}),
 ('contains', ['M', 'k'], s_get('contains'), {}),
 ('first', ['M'], s_end('first', False, True), {}),
 ('last', ['M'], s_end('last', False, True), {}),
 ('pop_first', ['M'], s_end('first', True, True), {}),
 ('pop_last', ['M'], s_end('last', True, True), {}),
 ('clear', ['M'], s_clear, {}),
 ('new', [], s_new, {}),
 ('is_empty', ['M'], s_is_empty, {}),
 ('clone', ['M'], lambda c: s_clone(c), {}),
 ('split_off', ['M', 'k'], s_split_off, {}),
 ('append', ['M', 'N'], s_append, {}),
 ('new_union', ['M', 'N'], s_merge((True, True, 'r')), {}),
 ('new_intersection', ['M', 'N'], s_merge((False, False, 'l')), {}),
 ('new_diff', ['M', 'N'], s_merge((True, False, None)), {}),
 ('new_sym_diff', ['M', 'N'], s_merge((True, True, None)), {}),
 ('retain', ['M', 'f'], s_retain, {}),
]

# ------------------------------------------------------------------ shape and stored length
def root_of(c, v):
    v = c.force(c.deref(v))
    if v[0] != 'a': raise Undecided('map value ' + v[0])
    x = c.I.F.ty(v[1])
    for i, f in enumerate(x['v'][0]['f']):
        if c.I.R.role(f['t']) == 'opt': return v[3][i], f['t'], v
    for i, f in enumerate(x['v'][0]['f']):
        y = c.I.F.ty(f['t'])
        if y['k'] == 'struct' and y.get('local'): return root_of(c, v[3][i])
    raise Undecided('no root')
def stored_len(c, v):
    """the value of the counter stored beside the root"""
    m = root_of(c, v)[2]; x = c.I.F.ty(m[1])
    for i, f in enumerate(x['v'][0]['f']):
        if c.I.F.ty(f['t'])['k'] == 'uint':
            q = c.force(m[3][i])
            if q[0] != 'i': raise Undecided('length is ' + q[0])
            return q[1]
    raise Undecided('no length field')
def s_shape(c, v):
    """the B-tree in v is well formed"""
    I, s = c.I, c.s; R = I.R
    r, ty, _ = root_of(c, v)
    r = c.force(r)
    if r[0] == 'a' and R.role(r[1]) == 'opt' and r[2] == 0: return c.ok('shape')
    S = R.fold(I, s, r, ty)
    if S in s.empty: return c.ok('shape')
    lo, hi, bad = R.occ(s, S)
    if bad: return c.flag('shape', 'well formed', bad)
    if hi > R.MAX: return c.flag('shape', f'at most {R.MAX} entries in the root', f'{lo}..{hi} entries')
    if lo < 1: return c.flag('shape', 'a root with entries', f'{lo}..{hi} entries')
    c.ok('shape')
def s_len(c, v, delta, ctx):
    n0 = dict(ctx['lens'])
    exp = L.add(n0['M'], L.const(delta)) if delta is not None else L.ZERO
    n1 = stored_len(c, v)
    d = c.s.lin.norm(L.sub(n1, exp))
    if L.is_const(d) and d[0] == 0: return c.ok('length')
    w = c.W.nf(mapword(c, v))
    if all(a[0] == 'e' for a in w) and c.s.lin.entails_eq(L.sub(n1, L.const(len(w)))): return c.ok('length')
    c.flag('length', 'exact', f'off by {d[0]}' if L.is_const(d) else 'unrelated: ' + str(d)[:80])
def len_same(c):
    if not c.ctx.get('lens'): return True
    d = c.s.lin.norm(L.sub(stored_len(c, c.rv), dict(c.ctx['lens'])['M']))
    return True if L.is_const(d) and d[0] == 0 else 'length ' + str(d)[:60]
# change of the number of elements; None: the result starts from nothing
def d_ins(c): return 0 if c.split('M', 'k') else 1
def d_rem(c): return -1 if c.split('M', 'k') else 0
def d_pop(c): return -1 if c.nonempty('M') else 0
DELTA = {'insert': d_ins, 'replace': d_ins, 'remove': d_rem, 'remove_entry': d_rem, 'take': d_rem, 'pop_first': d_pop, 'pop_last': d_pop,
         'clear': lambda c: None, 'new': lambda c: None}
def aspect(name, sp, which):
    """the part of the specification of an operation that concerns one aspect"""
    if which == 'seq': return sp
    def f(c):
        v = c.s.cells[('A', 'M')] if ('A', 'M') in c.s.cells else c.rv
        if which == 'shape': s_shape(c, v)
        if which == 'len': s_len(c, v, DELTA[name](c) if name in DELTA else 0, c.ctx)
    return f
