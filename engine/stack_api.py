"""Specifications of the stack operations; a stack's word reads from the top down."""
import lin as L
from absint import *
from words import Words, Mode
import avl_api, seqs
from avl_api import T, mapword, cellword, stored_len

def tail(S): return (('tl', S),)
def ln(c, v, delta):
    """the stored length"""
    exp = L.ZERO if delta is None else L.add(dict(c.ctx['lens'])['M'], L.const(delta))
    d = c.s.lin.norm(L.sub(stored_len(c, v), exp))
    if c.s.lin.entails_eq(d): c.ok('length')
    else: c.flag('length', 'exact', 'off by ' + str(d[0]) if L.is_const(d) else 'unrelated')
def cell(c, v=None): return c.s.cells[('A', 'M')]
def s_new(c): c.word('contents', (), mapword(c, c.rv)); ln(c, c.rv, None)
def s_push(c):
    c.word('contents', (('e', '*', ('s', 'v')),) + T('M'), cellword(c, 'M')); ln(c, cell(c), 1)
def s_pop(c):
    ne = c.nonempty('M'); o = c.opt(c.rv)
    c.flag('returns-element', ne, o is not None)
    c.word('contents', tail('M') if ne else (), cellword(c, 'M'))
    if ne and o is not None: c.vals('element', c.W.val(('tm', ('hdv', 'M'))), c.val(o))
    ln(c, cell(c), -1 if ne else 0)
def s_top(mut):
    def f(c):
        ne = c.nonempty('M'); o = c.opt(c.rv)
        c.flag('returns-element', ne, o is not None)
        c.word('contents-unchanged', T('M'), cellword(c, 'M')); ln(c, cell(c), 0)
        if ne and o is not None:
            c.vals('element', c.W.val(('tm', ('hdv', 'M'))), c.val(o))
            if mut:
                r = c.force(o)
                if r[0] != 'r': raise Undecided('result is not a reference')
                c.flag('element lives in the stack', True, r[1] == ('A', 'M'))
    return f
def s_len(c):
    v = c.force(c.rv)
    if c.s.lin.entails_eq(L.sub(v[1], dict(c.ctx['lens'])['M'])): c.ok('reports the length')
    else:
        d = c.s.lin.norm(L.sub(v[1], dict(c.ctx['lens'])['M']))
        c.flag('reports the length', 'length', 'off by ' + str(d[0]) if L.is_const(d) else 'unrelated')
    c.word('contents-unchanged', T('M'), cellword(c, 'M'))
def s_is_empty(c): c.flag('reports emptiness', not c.nonempty('M'), c.bool(c.rv)); c.word('contents-unchanged', T('M'), cellword(c, 'M'))
def s_clear(c): c.word('contents', (), cellword(c, 'M')); ln(c, cell(c), None)
def s_clone(c): avl_api.s_clone(c)
def whole(c, S):
    """the entries of S as far as they are materialised, then the rest"""
    w = c.W.nf(T(S))
    return w
def pos(c, l):
    n = c.s.lin.norm(l)
    if not L.is_const(n): raise Undecided('position ' + str(n)[:60])
    return int(n[0])
def s_remove(c):
    n = dict(c.ctx['lens'])['M']; w = c.W.nf(T('M'))
    p = pos(c, L.sub(L.sub(n, L.const(1)), L.var('at')))
    if p < 0 or p >= len(w) or any(a[0] != 'e' for a in w[:p + 1]): raise Undecided('position outside of the materialised part')
    c.word('contents', w[:p] + w[p + 1:], cellword(c, 'M'))
    c.vals('element', w[p][2], c.val(c.rv))
    ln(c, cell(c), -1)
def s_split_off(c):
    n = dict(c.ctx['lens'])['M']; w = c.W.nf(T('M')); a = L.var('at')
    ent = c.s.lin.entails_eq
    if ent(a): top, bot = w, ()
    else:
        p = pos(c, L.sub(n, a))
        if p < 0 or p > len(w) or any(x[0] != 'e' for x in w[:p]): raise Undecided('position outside of the materialised part')
        top, bot = w[:p], w[p:]
    c.word('kept', bot, cellword(c, 'M')); c.word('split off', top, mapword(c, c.rv))
    for what, v, exp in (('length kept', cell(c), a), ('length split off', c.rv, L.sub(n, a))):
        d = c.s.lin.norm(L.sub(stored_len(c, v), exp))
        if ent(d): c.ok(what)
        else: c.flag(what, 'exact', 'off by ' + str(d[0]) if L.is_const(d) else 'unrelated')
def oob(rel):
    def f(c): c.flag('panics', 'panics', 'returns')
    return f
# iterators over a list: the word still to come is what the iterator's reference leads to
def s_make(c):
    c.word('covers', T('M'), iterword(c, c.rv))
    if ('A', 'M') in c.s.cells: c.word('contents-unchanged', T('M'), cellword(c, 'M'))
def iterword(c, v):
    v = c.deref(v)
    return tuple(a for p in seqs.parts(c.I, c.s, v) for a in (p[1] if p[0] == 'w' else (('e', '*', p[1]),)))
def s_next(c):
    w0 = c.W.nf(c.s.extra['before']); w1 = iterword(c, c.s.cells[('A', 'D')])
    ne = bool(w0) and (w0[0][0] == 'e' or c.nonempty(w0[0][1]))
    w0 = c.W.nf(c.s.extra['before'])
    o = c.opt(c.rv); c.flag('delivers', ne, o is not None)
    if not ne: c.word('remaining', (), w1); return
    if o is not None: c.word('item and remaining', w0, (('e', '*', c.I.cterm(c.s, c.deref(o))),) + tuple(w1))
    for cn, v in c.s.extra.get('under', ()):
        c.word('stack unchanged', v, tuple(a for p in seqs.parts(c.I, c.s, c.s.cells[cn]) for a in p[1]))
    if c.ctx.get('mut') and o is not None:
        r = c.force(o)
        c.flag('item lives in the stack', True, r[0] == 'r' and any(r[1] == cn for cn, _ in c.s.extra.get('under', ())))

OPS = [
 ('new', [], s_new), ('push', ['M', 'v'], s_push), ('pop', ['M'], s_pop), ('top', ['M'], s_top(False)), ('top_mut', ['M'], s_top(True)),
 ('len', ['M'], s_len), ('clear', ['M'], s_clear), ('is_empty', ['M'], s_is_empty), ('clone', ['M'], s_clone),
 ('iter', ['M'], s_make), ('iter_mut', ['M'], s_make), ('into_iter', ['M'], s_make),
 ('remove', ['M', 'at'], s_remove), ('split_off', ['M', 'at'], s_split_off),
]
