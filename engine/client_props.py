"""Properties of the operations written on top of the collections (see client.py)."""
import re, time, itertools
import lin as L
import client, roles, words, facts, hooks
from client import C, Result, Client
from absint import *

def interp(F, key, deadline=120):
    words.Mode.unit = False; words.Mode.nokey = False
    I = Client(F, roles.AvlRoles(F), key)
    I.deadline = time.time() + deadline
    I.hooks['callback'] = lambda I, f, args, st: I.user_callback(f, args, st)
    return I
def merge(c, a, b, keep, left=True):
    """the elements of two sorted lists on the left only, common, on the right only, as kept"""
    out = []; i = j = 0
    while i < len(a) or j < len(b):
        n = 1 if i == len(a) else -1 if j == len(b) else c.cmp(a[i][0], b[j][0])
        if n < 0: 
            if keep[0]: out.append(a[i])
            i += 1
        elif n > 0:
            if keep[2]: out.append(b[j])
            j += 1
        else:
            if keep[1]: out.append(a[i] if left else b[j])
            i += 1; j += 1
    return out
DIFF, INTER, UNION, SYM = (1, 0, 0), (0, 1, 0), (1, 1, 1), (1, 0, 1)

# ------------------------------------------------------------------ set algebra
def newset(keep):
    def f(c):
        got, n = c.contents(c.rv); exp = c.ren(merge(c, c.orig('M'), c.orig('N'), keep))
        c.check('contents', c.ren(exp), c.ren(got)); c.check('length', len(exp), n)
    return f
def setpred(fn):
    def f(c):
        c.check('answer', fn(c, c.orig('M'), c.orig('N')), c.bool())
        for n in 'MN': c.check('unchanged', c.orig(n), c.ren(c.arg(n)[0]))
    return f
def lazy(keep):
    def f(c):
        exp = [x[0] for x in merge(c, c.orig('M'), c.orig('N'), keep)]
        c.check('elements', c.ren(exp), c.ren([c.I.sym(c.s, x) for x in c.ctx['drained'][id(c.rv)]] if False else c.drained))
    return f
def drain(I, st, v, limit=400):
    """[(state, elements)] of an iterator consumed with next() until it ends"""
    todo = [(st, ())]; out = []; cell = ('IT', 'drain')
    st.cells[cell] = v
    while todo:
        s, acc = todo.pop()
        if len(acc) > limit: raise Undecided('iterator does not end')
        for t, r in I.inext(s, cell, (), None):
            r = I.force(t, r)
            if r[2] == 0:
                for u, q in I.inext(t, cell, (), None):
                    q = I.force(u, q)
                    out.append((u, acc if q[2] == 0 else acc + (I.sym(u, q[3][0]) + ' after the end',)))
            else: todo.append((t, acc + (r[3][0],)))
    return out
def fin(spec_el):
    """a spec on all elements that the returned iterator gives"""
    def f(c):
        for s, els in drain(c.I, c.s, c.rv):
            d = C(c.I, s, c.rv, c.res, c.ctx)
            spec_el(d, [x if isinstance(x, str) else d.entry(x) for x in els])
    return f
def setiter(keep):
    def g(d, els):
        exp = [x[0] for x in merge(d, d.orig('M'), d.orig('N'), keep)]
        d.check('elements', d.ren(exp), d.ren(els))
    return fin(g)
def common(c, a, b): return [x for x in merge(c, a, b, INTER)]
PREDS = {'is_subset': lambda c, a, b: len(common(c, a, b)) == len(a), 'is_superset': lambda c, a, b: len(common(c, a, b)) == len(b), 'is_disjoint': lambda c, a, b: not common(c, a, b)}
SETS = {'avlset': 'avl::avl_set::AvlSet::<T>::', 'btset': 'btree::btree_set::BTreeSet::<T, N>::'}
SETI = {'avlset': '<&avl::avl_set::AvlSet<K> as std::ops::{}>::{}', 'btset': '<&btree::btree_set::BTreeSet<K, N> as std::ops::{}>::{}'}
LAZY = {'difference': DIFF, 'intersection': INTER, 'union': UNION, 'symmetric_difference': SYM}
NEW = {'new_diff': DIFF, 'new_intersection': INTER, 'new_union': UNION, 'new_sym_diff': SYM}
OPS = {('Sub', 'sub'): DIFF, ('BitAnd', 'bitand'): INTER, ('BitOr', 'bitor'): UNION, ('BitXor', 'bitxor'): SYM}
def entry(disp, names, spec, sizes, **kw): return dict(disp=disp, names=names, spec=spec, sizes=sizes, **kw)
def pairs(n, extra=()): return [dict(M=a, N=b) for a in range(n + 1) for b in range(n + 1)] + [dict(M=a, N=b) for a, b in extra]
SPECS = {}
BIG = ((1, 4), (1, 5), (4, 1), (5, 1), (2, 8))
for s, pre in SETS.items():
    for n, k in LAZY.items(): SPECS[f'{s}.{n}'] = entry(pre + n, 'MN', setiter(k), pairs(3))
    for n, p in PREDS.items():
      if s == 'btset' or n == 'is_disjoint': SPECS[f'{s}.{n}'] = entry(pre + n, 'MN', setpred(p), pairs(3))
    for n, k in NEW.items():
      if s == 'btset': SPECS[f'{s}.{n}'] = entry(pre + n, 'MN', newset(k), pairs(3, BIG))
    for (t, m), k in OPS.items(): SPECS[f'{s}.{m}'] = entry(SETI[s].format(t, m), 'MN', newset(k), pairs(3))

# ------------------------------------------------------------------ comparison and hashing
def s_eq(c):
    a, b = c.orig('M'), c.orig('N')
    exp = len(a) == len(b)
    if exp:
        for x, y in zip(flat(a), flat(b)):
            if c.same(x, y) is False: exp = False; break
    c.check('answer', exp, c.bool())
def flat(xs): return [y for x in xs for y in (x if isinstance(x, tuple) else (x,))]
def s_order(partial):
    def f(c):
        a, b = flat(c.orig('M')), flat(c.orig('N')); exp = (len(a) > len(b)) - (len(a) < len(b))
        for x, y in zip(a, b):
            n = c.cmp(x, y, partial)
            if n != 0: exp = n; break
        v = c.I.force(c.s, c.rv)
        if partial: v = c.opt(v); v = c.I.force(c.s, v) if v is not None else None
        got = None if v is None else c.I.F.ty(v[1])['v'][v[2]]['n']
        c.check('answer', {None: None, -1: 'Less', 0: 'Equal', 1: 'Greater'}[exp], got)
    return f
def hashes(c):
    """what is fed to the hasher depends on the contents only"""
    ev = tuple(c.s.ev)
    if any(e[0] == '?' for e in ev): raise Undecided('hash of an unknown value')
    exp = c.ctx['memo'].setdefault(len(c.orig('M')), ev)
    c.check('same for all shapes', exp, ev)
COLL = {'avl': 'avl::AvlMap<K, V>', 'avlset': 'avl::avl_set::AvlSet<T>', 'bt': 'btree::BTreeMap<K, V, N>', 'btset': 'btree::btree_set::BTreeSet<T, N>', 'stack': 'stack::Stack<T>'}
def sets(**kw):
    def f(I):
        for k, v in kw.items(): setattr(I, k, v)
    return f
for s, d in COLL.items():
    SPECS[s + '.eq'] = entry(f'<{d} as std::cmp::PartialEq>::eq', 'MN', s_eq, pairs(3), setup=sets(eqonly=True))
    SPECS[s + '.cmp'] = entry(f'<{d} as std::cmp::Ord>::cmp', 'MN', s_order(False), pairs(3 if 'set' in s or s == 'stack' else 2))
    SPECS[s + '.partial_cmp'] = entry(f'<{d} as std::cmp::PartialOrd>::partial_cmp', 'MN', s_order(True), pairs(3 if 'set' in s or s == 'stack' else 2), setup=sets(pcmp_none=('V', 'T') if s == 'stack' else ('V',)))
for s in ('avl', 'avlset'):
    SPECS[s + '.hash'] = entry(f'<{COLL[s]} as std::hash::Hash>::hash', 'MH', hashes, [dict(M=n, shape=dict(M=x)) for n in range(8) for x in client.shapes(n)], setup=sets(real=True))
SPECS['btset.hash'] = entry(f'<{COLL["btset"]} as std::hash::Hash>::hash', 'MH', hashes, [dict(M=n) for n in range(5)])
# ------------------------------------------------------------------ entries
def position(c, it, k):
    """(index, found) of a key in sorted entries"""
    for i, e in enumerate(it):
        n = c.cmp(k, e[0])
        if n <= 0: return i, n == 0
    return len(it), False
def calls(c): return [e for e in c.s.ev if e[0] == 'call']
def through(c, name, exp, i, ref):
    """the result refers to the value of entry i of the map: what is written through it is found there"""
    r = c.I.force(c.s, ref)
    if r[0] != 'r': raise Undecided('result is not a reference')
    s = c.s.copy(); old = c.I.get(s, r[1], r[2])
    c.check('value referred to', c.s.r(exp[i][1]), c.I.sym(c.s, old))
    if old[0] == 's':
        c.I.put(s, r[1], r[2], ('s', 'written', old[2]))
        d = C(c.I, s, c.rv, c.res, c.ctx)
        d.check('refers into the map', d.ren([(k, 'written' if j == i else v) for j, (k, v) in enumerate(exp)]), d.ren(d.arg(name)[0]))
def s_or(val, ncalls):
    def f(c):
        it = c.orig('E'); k = c.s.r('E.key'); i, found = position(c, it, k)
        exp = list(it) if found else it[:i] + [(k, val(c, k))] + it[i:]
        got, n = c.arg('E.map')
        c.check('contents', c.ren(exp), c.ren(got)); c.check('length', len(exp), n)
        through(c, 'E.map', exp, i, c.rv)
        c.check('closure calls', [] if found else [tuple(c.s.r(y) for y in x) for x in ncalls(k)], [tuple(c.s.r(y) for y in e[2:]) for e in calls(c)])
    return f
def s_and_modify(c):
    it = c.orig('E'); k = c.s.r('E.key'); i, found = position(c, it, k)
    exp = [(a, f'f({b})') if found and j == i else (a, b) for j, (a, b) in enumerate(it)]
    got, n = c.contents(c.rv)
    c.check('contents', c.ren(exp), c.ren(got)); c.check('length', len(exp), n)
    c.check('closure calls', int(found), len(calls(c)))
    c.check('key kept', k, entrykey(c, c.rv))
def entrykey(c, v):
    v = c.I.force(c.s, v)
    q = [x for x in v[3] if c.I.res(c.s, x)[0] == 's']
    if len(q) != 1: raise Undecided('key of the entry')
    return c.I.sym(c.s, q[0])
def s_key(c): c.check('key', c.s.r('E.key'), c.I.sym(c.s, c.rv)); c.check('unchanged', c.orig('E'), c.ren(c.arg('E.map')[0]))
def s_entry(c):
    v = c.I.force(c.s, c.rv)
    c.check('key', c.s.r('k'), entrykey(c, v)); isentry(c, v)
def isentry(c, v):
    r = [x for x in v[3] if c.I.res(c.s, x)[0] == 'r']
    if len(r) != 1: raise Undecided('map of the entry')
    c.check('entry of this map', True, c.I.where(c.s, r[0])[0] == ('A', 'M'))
    c.check('contents', c.orig('M'), c.ren(c.arg('M')[0]))
def s_endentry(i):
    def f(c):
        it = c.orig('M'); o = c.opt(c.rv)
        c.check('present', bool(it), o is not None)
        if o is not None and it:
            o = c.I.force(c.s, o); c.check('key', it[i][0], entrykey(c, o)); isentry(c, o)
        else: c.check('contents', it, c.ren(c.arg('M')[0]))
    return f
def entryctx(F, key):
    t = F.ty(F.fns[key]['locals'][1][0])
    while t['k'] == 'ref': t = F.ty(t['t'])
    kt = [f['t'] for f in t['v'][0]['f'] if F.ty(f['t'])['k'] in ('param', 'alias')][0]
    vt = next((i for i, x in enumerate(F.types) if x and x['k'] == 'alias' and 'Value' in x['s']), kt)
    return dict(kv=(kt, vt), maptypes=[a for a in t['args'] if isinstance(a, int)])
ENT = "Entry::<'a, M>::"
MS = [dict(E=n) for n in range(4)]
SPECS['entry.or_insert'] = entry(ENT + 'or_insert', ['E', 'd'], s_or(lambda c, k: 'd', lambda k: []), MS, ctx=entryctx)
SPECS['entry.or_default'] = entry(ENT + 'or_default', ['E'], s_or(lambda c, k: 'default', lambda k: []), MS, ctx=entryctx)
SPECS['entry.or_insert_with'] = entry(ENT + 'or_insert_with', ['E', 'f'], s_or(lambda c, k: 'f()', lambda k: [()]), MS, ctx=entryctx)
SPECS['entry.or_insert_with_key'] = entry(ENT + 'or_insert_with_key', ['E', 'f'], s_or(lambda c, k: f'f({c.s.r(k)})', lambda k: [(k,)]), MS, ctx=entryctx)
SPECS['entry.and_modify'] = entry(ENT + 'and_modify', ['E', 'f'], s_and_modify, MS, ctx=entryctx)
SPECS['entry.key'] = entry(ENT + 'key', ['E'], s_key, MS, ctx=entryctx)
MAPS = {'avl': 'avl::AvlMap::<K, V>::', 'bt': 'btree::BTreeMap::<K, V, N>::'}
M3 = [dict(M=n) for n in range(4)]
def s_mapinsert(c):
    it = c.orig('M'); k = c.s.r('k'); i, found = position(c, it, k)
    exp = it[:i] + [(k, 'v')] + it[i + (1 if found else 0):]
    got, n = c.arg('M'); c.check('contents', c.ren(exp), c.ren(got)); c.check('length', len(exp), n)
    o = c.opt(c.rv); c.check('previous value', it[i][1] if found else None, None if o is None else c.I.sym(c.s, o))
def s_mapcontains(c):
    it = c.orig('M'); i, found = position(c, it, c.s.r('k'))
    c.check('answer', found, c.bool()); c.check('contents', it, c.ren(c.arg('M')[0]))
def s_mapgetmut(c):
    it = c.orig('M'); i, found = position(c, it, c.s.r('k')); o = c.opt(c.rv)
    c.check('present', found, o is not None)
    if found and o is not None: through(c, 'M', it, i, o)
def s_mapnew(c): c.check('contents', [], c.contents(c.rv)[0]); c.check('length', 0, c.contents(c.rv)[1])
for s, pre in MAPS.items():
    SPECS[s + '.entry'] = entry(pre + 'entry', 'Mk', s_entry, M3)
    SPECS[s + '.first_entry'] = entry(pre + 'first_entry', 'M', s_endentry(0), M3)
    SPECS[s + '.last_entry'] = entry(pre + 'last_entry', 'M', s_endentry(-1), M3)
    tr = f'<{COLL[s]} as Map>::'
    SPECS[s + '.insert_'] = entry(tr + 'insert_', 'Mkv', s_mapinsert, M3)
    SPECS[s + '.contains_key_'] = entry(tr + 'contains_key_', 'Mk', s_mapcontains, M3)
    SPECS[s + '.get_mut_'] = entry(tr + 'get_mut_', 'Mk', s_mapgetmut, M3)
    SPECS[s + '.new_'] = entry(tr + 'new_', '', s_mapnew, [dict()])
# ------------------------------------------------------------------ building from sequences
def inserted(c, it, new):
    it = list(it)
    for e in new:
        i, found = position(c, it, e[0]); it[i:i + (1 if found else 0)] = [e]
    return it
def seqctx(kind, i):
    """the elements an iterator argument gives"""
    def f(F, key):
        fn = F.fns[key]; cty = fn['locals'][0][0]
        if fn['argc'] > 1: cty = F.ty(fn['locals'][1][0])['t']
        t = F.ty(cty); a = [x for x in t['args'] if isinstance(x, int)]
        el = lambda I, n, j: ('s', n, a[j])
        def ref(I, st, n, v): st.cells[('E', n)] = v; return ('r', ('E', n), ())
        mk = {'t': lambda I, st, n: el(I, n, 0), 'rt': lambda I, st, n: ref(I, st, n, el(I, n, 0)),
              'kv': lambda I, st, n: I.pair(el(I, n + '.k', 0), el(I, n + '.v', 1)),
              'rkv': lambda I, st, n: I.pair(ref(I, st, n + '.k', el(I, n + '.k', 0)), ref(I, st, n + '.v', el(I, n + '.v', 1)))}[kind]
        return dict(seqs={fn['locals'][i + 1][0]: mk})
    return f
def s_extend(unit):
    def f(c):
        new = [x if isinstance(x, tuple) else (x, '()') for x in c.orig('S')]
        exp = inserted(c, c.orig('M'), new); got, n = c.arg('M')
        c.check('contents', c.ren(exp), c.ren(got)); c.check('length', len(exp), n)
    return f
def s_from(c):
    new = [x if isinstance(x, tuple) else (x, '()') for x in c.orig('S')]
    exp = inserted(c, [], new); got, n = c.contents(c.rv)
    c.check('contents', c.ren(exp), c.ren(got)); c.check('length', len(exp), n)
def s_stackextend(c):
    exp = c.orig('S')[::-1] + c.orig('M'); got, n = c.arg('M')
    c.check('contents', c.ren(exp), c.ren(got)); c.check('length', len(exp), n)
def s_stackfrom(c):
    exp = c.orig('S')[::-1]; got, n = c.contents(c.rv)
    c.check('contents', c.ren(exp), c.ren(got)); c.check('length', len(exp), n)
def s_tovec(c):
    v = c.I.under(c.s, c.rv)
    if v[0] != 'vec': raise Undecided('result is ' + v[0])
    c.check('elements', c.orig('M'), c.ren([c.entry(x[1]) for x in v[2]]))
def s_index(c):
    it = c.orig('M'); i, found = position(c, it, c.s.r('k'))
    if not found: c.check('panics', 'panic', 'returns'); return
    c.check('value', c.s.r(it[i][1]), c.I.sym(c.s, c.rv))
def p_index(c):
    i, found = position(c, c.orig('M'), c.s.r('k')); return not found
def s_empty(c): c.check('contents', [], c.contents(c.rv)[0]); c.check('length', 0, c.contents(c.rv)[1])
EXT = [dict(M=a, S=b) for a in range(3) for b in range(3)] + [dict(M=0, S=3), dict(M=1, S=3), dict(M=3, S=1)]
FR = [dict(S=n) for n in range(5)]
COLL['fixed'] = 'btree::fixed::BTreeMap<K, V>'
for s, d in COLL.items():
    k = {'stack': 't', 'avlset': 't', 'btset': 't'}.get(s, 'kv'); it = {'t': 'T', 'kv': '(K, V)'}[k]
    st = s == 'stack'
    SPECS[s + '.extend'] = entry(f'<{d} as std::iter::Extend<{it}>>::extend', 'MS', s_stackextend if st else s_extend(k == 't'), EXT, ctx=seqctx(k, 1))
    SPECS[s + '.from_iter'] = entry(f'<{d} as std::iter::FromIterator<{it}>>::from_iter', 'S', s_stackfrom if st else s_from, FR, ctx=seqctx(k, 0))
    SPECS[s + '.default'] = entry(f'<{d} as std::default::Default>::default', '', s_empty, [dict()])
    if s in ('avl', 'bt', 'avlset', 'btset'):
        SPECS[s + '.from array'] = entry(f'<{d} as std::convert::From<[{it}; {"M" if s[0] == "b" else "N"}]>>::from', 'S', s_from, FR)
    if s in ('avlset', 'btset'): SPECS[s + '.extend refs'] = entry(f"<{d} as std::iter::Extend<&'a T>>::extend", 'MS', s_extend(True), EXT, ctx=seqctx('rt', 1))
SPECS['avl.extend refs'] = entry("<avl::AvlMap<K, V> as std::iter::Extend<(&'a K, &'a V)>>::extend", 'MS', s_extend(False), EXT, ctx=seqctx('rkv', 1))
SPECS['avl.index'] = entry('<avl::AvlMap<K, V> as std::ops::Index<&Q>>::index', 'Mk', s_index, M3, panics=p_index)
SPECS['stack.from vec'] = entry('<stack::Stack<T> as std::convert::From<std::vec::Vec<T>>>::from', 'S', s_stackfrom, FR)
SPECS['bt.into vec'] = entry('btree::<impl std::convert::From<btree::BTreeMap<K, V, N>> for std::vec::Vec<(K, V)>>::from', 'M', s_tovec, M3)
del COLL['fixed']
# ------------------------------------------------------------------ bulk operations of the B-tree
def s_append(c):
    exp = merge(c, c.orig('M'), c.orig('N'), UNION, left=False)
    for nm, e in (('M', exp), ('N', [])):
        got, n = c.arg(nm); c.check('contents' if nm == 'M' else 'other is emptied', c.ren(e), c.ren(got)); c.check('length', len(e), n)
def s_split_off(c):
    it = c.orig('M'); i, found = position(c, it, c.s.r('k'))
    got, n = c.arg('M'); c.check('kept', c.ren(it[:i]), c.ren(got)); c.check('length', i, n)
    got, n = c.contents(c.rv); c.check('returned', c.ren(it[i:]), c.ren(got)); c.check('length', len(it) - i, n)
def s_retain(mut):
    def f(c):
        it = c.orig('M'); exp = []
        c.check('each entry tested once, in order', [e[0] for e in it], [e[2] for e in calls(c)])
        if mut: c.check('tested with their values', [e[1] for e in it], [e[3] if len(e) > 3 else None for e in calls(c)])
        for k, v in it:
            b = c.s.keep.get(('f', k))
            if b is None: return
            if b: exp.append((k, f'f({v})' if mut else v))
        got, n = c.arg('M'); c.check('contents', c.ren(exp), c.ren(got)); c.check('length', len(exp), n)
    return f
for s, pre in (('bt', MAPS['bt']), ('btset', SETS['btset'])):
    SPECS[s + '.append'] = entry(pre + 'append', 'MN', s_append, pairs(3))
    SPECS[s + '.split_off'] = entry(pre + 'split_off', 'Mk', s_split_off, [dict(M=n) for n in range(6)])
    SPECS[s + '.retain'] = entry(pre + 'retain', 'Mf', s_retain(s == 'bt'), [dict(M=n) for n in range(5)])
# ------------------------------------------------------------------ views
def s_view(f, back=False):
    def g(d, els): d.check('elements', [f(e) for e in d.orig('M')], d.ren([x if isinstance(x, tuple) else x for x in els]))
    return fin(g)
KEY, VAL, KV = (lambda e: e[0]), (lambda e: e[1]), (lambda e: e)
def views():
    for s, pre in MAPS.items():
        for n, f in (('keys', KEY), ('values', VAL), ('values_mut', VAL), ('into_keys', KEY), ('into_values', VAL)):
            if s == 'avl' and n.startswith('into_'): continue   # built on the nodes: see the iterators
            SPECS[f'{s}.{n}'] = entry(pre + n, 'M', s_view(f), M3)
        for r, nm in (('&', 'ref'), ('&mut ', 'ref mut')):
            SPECS[f'{s}.into_iter ({nm})'] = entry(f"<{r}'a {COLL[s]} as std::iter::IntoIterator>::into_iter" if r == '&' else f"<&'a mut {COLL[s]} as std::iter::IntoIterator>::into_iter", 'M', s_view(KV), M3)
    for s, pre in SETS.items():
        SPECS[f'{s}.iter'] = entry(pre + 'iter', 'M', s_view(KEY), M3)
        SPECS[f'{s}.into_iter'] = entry(f'<{COLL[s]} as std::iter::IntoIterator>::into_iter', 'M', s_view(KEY), M3)
        SPECS[f'{s}.into_iter (ref)'] = entry(f"<&'a {COLL[s]} as std::iter::IntoIterator>::into_iter", 'M', s_view(KEY), M3)
views()
def trees(ps): return [dict(M=a, N=b, shape=dict(M=x, N=y)) for a, b in ps for x in client.shapes(a) for y in client.shapes(b)]
for n in ('is_subset', 'is_superset'):
    p = PREDS[n]; o = (lambda ps: [(b, a) for a, b in ps]) if n == 'is_superset' else (lambda ps: ps)
    SPECS['avlset.' + n] = entry(SETS['avlset'] + n, 'MN', setpred(p), trees(o([(0, 0), (0, 2), (1, 0), (2, 1), (1, 1), (1, 2), (1, 3), (1, 4), (2, 2), (2, 3), (2, 4), (3, 3), (3, 4), (1, 5), (2, 5), (1, 7)])))
def full(h): return None if not h else (full(h - 1), full(h - 1))
def slim(h): return None if not h else (slim(h - 1), slim(h - 2) if h > 1 else None)
def flip(s): return None if s is None else (flip(s[1]), flip(s[0]))
def cut(s, n):
    """a balanced shape of n nodes, as shallow as possible"""
    return None if n == 0 else (cut(s, (n - 1) // 2), cut(s, n - 1 - (n - 1) // 2))
def sametrees(hs): return [dict(M=client.size(slim(h)), N=client.size(slim(h)), shape=dict(M=slim(h), N=cut(None, client.size(slim(h))))) for h in hs]
for n, f in (('eq', s_eq), ('cmp', s_order(False)), ('partial_cmp', s_order(True))):
    for s in ('avl', 'avlset'):
        e = SPECS[f'{s}.{n}']
        SPECS[f'{s}.{n} (trees)'] = dict(e, sizes=trees([(0, 0), (0, 1), (1, 0), (1, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4)]) + sametrees((4, 5)), deeper=sametrees((7, 9)))
def wider(op, deep):
    """the sizes to examine beyond those of the specification itself: (quick, thorough)"""
    e = SPECS[op]; nm = ''.join(e['names']); base = e['sizes']; op2 = op.split('.', 1)[1]
    if any('shape' in b for b in base) or 'disp' not in e: return e.get('deeper', []) if deep else e.get('deeper', [])[-1:] if op2 == 'eq (trees)' else []
    seen = [tuple(sorted(b.items())) for b in base]; out = []
    def add(**k):
        if tuple(sorted(k.items())) not in seen: seen.append(tuple(sorted(k.items()))); out.append(k)
    if nm == 'MN':
        cmp = op2 in ('cmp', 'partial_cmp', 'eq')
        for a, b in ((4, 4), (1, 7), (7, 1), (0, 9), (9, 0), (2, 6), (6, 2)) if not cmp else ((4, 4), (8, 8), (5, 6), (6, 5), (0, 6), (6, 0), (17, 17)): add(M=a, N=b)
        if deep:
            for a in range(6 if not cmp else 11):
                for b in range(6 if not cmp else 11): add(M=a, N=b)
            if cmp:
                for a, b in ((33, 33), (70, 70), (40, 41), (20, 0)): add(M=a, N=b)
            for a, b in ((1, 14), (14, 1), (2, 12), (12, 2), (0, 20), (3, 9), (9, 3)) if not cmp else (): add(M=a, N=b)
    elif nm in ('M',): 
        for n in list(range(4, 13)) + (list(range(13, 40)) if deep else []): add(M=n)
    elif nm == 'Mf':
        for n in (5, 6) + ((7, 8, 9) if deep else ()): add(M=n)
    elif nm in ('Mk', 'Mkv'):
        for n in list(range(4, 10)) + (list(range(10, 30)) if deep else []): add(M=n)
    elif nm in ('E', 'Ed', 'Ef'):
        for n in list(range(4, 10)) + (list(range(10, 30)) if deep else []): add(E=n)
    elif nm == 'S':
        for n in ((5,) if not deep else (5, 6)): add(S=n)
    elif nm == 'MS':
        for a, b in ((4, 1), (6, 1), (2, 3)) + (((4, 2), (3, 3), (12, 1), (1, 4), (0, 4)) if deep else ()): add(M=a, S=b)
    return out
# ------------------------------------------------------------------ AVL bulk operations on explicit trees: lengths
def avlwf(c, v):
    """heights recorded and balanced in the explicit tree of a map value; number of its entries"""
    I = c.I; R = I.R
    for _ in range(6):
        v = I.res(c.s, v)
        if v[0] == 'r': v = I.get(c.s, v[1], v[2])
        elif v[0] == 'a' and not I.coll(v[1]): v = next(f for f in v[3] if I.res(c.s, f)[0] in ('a', 'r'))
        elif v[0] == 'a': break
        else: raise Undecided('result is ' + v[0])
    def num(x):
        n = c.s.lin.norm(I.force(c.s, x)[1])
        if not L.is_const(n): raise Undecided('recorded height')
        return int(n[0])
    def go(x):
        x = I.force(c.s, x)
        if x[2] == 0: return 0
        n = I.res(c.s, x[3][0])
        while n[0] == 'arc': n = I.res(c.s, n[1])
        l, r = go(n[3][R.fl]), go(n[3][R.fr])
        c.check('recorded heights', (l, r), (num(n[3][R.hl]), num(n[3][R.hr]))); c.check('balance', True, abs(l - r) <= 1)
        return 1 + max(l, r)
    go(v[3][I.coll(v[1])[0]])
def s_bulk(res, arg=None, ret=None):
    """res: expected contents of M (by ref) / of the result"""
    def f(c):
        for where, exp in res(c).items():
            v = c.rv if where == 'ret' else c.s.cells[('A', where)]
            got, n = c.contents(v)
            c.check('contents of ' + where, c.ren(exp), c.ren(got)); c.check('length of ' + where, len(exp), n); avlwf(c, v)
    return f
def b_append(c): return dict(M=merge(c, c.orig('M'), c.orig('N'), UNION, left=False), N=[])
def b_split(c):
    it = c.orig('M'); i, found = position(c, it, c.s.r('k'))
    return dict(M=it[:i], ret=it[i:])
def b_new(keep, left): return lambda c: dict(ret=merge(c, c.orig('M'), c.orig('N'), keep, left))
def b_retain(c):
    exp = []
    for e in c.orig('M'):
        b = c.s.keep.get(('f', e[0] if isinstance(e, tuple) else e))
        if b is None: raise Dead()
        if b: exp.append((e[0], f'f({e[1]})') if e[1] != '()' else e)
    return dict(M=exp)
BULK = {}
for s, pre in (('avl', MAPS['avl']), ('avlset', SETS['avlset'])):
    BULK[s + '.append'] = (pre + 'append', 'MN', b_append)
    BULK[s + '.split_off'] = (pre + 'split_off', 'Mk', b_split)
    BULK[s + '.retain'] = (pre + 'retain', 'Mf', b_retain)
    for n, (k, lf) in (('new_union', (UNION, False)), ('new_diff', (DIFF, True)), ('new_sym_diff', (SYM, True)), ('new_intersect' if s == 'avl' else 'new_intersection', (INTER, True))):
        BULK[s + '.' + n] = (pre + n, 'MN', b_new(k, lf))
def bulkshapes(nm, deep):
    if nm == 'MN': return trees([(a, b) for a in range(4 + deep) for b in range(4 + deep)])
    return [dict(M=n, shape=dict(M=x)) for n in range(6 + 2 * deep) for x in client.shapes(n)]
for k, (d, nm, res) in BULK.items():
    SPECS[k + ' (trees)'] = entry(d, nm, s_bulk(res), bulkshapes(nm, 0), setup=sets(real=True), deeper=bulkshapes(nm, 1))
def joined():
    def r(n, o): return list(range(o, o + n))
    xs = [cut(None, n) for n in range(6)] + [slim(4), flip(slim(5)), full(4), slim(6), full(5), slim(7)]
    out = []
    for x in xs:
        for y in xs:
            n, m = client.size(x), client.size(y)
            out.append(dict(M=n, N=m, shape=dict(M=x, N=y), pin=dict(ranks=dict(M=r(n, 0), k=n, N=r(m, n + 1))), sharing=(len(out)) % 3))
    return out
SPECS['avl.new_join (trees)'] = entry(MAPS['avl'] + 'new_join', ['M', 'k', 'v', 'N'], s_bulk(lambda c: dict(ret=c.orig('M') + [(c.s.r('k'), 'v')] + c.orig('N'))), joined(), setup=sets(real=True))
def pinned(I, st, args, ctx):
    """fix the order of all keys (and the answers of the predicate) of a larger instance"""
    p = ctx['pin']; syms = []
    for nm, rk in p['ranks'].items():
        if isinstance(rk, int): syms.append((nm, rk)); continue
        syms += [(x[0] if isinstance(x, tuple) else x, r) for x, r in zip(ctx['orig'][nm], rk, strict=True)]
    by = {}; st.order = frozenset()
    for x, r in syms: by.setdefault(r, []).append(x)
    for xs in by.values():
        for x in xs[1:]: st.add_eq(xs[0], x)
    reps = [st.r(by[r][0]) for r in sorted(by)]
    st.order = st.order | {(a, b) for i, a in enumerate(reps) for b in reps[i + 1:]}
    for i, b in enumerate(p.get('answers', ())):
        x = ctx['orig']['M'][i]
        st.keep[('f', st.r(x[0] if isinstance(x, tuple) else x))] = b
    ctx['orig'] = {k: v for k, v in ctx['orig'].items()}
def scramble(n, mod, a=7, b=3): return [(a * i * i + b * i + i // 3) % mod for i in range(n)]
def large(op):
    """larger instances, each with one order of its keys: [(sizes, ranks ...)]"""
    e = SPECS[op]; nm = ''.join(e['names']); op2 = op.split('.', 1)[1]; out = []
    def add(answers=(), **ranks):
        sz = {k: len(v) for k, v in ranks.items() if not isinstance(v, int)}
        out.append(dict(sz, pin=dict(ranks=ranks, answers=answers)))
    if op.endswith(' (trees)') and op[:-8] in BULK:
        tall = [slim(5), full(3), cut(None, 23), slim(6), flip(slim(6)), cut(None, 1), full(5), cut(None, 40), flip(slim(7)), slim(7)]
        def addt(shape, answers=(), **ranks):
            add(answers, **ranks); out[-1]['shape'] = shape; out[-1]['sharing'] = len(out) % 3
        R = lambda n, o=0, d=1: list(range(o, o + n * d, d))
        if nm == 'MN':
            for i, j in ((0, 1), (3, 0), (1, 4), (5, 3), (4, 5), (6, 5), (2, 2), (7, 1), (8, 2), (0, 9)):
                x, y = tall[i], tall[j]; n, m = client.size(x), client.size(y); sh = dict(M=x, N=y)
                for a, b in ((R(n), R(m, n)), (R(n, m), R(m)), (R(n, 0, 2), R(m, 1, 2)), (R(n), R(m)), (R(n, m // 2), R(m)), (sorted(set(scramble(2 * n, 3 * n + m + 5)))[:n], sorted(set(scramble(3 * m, 3 * m + n + 5, 11, 5)))[:m])):
                    if len(a) == n and len(b) == m: addt(sh, M=a, N=b)
        elif nm == 'Mk':
            for x in tall:
                n = client.size(x)
                for k in sorted({-1, 0, 1, 2, n // 2, n, n + 1, 2 * n - 3, 2 * n - 2, 2 * n - 1}): addt(dict(M=x), M=R(n, 0, 2), k=k)
        else:
            for x in tall:
                n = client.size(x)
                for a in ([True] * n, [False] * n, [i % 2 == 0 for i in range(n)], [q % 3 > 0 for q in scramble(n, 91)], [i < n // 2 for i in range(n)], [i > n - 3 for i in range(n)], [i % 5 != 1 for i in range(n)]): addt(dict(M=x), a, M=R(n))
        return out
    if op2 in ('is_subset', 'is_superset') and any('shape' in b for b in e['sizes']):
        # subtrees that both sets share, inside larger trees, on either side of the root or below it
        def adds(sub, sup, rs, rp):
            a, b = ('M', 'N') if op2 == 'is_subset' else ('N', 'M')
            for m in range(4):
                out.append(dict({a: len(rs), b: len(rp)}, pin=dict(ranks={a: rs, b: rp}), shape={a: sub, b: sup}, sharing=m))
        R = lambda n, o=0, d=1: list(range(o, o + n * d, d))
        for x in (full(2), (None, full(2)[0]), full(3), slim(4), flip(slim(4)), flip(slim(5)), (full(1), slim(3)), (full(2), slim(4))):
            n = client.size(x); h = client.height(x)
            for w in (cut(None, n), slim(h), flip(slim(h + 1)), full(h)):
                k = client.size(w)
                for z in (cut(None, max(1, k // 2)), slim(max(1, h - 1)), full(h - 1)):
                    j = client.size(z)
                    if j > k or abs(client.height(z) - h) > 1 or abs(client.height(w) - h) > 1: continue
                    for own in (sorted(R(k, 0, 2)[i * k // j] for i in range(j)), R(k, 0, 2)[:j], R(k, 0, 2)[-j:], R(k - 1, 0, 2)[:j - 1] + [2 * k - 3]):
                        if len(set(own)) < j or len(own) != j: continue
                        xs = R(n, 0, 2); c = 2 * n
                        adds((x, z), (x, w), xs + [c] + [c + 2 + i for i in own], xs + [c] + [c + 2 + i for i in R(k, 0, 2)])
                        o = 2 * k + 2
                        adds((z, x), (w, x), own + [2 * k] + [o + i for i in xs], R(k, 0, 2) + [2 * k] + [o + i for i in xs])
                        adds((z, x), (w, (x, full(h))), own + [2 * k] + [o + i for i in xs], R(k, 0, 2) + [2 * k] + [o + i for i in R(n + 1 + client.size(full(h)), 0, 2)])
                        adds((x, z), ((x, None), w), xs + [c + 2 + i for i in [0] + [i + 2 for i in own]], xs + [c] + [c + 2 + i for i in [0] + [i + 2 for i in R(k, 0, 2)]])
        return out[::7]
    if any('shape' in b for b in e['sizes']): return []
    if nm == 'MN':
        if op2 in ('cmp', 'partial_cmp', 'eq'): return []
        for n, m in ((40, 40), (12, 70), (70, 12), (100, 3), (3, 100), (33, 64)):
            R = lambda n, o=0, d=1: list(range(o, o + n * d, d))
            add(M=R(n), N=R(m, n)); add(M=R(n, m), N=R(m)); add(M=R(n, 0, 2), N=R(m, 1, 2)); add(M=R(n), N=R(m)); add(M=R(n, m // 2), N=R(m))
            add(M=sorted(set(scramble(2 * n, 3 * n + m)))[:n], N=sorted(set(scramble(3 * m, 3 * m + n, 11, 5)))[:m])
    elif nm in ('Mk', 'Mkv'):
        for n in (31, 64):
            for i in (0, 1, n // 2, n - 2, n - 1):
                for d in (-1, 0): add(M=list(range(0, 2 * n, 2)), k=2 * i + d)
            add(M=list(range(n)), k=n)
    elif nm in ('E', 'Ed', 'Ef'):
        for n in (31, 64):
            for k in (-1, 0, n, 2 * n - 3, 2 * n): out.append(dict(E=n, pin=dict(ranks={'E': list(range(0, 2 * n, 2)), 'E.key': k})))
    elif nm in ('S', 'MS'):
        for n in (40, 17):
            for s in (list(range(n)), list(range(n, 0, -1)), scramble(n, 2 * n), scramble(n, n // 2)):
                if nm == 'S': add(S=s)
                else:
                    for m in (25, 5): add(M=list(range(0, 2 * m, 2)), S=s)
    elif nm == 'Mf':
        for n in (40, 64):
            for a in ([True] * n, [False] * n, [i % 2 == 0 for i in range(n)], [x % 3 > 0 for x in scramble(n, 91)], [i < n // 2 for i in range(n)], [i > n - 3 for i in range(n)]):
                add(M=list(range(n)), answers=a)
    return out
def client_op(F, op, sizes=None):
    e = dict(SPECS[op]); key = F.key_of(e['disp'])
    if not key:
        import tasks
        return tasks.missing(e['disp'])
    if sizes: e['sizes'] = sizes
    res = Result(); st = 0; errs = []
    funcs = set()
    memo = {}
    for sizes in e['sizes']:
        I = interp(F, key); e.get('setup', lambda I: None)(I)
        sizes = dict(sizes); shp = sizes.pop('shape', None); pin = sizes.pop('pin', None); I.sharing = sizes.pop('sharing', None)
        ctx = dict(e.get('ctx', lambda F, key: {})(F, key))
        res.err = None
        I.mapparams = frozenset(ctx.get('maptypes', ()))
        ctx['memo'] = memo
        if shp: ctx['shape'] = shp
        if pin: ctx['pin'] = pin
        client.run(I, key, res, ctx, e['spec'], e['names'], sizes, e.get('panics'), pinned if pin else e.get('prep'))
        if res.err: errs.append((str(sizes), res.err))
        st += I.stats['stmts']; funcs |= I.analysed
    und = [(w, v) for w, v in res.und.items()] + [('analysis', x) for x in errs[:3]] + [('path given up', f'{w} in {f}') for w, f in res.lost.items()]
    return dict(obligations=res.n + len(errs) + len(res.lost), discharged=res.good, viol=[(w, v) for w, v in res.viol.items()], und=und,
                info=dict(function=F.fns[key]['disp'], outcomes=res.outs, functions_analysed=len(funcs), statements=st, bounded='collections of ' + ', '.join('x'.join(str(v) for k, v in q.items() if k not in ('pin', 'shape', 'sharing')) for q in e['sizes']) + ' elements'))

GROUPS = {
 'C23': [f'{s}.{n}' for s in SETS for n in (*LAZY, *PREDS, *NEW, *(m for t, m in OPS))],
 'C15': [f'{s}.{n}' for s in ('avl', 'avlset', 'bt', 'btset', 'stack') for n in ('eq', 'cmp', 'partial_cmp', 'hash', 'eq (trees)', 'cmp (trees)', 'partial_cmp (trees)')],
 'C21': [k for k in SPECS if k.startswith('entry.') or k.rsplit('.', 1)[-1] in ('entry', 'first_entry', 'last_entry', 'insert_', 'contains_key_', 'get_mut_', 'new_')],
 'C27': [k + ' (trees)' for k in BULK] + ['avl.new_join (trees)'],
 'C08': [f'{s}.{n}' for s in ('bt', 'btset') for n in ('append', 'split_off', 'retain')],
}
GROUPS = {p: [k for k in ks if k in SPECS] for p, ks in GROUPS.items()}
CONS = ('extend', 'from_iter', 'default', 'from array', 'extend refs', 'index', 'from vec', 'into vec')
GROUPS['C25'] = [k for k in SPECS if k.split('.', 1)[1] in CONS]
used = {k for ks in GROUPS.values() for k in ks}
GROUPS['C26'] = [k for k in SPECS if k not in used]
