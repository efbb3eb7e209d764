"""The registry of properties and the analysis tasks that decide them."""
import time
import avl_api, roles, spec, hooks, words, btree_roles
from absint import Interp, Undecided
import absint, lin

WEIGHT = {'bt.remove.N5': 60, 'btset.remove.N5': 60, 'btset.take.N5': 60, 'btset.replace.N5': 70, 'avlset.retain': 3, 'avl.retain': 3, 'avl.new_sym_diff': 5, 'avl.new_union': 5, 'avl.new_intersect': 5, 'avl.new_diff': 5, 'avl.append': 5, 'avl.remove': 3}
POL = [(True, True, 'r'), (False, False, 'l'), (True, False, None), (True, True, None)]

EXACT = None   # (recursion depth, nodes, seconds): bounded re-examination of an undecided task
def result(r, info):
    if EXACT: return dict(obligations=0, discharged=0, viol=[(w, v) for w, v in r.viol.items()], und=[('analysis', r.err)] if r.err else [], info=info)
    und = [(w, v) for w, v in r.und.items()]
    if r.err: und.append(('analysis', r.err))
    und += [('path given up', f'{w} in {f}') for w, f in r.lost.items()]
    return dict(obligations=r.n + (1 if r.err else 0) + len(r.lost), discharged=r.good, viol=[(w, v) for w, v in r.viol.items()], und=und, info=info)

def bounded(name, fn, args):
    """exact re-examinations of an undecided task: recursion inlined, trees of bounded height, longer paths left out"""
    out = []
    if fn == 'bt_op':
        for n, ex in ((1, (1, 5, 40)), (1, (2, 5, 100)), (1, (3, 7, 200)), (2, (2, 5, 200))):
            if args[1] >= n: out.append((f'{name.rsplit(".", 1)[0]}.N{n}', fn, (args[0], n, 100, args[3]), ex))
    elif fn in ('avl_op', 'avl_iter', 'avl_iter_make'):
        for ex in ((1, 5, 40), (2, 8, 100), (3, 12, 200)): out.append((name, fn, args, ex))
    return out

def missing(name):
    return dict(obligations=1, discharged=0, viol=[], und=[('anchor', f'public operation {name} not found in the crate')], info={})

def interp(F, R, deadline, unit=False, pol=POL):
    words.Mode.unit = unit; words.Mode.nokey = False
    I = Interp(F, 'seq', R); I.keytypes = {'K', 'Q', 'T'}; I.valtypes = {'V', '()'}
    I.hooks['callback'] = hooks.callback; I.S.policies = pol
    I.deadline = time.time() + deadline
    if EXACT: I.exact = EXACT; I.unroll = 40; I.deadline = time.time() + EXACT[2]; I.budget *= 10
    return I

AVL = {('avl.' + e[0]): ('avl::AvlMap::<K, V>::', False) + tuple(e) for e in avl_api.MAP}
AVL.update({('avlset.' + e[0]): ('avl::avl_set::AvlSet::<T>::', True) + tuple(e) for e in avl_api.SET})
MERGE = ('append', 'split_off')
SELF = {'avl.': 'avl::AvlMap<K, V>', 'avlset.': 'avl::avl_set::AvlSet<T>', 'bt.': 'btree::BTreeMap<K, V, N>', 'btset.': 'btree::btree_set::BTreeSet<T, N>', 'fixed.': 'btree::fixed::BTreeMap<K, V>'}
def opkey(F, op, pre, name):
    if name == 'clone': return F.key_of(f"<{SELF[op[:op.index('.') + 1]]} as std::clone::Clone>::clone")
    return avl_api.fnkey(F, pre + name)
def avl_op(F, op, which='seq'):
    """one public operation of AvlMap / AvlSet from an arbitrary search tree"""
    pre, unit, name, names, sp, opt = AVL[op]
    key = opkey(F, op, pre, name)
    if not key: return missing(pre + name)
    R = roles.AvlRoles(F)
    I = interp(F, R, 240, unit, POL if name in MERGE or name.startswith('new_') else [])
    b = avl_api.builder(names, pre=opt.get('pre'))
    def bb(I, st, ctx): ctx['key'] = key; ctx['show'] = ['M', 'N']; return b(I, st, ctx)
    r = spec.run(I, key, bb, avl_api.aspect(name, sp, which), name)
    return result(r, dict(function=F.fns[key]['disp'], outcomes=r.outs, summaries=len(I.S.table), functions_analysed=len(I.analysed), statements=I.stats['stmts']))

import heights
def avl_num(F, op):
    """stored heights and balance of every node that one public operation of AvlMap / AvlSet builds"""
    pre, unit, name, names, sp, opt = AVL[op]
    key = opkey(F, op, pre, name)
    if not key: return missing(pre + name)
    words.Mode.unit = unit; words.Mode.nokey = False
    I = Interp(F, 'num', roles.AvlRoles(F)); I.keytypes = {'K', 'Q', 'T'}; I.valtypes = {'V', '()'}
    I.hooks['callback'] = heights.callback; I.deadline = time.time() + 400; I.want_panics = True
    viol, und, pan, err, outs = heights.run(I, key, avl_api.builder(names))
    u = [(f'{k[0]} in {k[1]}', str(v)) for k, v in und.items()] + [('path given up', f'{w} in {f}') for w, f in I.lost.items()] + [('panic not excluded', f'{w} in {f}') for f, w in pan.items()]
    if err: u.append(('analysis', err))
    sites = {}
    return dict(obligations=len(viol) + len(u) + max(1, len(I.S.table)), discharged=max(1, len(I.S.table)),
                viol=[(k[0], dict(expected=v['kind'], got=v['detail'], instance=f"{v['fn']} at {v['loc']} via {' > '.join(v['chain'])}", trace=())) for k, v in viol.items()], und=u,
                info=dict(function=F.fns[key]['disp'], outcomes=len(outs), summaries=len(I.S.table), functions_analysed=len(I.analysed), statements=I.stats['stmts'], node_constructions_checked=I.stats['obligations'], node_constructions_ok=I.stats['discharged']))

BT = {('bt.' + e[0]): ('btree::BTreeMap::<K, V, N>::', False) + tuple(e) for e in avl_api.MAP}
BT.update({('btset.' + e[0]): ('btree::btree_set::BTreeSet::<T, N>::', True) + tuple(e) for e in avl_api.SET})
BT.update({('fixed.' + e[0]): ('btree::fixed::BTreeMap::<K, V>::', False) + tuple(e) for e in avl_api.MAP})
def bt_interp(F, layout, deadline, unit=False, pol=(), n=2):
    R = btree_roles.BtreeRoles(F, 'inl', 5, 11) if layout == 'inl' else btree_roles.BtreeRoles(F, 'vec', n, 2 * n + 1)
    I = interp(F, R, deadline, unit, pol)
    I.consts = {'N': n}
    if not EXACT: I.unroll = 16
    return I
def bt_op(F, op, n=2, deadline=240, which='seq'):
    """one public operation of a B-tree collection from an arbitrary well-formed tree"""
    pre, unit, name, names, sp, opt = BT[op]
    key = opkey(F, op, pre, name)
    if not key: return missing(pre + name)
    I = bt_interp(F, 'inl' if op.startswith('fixed') else 'vec', deadline, unit, [], n)
    I.want_panics = which == 'seq'
    b = avl_api.builder(names, pre=opt.get('pre'))
    def bb(I, st, ctx): ctx['key'] = key; ctx['show'] = ['M', 'N']; return b(I, st, ctx)
    r = spec.run(I, key, bb, avl_api.aspect(name, sp, which), name)
    return result(r, dict(function=F.fns[key]['disp'], outcomes=r.outs, summaries=len(I.S.table), functions_analysed=len(I.analysed), statements=I.stats['stmts'], entries_per_node=f'{I.R.MIN}..{I.R.MAX}'))

# ------------------------------------------------------------------ iterators
import iters
def iter_fns(F, ctor):
    """facts about the iterator type returned by a constructor, named by display path (a ' for ' part selects the impl)"""
    for it in F.iters:
        if F.disp_of(it['fn']) == ctor: return it
    return None
def avl_iter(F, ctor, meth, opt=''):
    """one step of (or a size query on) the iterator that `ctor` returns, from an arbitrary position"""
    it = iter_fns(F, ctor)
    if not it: return missing(ctor)
    if meth not in it or it[meth].get('key') not in F.fns: return missing(f'{ctor}: {meth} of the returned iterator')
    key = it[meth]['key']
    R = roles.AvlRoles(F)
    I = interp(F, R, 240, 'u' in opt)
    words.Mode.nokey = 'v' in opt
    I.hooks['seq'] = True; I.want_panics = True
    del I.hooks['callback']
    def bb(I, st, ctx):
        ctx.update(key=key, show=['QD'], queues=[], ints=[])
        v = iters.build(I, st, ctx, it['ty'], 'D')
        st.cells[('A', 'D')] = v
        if len(ctx['queues']) != 1: raise iters.Undecided('iterator without a single queue')
        ctx['lens'] = [(ctx['queues'][0], ctx['ints'][0])] if ctx['ints'] and 'r' not in opt else []
        return [('r', ('A', 'D'), ())]
    if meth in ('next', 'next_back'): sp = iters.s_next(meth, 'len' if 'l' in opt else 'seq')
    else: sp = iters.s_size('r' not in opt)
    r = spec.run(I, key, bb, sp, ctor + ' ' + meth)
    return result(r, dict(function=F.fns[key]['disp'], iterator=F.tstr(it['ty']), outcomes=r.outs, summaries=len(I.S.table), functions_analysed=len(I.analysed), statements=I.stats['stmts']))
def avl_iter_make(F, ctor, opt=''):
    it = iter_fns(F, ctor)
    key = F.key_of(ctor)
    if not key: return missing(ctor)
    R = roles.AvlRoles(F)
    I = interp(F, R, 240, 'u' in opt)
    words.Mode.nokey = 'v' in opt
    I.hooks['seq'] = True; I.want_panics = True
    b = avl_api.builder(['M'])
    def bb(I, st, ctx): ctx['key'] = key; ctx['show'] = ['M']; return b(I, st, ctx)
    r = spec.run(I, key, bb, iters.s_make, ctor)
    return result(r, dict(function=F.fns[key]['disp'], outcomes=r.outs, summaries=len(I.S.table), functions_analysed=len(I.analysed), statements=I.stats['stmts']))
def avl_range(F, ctor, opt='', ex=None):
    """construction of a range iterator, on trees of bounded height"""
    key = F.key_of(ctor)
    if not key: return missing(ctor)
    R = roles.AvlRoles(F)
    I = interp(F, R, 400, 'u' in opt, [])
    if not EXACT: I.exact = ex; I.unroll = 40; I.budget *= 10
    I.hooks['seq'] = I.hooks['range'] = True; I.want_panics = True
    b = avl_api.builder(['M', 'range'])
    def bb(I, st, ctx):
        ctx['key'] = key; ctx['show'] = ['M']; a = b(I, st, ctx)
        def find(v):
            if v[0] == 's' and I.R.role(v[2]) == 'opt': ctx['tree_ty'] = v[2]
            elif v[0] == 'a':
                for x in v[3]: find(x)
        find(st.cells[('A', 'M')])
        return a
    r = spec.run(I, key, bb, iters.s_range, ctor)
    r.lost = {k: v for k, v in r.lost.items() if k != 'bound'}
    return result(r, dict(function=F.fns[key]['disp'], outcomes=r.outs, functions_analysed=len(I.analysed), statements=I.stats['stmts'], bounded=f'trees of at most {ex[0]} levels and {ex[1]} entries' if ex else ''))
AM = 'avl::AvlMap::<K, V>::'; AST = 'avl::avl_set::AvlSet::<T>::'
AITERS = [(AM + 'iter', ''), (AM + 'iter_mut', ''), (AM + 'keys', ''), (AM + 'values', ''), (AM + 'values_mut', ''), (AM + 'into_keys', 'u'), (AM + 'into_values', 'v'),
          ('<avl::AvlMap<K, V> as std::iter::IntoIterator>::into_iter', ''), ("<&'a avl::AvlMap<K, V> as std::iter::IntoIterator>::into_iter", ''), ("<&'a mut avl::AvlMap<K, V> as std::iter::IntoIterator>::into_iter", ''),
          (AST + 'iter', 'u'), ('<avl::avl_set::AvlSet<T> as std::iter::IntoIterator>::into_iter', 'u'), ("<&'a avl::avl_set::AvlSet<T> as std::iter::IntoIterator>::into_iter", 'u')]
def short(c): return c.replace('std::iter::IntoIterator', 'IntoIterator').replace('avl::avl_set::', '').replace('avl::', '')
def avl_iters(F, tier):
    out = []
    for c, o in AITERS:
        out.append((short(c), 'avl_iter_make', (c, o)))
        out.append((short(c) + ' next', 'avl_iter', (c, 'next', o)))
        if 'AvlSet' not in c: out.append((short(c) + ' next_back', 'avl_iter', (c, 'next_back', o)))
    return out
def avl_sizes(F, tier):
    out = []
    for c, o in AITERS:
        for m in ('next', 'next_back', 'size_hint', 'len'):
            if m == 'next_back' and 'AvlSet' in c: continue
            out.append((short(c) + ' count ' + m, 'avl_iter', (c, m, o + 'l')))
    return out

RANGES = [(AM + 'range', ''), (AM + 'range_mut', ''), (AST + 'range', 'u')]
def avl_ranges(F, tier):
    out = []
    for c, o in RANGES:
        for ex in ((2, 4, 99), (3, 7, 400)) + (() if tier == 'quick' else ((4, 7, 1500),)): out.append((f'{short(c)} (trees of {ex[0]} levels)', 'avl_range', (c, o, ex)))
        out.append((short(c) + ' next', 'avl_iter', (c, 'next', o)))
        out.append((short(c) + ' next_back', 'avl_iter', (c, 'next_back', o)))
        out.append((short(c) + ' size_hint', 'avl_iter', (c, 'size_hint', o + 'r')))
    return out
MAPOPS = ('insert', 'remove', 'get', 'get_mut', 'get_key_value', 'contains_key', 'first_key_value', 'last_key_value', 'pop_first', 'pop_last', 'clear', 'new', 'is_empty')
SETOPS = ('insert', 'replace', 'remove', 'take', 'get', 'contains', 'first', 'last', 'pop_first', 'pop_last', 'clear', 'new', 'is_empty')
MUTATORS = ('insert', 'remove', 'remove_entry', 'replace', 'take', 'pop_first', 'pop_last', 'clear', 'new', 'get_mut')
def bt_tasks(which, only=None):
    def f(F, tier):
        ns = (1, 2, 5) if tier == 'quick' else (1, 2, 3, 4, 5)
        out = []
        for pre, ops in (('bt.', MAPOPS), ('btset.', SETOPS)):
            for o in ops:
                if only and o not in only: continue
                for n in ns: out.append((f'{pre}{o}.N{n}', 'bt_op', (pre + o, n, 240 if tier == 'quick' else 900, which)))
        return out
    return f
def both(*fs): return lambda F, tier: [t for f in fs for t in f(F, tier)]
def avl_len(F, tier):
    out = [('avl.' + o, 'avl_op', ('avl.' + o, 'len')) for o in ('insert', 'remove', 'remove_entry', 'pop_first', 'pop_last', 'clear', 'new', 'get_mut')]
    return out + [('avlset.' + o, 'avl_op', ('avlset.' + o, 'len')) for o in ('insert', 'replace', 'remove', 'take', 'pop_first', 'pop_last', 'clear', 'new')]

def avl_tasks(*apis):
    return lambda F, tier: [(a, 'avl_op', (a,)) for a in apis]

TRUST = ['rustc MIR construction and the fact extractor', 'models of the std leaf operations (Option, Arc, mem::take/replace/swap, Ord::cmp)', 'the abstract interpreter and its word normaliser']
ASSUME = ['K: Ord is a total order consistent between K and Q and not changed while stored', 'Clone of keys and values yields equal keys and values', 'the map satisfies the search-tree order on entry']
ABS = ('shape analysis by abstract interpretation of the MIR: each operation is run on an arbitrary search tree (a symbolic word of entries, unfolded on demand, '
       'with tabulated summaries for recursive helpers) and the contents it leaves and returns must be the specified word for every outcome; a violation needs a concrete instance of the abstract state on which they differ')

import stack_roles, stack_api
STACK = {e[0]: e for e in stack_api.OPS}
STK = {'clone': '<stack::Stack<T> as std::clone::Clone>::clone', 'into_iter': '<stack::Stack<T> as std::iter::IntoIterator>::into_iter'}
def stack_interp(F, deadline, ex=None):
    R = stack_roles.StackRoles(F)
    if not R.node_adt: raise Undecided('no list node type')
    words.Mode.unit = False; words.Mode.nokey = True
    I = Interp(F, 'seq', R); I.keytypes = set(); I.valtypes = {'T'}; I.want_panics = True
    I.S.policies = []; I.deadline = time.time() + deadline
    if ex: I.exact = ex; I.unroll = 40; I.budget *= 10
    return I
def stack_op(F, op, ex=None, out=None):
    """one public operation of the stack, from an arbitrary list (with ex: a list of at most ex[0] elements, loops unrolled)"""
    name, names, sp = STACK[op]
    key = F.key_of(STK[op]) if op in STK else avl_api.fnkey(F, 'stack::Stack::<T>::' + name)
    if not key: return missing('Stack ' + name)
    I = stack_interp(F, 240, ex)
    def pre(I, st, ctx):
        for S, v in b0.lens: pass
    b = avl_api.builder(names)
    def bb(I, st, ctx):
        ctx['key'] = key; ctx['show'] = ['M']
        a = b(I, st, ctx)
        for S, v in ctx['lens']: st.ge(v); st.eq0(lin.sub(v, lin.var('c:' + S)))
        if 'at' in names:
            # an index outside of the stack is refused: that path is checked separately
            n = dict(ctx['lens'])['M']
            if out: st.ge(lin.sub(lin.var('at'), lin.add(n, lin.const(0 if op == 'remove' else 1))))
            else: st.ge(lin.sub(n, lin.add(lin.var('at'), lin.const(1 if op == 'remove' else 0))))
        return a
    if out: I.want_panics = False; sp = stack_api.oob(op)
    r = spec.run(I, key, bb, sp, name)
    if out and not r.outs and not r.err: r.n += 1; r.good += 1
    if ex and r.err is None: r.lost = {k: v for k, v in r.lost.items() if k[0] != 'bound'} if isinstance(r.lost, dict) else r.lost
    info = dict(function=F.fns[key]['disp'], outcomes=r.outs, summaries=len(I.S.table), functions_analysed=len(I.analysed), statements=I.stats['stmts'])
    if ex: info['bounded'] = f'lists of at most {ex[0]} elements'
    return result(r, info)
def stack_iter(F, ctor, mut):
    """one step of an iterator over the stack, from an arbitrary position"""
    ck = F.key_of(ctor)
    if not ck: return missing(ctor)
    it = iter_fns(F, ctor) or dict(ty=F.fns[ck]['locals'][0][0])
    key = it['next'].get('key') if 'next' in it else None
    if not key:
        # the impl asks for more than the constructor promises (a Clone bound)
        d = F.adt(it['ty'])
        c = [k for k in F.local_identity() if F.fns[k]['name'] == 'next' and F.adt(F.ty(F.fns[k]['locals'][1][0]).get('t', it['ty'])) == d and F.fns[k]['disp'].endswith('as std::iter::Iterator>::next')]
        if len(c) != 1: return missing(ctor + ': next of the returned iterator')
        key = c[0]
    I = stack_interp(F, 240)
    def bb(I, st, ctx):
        ctx.update(key=key, show=['D'], mut=mut)
        b = avl_api.Build(I)
        v = b.inner(st, ctx, it['ty'], 'D')
        st.cells[('A', 'D')] = v
        for S, n in b.lens: st.ge(n); st.eq0(lin.sub(n, lin.var('c:' + S)))
        return [('r', ('A', 'D'), ())]
    class C: pass
    def start(I, st, ctx):
        a = bb(I, st, ctx)
        return a
    # every shape of the iterator value
    import seqs
    r = None
    st = absint.St(); ctx = {}
    a = bb(I, st, ctx)
    for s, w in seqs.settle(st, lambda s: tuple(x for p in seqs.parts(I, s, s.cells[('A', 'D')]) for x in (p[1] if p[0] == 'w' else (('e', '*', p[1]),)))):
        s.extra['before'] = w
        s.extra['under'] = tuple((cn, w) for cn in s.cells if cn != ('A', 'D'))
        def b2(I, st0, ctx, s=s):
            ctx.update(key=key, show=['D'], mut=mut)
            for n in s.__slots__ if hasattr(s, '__slots__') else s.__dict__: setattr(st0, n, getattr(s.copy(), n))
            return a
        q = spec.run(I, key, b2, stack_api.s_next, ctor)
        if r is None: r = q
        else:
            r.n += q.n; r.good += q.good; r.viol.update(q.viol); r.und.update(q.und); r.outs += q.outs; r.err = r.err or q.err; r.lost.update(q.lost)
    return result(r, dict(function=F.fns[key]['disp'], iterator=F.tstr(it['ty']), outcomes=r.outs, summaries=len(I.S.table), functions_analysed=len(I.analysed), statements=I.stats['stmts']))
import stack_drop, concrete
DROPOPS = ['push', 'pop', 'top', 'top_mut', 'clear', 'clone', 'remove', 'split_off', 'iter_mut', 'into_iter', 'drop']
DROPK = dict(STK, drop='<stack::Stack<T> as std::ops::Drop>::drop')
def stack_dropop(F, op, ex=None):
    """every drop executed by one operation of the stack"""
    sp = stack_drop.spec_exit if op in ('drop', 'clear') else stack_drop.spec_none
    names = ['M'] if op == 'drop' else STACK[op][1]
    key = F.key_of(DROPK[op]) if op in DROPK else avl_api.fnkey(F, 'stack::Stack::<T>::' + op)
    if not key: return missing('Stack ' + op) if op != 'drop' else dict(obligations=0, discharged=0, viol=[], und=[], info=dict(note='no destructor'))
    I = stack_interp(F, 240, ex); I.want_panics = False
    I.drops_ok = set(); I.drops_bad = []; I.hooks['drop'] = stack_drop.hook
    b = avl_api.builder(names)
    def bb(I, st, ctx):
        ctx['key'] = key; ctx['show'] = ['M']
        a = b(I, st, ctx)
        for S, v in ctx['lens']: st.ge(v); st.eq0(lin.sub(v, lin.var('c:' + S)))
        if 'at' in names:
            n = dict(ctx['lens'])['M']; st.ge(lin.sub(n, lin.add(lin.var('at'), lin.const(1 if op == 'remove' else 0))))
        return a
    r = spec.run(I, key, bb, sp, op)
    if ex: r.lost = {k: v for k, v in r.lost.items() if k[0] != 'bound'}
    for w in I.drops_ok: r.n += 1; r.good += 1
    for st, w, what, insum in I.drops_bad:
        r.n += 1
        cx = None
        if not insum and what != 'unknown' and not st.und: cx = concrete.refute(st, (('e', 0, ('c', 'bounded')),), (('e', 0, ('c', 'recursive')),), ('M',))
        t = f'drop in {w[0]}'
        if cx: r.viol[t] = dict(expected='destroys at most one node', got=f'{what}, destroyed recursively, at {w[1]}', instance=cx, trace=())
        else: r.und[t] = ('bounded', what, ())
    info = dict(function=F.fns[key]['disp'], outcomes=r.outs, drops=sorted(' at '.join(w) for w in I.drops_ok), summaries=len(I.S.table), functions_analysed=len(I.analysed), statements=I.stats['stmts'])
    if ex: info['bounded'] = f'lists of at most {ex[0]} elements'
    return result(r, info)
def stack_droplint(F): return stack_drop.lint(F)
import lints
LINTRULE = ('dataflow over the MIR of every function of the crate: backward slices of operands, edge-dominating tests and the call graph; a construct is reported when the rule is broken on some path through it')
import witness
def witnesses(F): return witness.run()
def lint(F, name):
    return getattr(lints, name)(F)
CLONES = [('avl.clone', 'avl_op', ('avl.clone',)), ('avlset.clone', 'avl_op', ('avlset.clone',)), ('bt.clone.N2', 'bt_op', ('bt.clone',)), ('btset.clone.N2', 'bt_op', ('btset.clone',)), ]
NUMMAP = ('insert', 'remove', 'remove_entry', 'get_mut', 'pop_first', 'pop_last', 'clear', 'split_off', 'append', 'new_union', 'new_intersect', 'new_diff', 'new_sym_diff', 'new_join', 'retain', 'for_each_mut')
NUMSET = ('insert', 'replace', 'remove', 'take', 'pop_first', 'pop_last', 'clear', 'split_off', 'append', 'new_union', 'new_intersection', 'new_diff', 'new_sym_diff', 'retain')
NUM = ('abstract interpretation of the MIR in a domain of tree heights and balances (linear constraints): each operation runs on an arbitrary balanced tree with right stored heights, '
       'recursive helpers are tabulated, and every node built must store its children\'s heights, which differ by at most one')
SEX = (6, 12, 240)
import client_props
def client_op(F, op, sizes=None): return client_props.client_op(F, op, sizes)
def client_tasks(p):
    def f(F, tier):
        out = []
        for k in client_props.GROUPS[p]:
            out.append((k, 'client_op', (k,)))
            w = client_props.wider(k, tier != 'quick')
            g = client_props.large(k)
            if tier == 'quick': g = [x for x in g if sum(v for v in x.values() if isinstance(v, int)) < 90]
            if g: out.append((k + ' large', 'client_op', (k, g)))
            if tier == 'quick':
                if w: out.append((k + ' wider', 'client_op', (k, w)))
            else: out += [(f"{k} {'x'.join(str(v) for v in x.values())}", 'client_op', (k, [x])) for x in w]
        return out
    return f
CLIENT = ('abstract interpretation of the MIR in a domain of lists of bounded length under every order pattern of their keys: the operations that other checks decide on the representation (lookup, insertion, removal, iteration) act by contract, '
          'everything written on top of them, including the standard iterator adaptors, is interpreted for every pattern')
import btiter
_T = btiter.trees; _S = btiter.sample
TINY = [0, 1, 2] + _T(2, (1,)) + [((1, 2), (1, 1, 1))]
FULL = [0, 1, 2, 3] + _T(2, (1, 2)) + [(3, 1), (1, 1, 1, 1)] + [((1, 1), (1, 1)), ((1, 2), (1, 1, 2)), ((2, 1, 1), (1, 1)), ((1, 1), (2, 1), (1, 2))]
DEEP = _T(2, (1, 2, 3))[::7] + _S(_T(3, (1, 2)), 25) + [(((1, 1), (1, 1)), ((1, 1), (1, 1, 2)))]
RNG = [[0, 1, 2, 3, (1, 1), (1, 2), (2, 1)], [(2, 2), (1, 1, 1)], [(2, 1, 1)], [(1, 1, 2)], [(1, 2, 1)], [((1, 1), (1, 1))]]
RNGX = [[x] for x in ((2, 2, 1), (1, 2, 2), (2, 1, 2), (3, 1), (1, 3), ((1, 2), (1, 1)), ((1, 1), (2, 1)), ((1, 1), (1, 1, 1)), ((1, 1, 1), (1, 1)))]
_B = 'btree::BTreeMap::<K, V, N>::'; _BS = 'btree::btree_set::BTreeSet'; _FX = 'btree::fixed::BTreeMap'; _IN = ' as std::iter::IntoIterator>::into_iter'
BTI = {'bt.iter': (_B + 'iter', 'kv', False), 'bt.iter_mut': (_B + 'iter_mut', 'kv', True), 'bt.into_iter': ('<btree::BTreeMap<K, V, N>' + _IN, 'kv', None),
       'bt.into_iter (ref)': ("<&'a btree::BTreeMap<K, V, N>" + _IN, 'kv', False), 'bt.into_iter (ref mut)': ("<&'a mut btree::BTreeMap<K, V, N>" + _IN, 'kv', True),
       'bt.keys': (_B + 'keys', 'k', False), 'bt.values': (_B + 'values', 'v', False), 'bt.values_mut': (_B + 'values_mut', 'v', True), 'bt.into_keys': (_B + 'into_keys', 'k', None), 'bt.into_values': (_B + 'into_values', 'v', None),
       'btset.iter': (_BS + '::<T, N>::iter', 'k', False), 'btset.into_iter': (f'<{_BS}<T, N>' + _IN, 'k', None), 'btset.into_iter (ref)': (f"<&'a {_BS}<T, N>" + _IN, 'k', False),
       'bt.range': (_B + 'range', 'kv', False), 'bt.range_mut': (_B + 'range_mut', 'kv', True), 'btset.range': (_BS + '::<T, N>::range', 'k', False)}
def bt_iter(F, op, shapes, deadline=400):
    disp, kind, mut = BTI[op]
    return btiter.run(F, disp, kind, mut, shapes, 'range' in op, 'vec', deadline)
def bt_iters(F, tier):
    q = tier == 'quick'; out = []
    for op in BTI:
        if 'range' in op:
            for i, g in enumerate(RNG if op == 'bt.range' or not q else RNG[:3] if 'mut' in op else RNG[:2]): out.append((f'{op} {i}', 'bt_iter', (op, g)))
            if not q: out += [(f'{op} x{i}', 'bt_iter', (op, g, 3000)) for i, g in enumerate(RNGX)]
        else:
            out.append((op, 'bt_iter', (op, FULL if op in ('bt.iter', 'bt.iter_mut', 'bt.into_iter') else TINY)))
            if not q and op in ('bt.iter', 'bt.iter_mut', 'bt.into_iter'): out.append((op + ' deep', 'bt_iter', (op, DEEP, 3000)))
    return out
import fixedmap
def _span(shape, path):
    """positions of keys at and around the entries of one node or subtree"""
    lo = 0
    if shape is None: return range(1)
    for i in path:
        lo += sum(btiter.count(s) + 1 for s in shape[:i]); shape = shape[i]
    return range(2 * lo, 2 * (lo + btiter.count(shape)) + 1)
_L = (5,) * 6; _L7 = (5,) * 7
def _w(i): return (5,) * i + (11,) + (5,) * (11 - i)
FXLEAF = [(None, ()), (1, ()), (2, ()), (5, ()), (10, ()), (11, ())]
FXINS = [((5, 5), ()), ((5, 11), ()), ((11, 5), ()), ((5, 11, 5), (1,)), (_w(0), (0,)), (_w(5), (5,)), (_w(6), (6,)), (_w(11), (11,)), ((_L, _L), (0, 2)), ((_L, _w(0)), (1, 0)), ((_L, _w(11)), (1, 11)), ((_w(6), _L), (0, 6)), ((_w(5), _L), (0, 5))]
FXREM = [((5, 5), ()), ((5, 6), ()), ((6, 5), ()), ((5, 7), (0,)), ((7, 5), (1,)), ((5, 5, 5), ()), ((6, 5, 5), (1,)), ((5, 5, 6), (1,)), ((5, 11), (0,)), ((11, 5), (1,)), ((5, 6, 5), (2,)),
         ((_L, _L), (0, 0)), ((_L, _L), (1, 5)), ((_L, _L), (1, 2)), ((_L, _L7), (0, 0)), ((_L, _L7), (0, 5)), ((_L7, _L), (1, 0)), ((_L7, _L), (1, 5)), ((_L, _L, _L), (1, 3)), ((_L, _w(6)), (0, 3)), ((_w(6), _L), (1, 3))]
FXX = [((5, 5, 5, 5), ()), ((5, 6, 6), ()), ((6, 6, 5), ()), ((10, 5), ()), ((11, 11), ()), (_w(3), (3,)), (_w(9), (9,)), ((_L, _L, _L), (0, 1)), ((_L, _L, _L), (2, 4)), ((_L7, _L), (1, 2)), ((_L, (6,) + _L), (0, 4)), ((_L, _L[:5] + (11,)), (1, 5)), ((_L, _w(3)), (1, 3)), ((_w(9), _L), (0, 9))]
FXIT = [(None, 'U'), (1, 'U'), (2, 'U'), (2, 'S'), (3, 'U'), ((1, 1), 'U'), ((1, 1), 'S'), ((1, 1), 'L'), ((2, 1), 'U'), ((1, 1, 1), 'K'), ((1, 1, 1), 'U')]
FXR = 'node trees of bounded size, a node being its slots, initialised or not; raw pointers are positions among them, every key and value is an instance that is cloned, moved, destroyed; every position of the key and several sharing patterns of the nodes'
FXITX = [((2, 2), m) for m in 'USL'] + [((1, 2), m) for m in 'USKL'] + [((1, 1, 1), m) for m in 'SL'] + [(((1, 1), (1, 1)), m) for m in 'USKL'] + [((2, 2, 1), 'U'), ((1, 2, 2), 'K'), (((1, 1), (1, 1), (1, 1)), 'U')]
def fx_op(F, op, cases, part): return fixedmap.run(F, op, [(s, m, _span(s, p)) for s, p, m in cases], part)
def fx_other(F, op, cases, part): return fixedmap.run(F, op, [(s, m, [None]) for s, m in cases], part)
def fx_iter(F, op, cases, part): return fixedmap.run_iter(F, op, cases, part)
def fixed_tasks(part):
    def f(F, tier):
        q = tier == 'quick'; out = []
        for op, G in (('insert', FXINS), ('remove', FXREM)):
            for s, p in FXLEAF: out.append((f'fixed.{op} {s}', 'fx_op', (op, [(s, p, m) for m in 'US'], part)))
            for i, (s, p) in enumerate(G + ([] if q else FXX)):
                big = btiter.count(s) > 40
                for m in ('US' if big else 'USKL') if not q else ('US' if not big else 'US'[i % 2]): out.append((f'fixed.{op} {str(s)[:60]} {p} {m}', 'fx_op', (op, [(s, p, m)], part)))
        for op in ('get', 'get_mut'):
            out.append((f'fixed.{op}', 'fx_op', (op, [(s, p, m) for s, p in FXLEAF[:4] + [((5, 5), ()), ((5, 5, 5), (1,))] for m in 'US'], part)))
        for op in ('len', 'is_empty', 'clear', 'clone', 'drop'):
            if part == 'map' and op == 'drop': continue
            out.append((f'fixed.{op}', 'fx_other', (op, [(s, m) for s in (None, 1, 5, 11, (5, 5), (5, 11, 5), (_L, _L)) for m in 'USKL'], part)))
        for op in ('new', 'default'): out.append((f'fixed.{op}', 'fx_other', (op, [(None, 'U')], part)))
        its = FXIT + ([] if q else FXITX)
        for op in ('into_iter', 'iter_mut', 'iter'):
            for k in range(0, len(its), 4): out.append((f'fixed.{op} {k // 4}', 'fx_iter', (op, its[k:k + 4], part)))
        return out
    return f
import serdes
def de(F, *a): return serdes.task(F, *a)
def ser(F, *a): return serdes.ser(F, *a)
BIG = 2 ** 64 - 1
def serde_tasks(F, tier):
    q = tier == 'quick'; out = []
    for k in ('avl', 'bt'):
        name = {'avl': 'avl', 'bt': 'bt'}[k]
        out.append((name + '.serialize', 'ser', (k, list(range(5 if q else 9)))))
        for n in range(4): out.append((f'{name}.deserialize {n} entries', 'de', (k, n, [None] + list(range(n + 4)) + [9], 'any')))
        out.append((f'{name}.deserialize failing', 'de', (k, 5, [None, 0, 3, 5, 6, 9], 'sorted', [0, 1, 2, 3, 4, 5])))
        out.append((f'{name}.deserialize huge announcement', 'de', (k, 5, [40, 2 ** 32, BIG // 2, BIG - 1, BIG], 'sorted')))
        for h in [None, 0, 1, 3, 4, 5, 6, 8]: out.append((f'{name}.deserialize 4 entries, announced {h}', 'de', (k, 4, [h], 'any')))
        for n in (6, 7, 8, 9, 11, 13, 16, 20) if q else range(6, 40): out.append((f'{name}.deserialize {n} sorted entries', 'de', (k, n, [None, 0, n // 2, n - 2, n - 1, n, n + 1, n + 2, n + 5, 2 * n], 'sorted')))
        if k == 'bt' or not q:
            for h in (4, 5, 6): out.append((f'{name}.deserialize 5 entries, announced {h}', 'de', (k, 5, [h], 'any', (None,), 1, 800)))
        if k == 'bt':
            for o in (2, 5): out += [(f'{name}.deserialize {n} sorted entries, minimum {o}', 'de', (k, n, [None, n // 2, n - 1, n, n + 1, n + 3], 'sorted', (None,), o)) for n in ((6, 7, 12, 13, 18) if o == 2 else (12, 13, 24, 26, 40))]
    return out
CTR = TRUST + ['the contracts of the point operations and iterators, decided by other checks (C01, C02, C05, C07, C19)']
CLA = ['Ord is a total order consistent with Eq', 'Clone yields equal values', 'user closures have no effect on the collection', 'operations treat entries uniformly, so lists of bounded length are representative']
PROPS = {
 **{p: dict(level='other', trusted=CTR, assumptions=CLA, rule=CLIENT, tasks=client_tasks(p)) for p in client_props.GROUPS},
  **{p: dict(level='other', trusted=TRUST, assumptions=['Ord is a total order', 'Clone and the destructors of keys and values do not panic'],
   rule=ABS.split(':')[0] + ': ' + FXR, tasks=fixed_tasks(w)) for p, w in (('C17', 'safe'), ('C18', 'map'))},
 'C22': dict(level='other', serde=True, trusted=TRUST, assumptions=['Ord is a total order', 'the data format delivers keys and values alternately and ends once'],
   rule=ABS.split(':')[0] + ': the crate with its feature serde; a data format that announces any length, delivers a bounded number of entries under every order pattern of their keys, or fails at any of them; trees are explicit and everything is interpreted', tasks=serde_tasks),
 'C11': dict(level='other', trusted=TRUST, assumptions=ASSUME + ['the bounds of a range are in order, and not equal when both are excluded'],
   rule=ABS.split(':')[0] + ': node trees of bounded size over symbolic entries, every node shared or not, every placement of the bounds; the iterator and every interleaving of steps from both ends are interpreted', tasks=bt_iters),
 'C06': dict(level='other', trusted=TRUST, assumptions=ASSUME + ['the bounds are in order, and not equal when both are excluded'],
   rule=ABS + '; the construction of range iterators is examined with its loops unrolled on all trees of bounded height, the steps of the iterators from an arbitrary position', tasks=avl_ranges),
 'C20': dict(level='proof', trusted=TRUST, assumptions=['destructors of elements do not panic and do not themselves nest deeply'],
   rule=ABS.split(':')[0] + ': every drop executed by a stack operation is classified; it must destroy nothing, something shared, or a node whose own link is empty or shared, so the drop glue never recurses along the list; no function recurses along it either',
   tasks=lambda F, tier: [('stack.' + o + ' drops', 'stack_dropop', (o,)) for o in DROPOPS if o not in ('remove', 'split_off')] + [(f'stack.{o} drops (lists up to 4)', 'stack_dropop', (o, (4, 99, 240))) for o in DROPOPS] + [('owners and recursion', 'stack_droplint', ())]),
 'C19': dict(level='proof', trusted=TRUST, assumptions=['T: Clone yields equal values', 'the stored length equals the number of elements on entry'],
   rule=ABS + '; remove and split_off, which count links from the top, are examined with their loops unrolled on lists of bounded length',
   tasks=lambda F, tier: [('stack.' + o, 'stack_op', (o,)) for o in STACK if o not in ('remove', 'split_off')]
     + [(f'stack.{o} (lists up to {n})', 'stack_op', (o, (n, 99, 240))) for o in ('remove', 'split_off') for n in ((3, 6) if tier == 'quick' else (3, 6, 12))]
     + [(f'stack.{o} (index out of range)', 'stack_op', (o, (3, 99, 240), True)) for o in ('remove', 'split_off')]
     + [('stack iter next', 'stack_iter', ('stack::Stack::<T>::iter', False)), ('stack iter_mut next', 'stack_iter', ('stack::Stack::<T>::iter_mut', True)), ('stack into_iter next', 'stack_iter', (STK['into_iter'], False))]),
 'C16': dict(level='proof', trusted=['rustc type and borrow checker'], assumptions=['a witness over an arbitrary type parameter stands for every type; the other witnesses for the shape of use they show'],
   rule='type-level encodings and compile-fail witnesses: small programs over the public types are compiled (never run) against the current source; each must be accepted, or rejected with the error code that names the rule', tasks=lambda F, tier: [('witness programs', 'witnesses', ())]),
 'C12': dict(level='proof', trusted=TRUST, assumptions=['safe Rust keeps memory reached through shared references unchanged (no interior mutability in K or V of its own)'], rule=LINTRULE + '; Clone of each collection is run by abstract interpretation',
   tasks=lambda F, tier: [('unshared memory', 'lint', ('unshared_memory',))] + CLONES),
 'C13': dict(level='proof', trusted=TRUST, assumptions=['a uniqueness test of Rc/Arc (get_mut, try_unwrap, make_mut, strong_count) is right'], rule=LINTRULE,
   tasks=lambda F, tier: [(n, 'lint', (n,)) for n in ('sharing', 'cheap_clone', 'pure_reads')]),
 'C03': dict(level='proof', trusted=TRUST, assumptions=['every node of the argument trees is balanced and stores right heights', 'heights fit in i8 (fewer than 2^64 entries)'], rule=NUM,
   tasks=lambda F, tier: [('avl.' + o + ' heights', 'avl_num', ('avl.' + o,)) for o in NUMMAP] + [('avlset.' + o + ' heights', 'avl_num', ('avlset.' + o,)) for o in NUMSET]),
 'C05': dict(level='proof', trusted=TRUST, assumptions=ASSUME, rule=ABS, tasks=avl_iters),
 'C14': dict(level='proof', trusted=TRUST, assumptions=ASSUME, rule=ABS, tasks=avl_sizes),
 'C01': dict(level='proof', trusted=TRUST, assumptions=ASSUME, rule=ABS,
   tasks=avl_tasks(*['avl.' + x for x in ('insert', 'remove', 'remove_entry', 'get', 'get_mut', 'get_key_value', 'contains_key', 'first_key_value', 'last_key_value', 'pop_first', 'pop_last', 'clear', 'new', 'is_empty')],
                   *['avlset.' + x for x in ('insert', 'replace', 'remove', 'take', 'get', 'contains', 'first', 'last', 'pop_first', 'pop_last', 'clear', 'new', 'is_empty')])),
 'C02': dict(level='proof', trusted=TRUST, assumptions=ASSUME, rule=ABS,
   tasks=avl_tasks(*['avl.' + x for x in ('split_off', 'append', 'new_union', 'new_intersect', 'new_diff', 'new_sym_diff', 'new_join')],
                   *['avlset.' + x for x in ('split_off', 'append', 'new_union', 'new_intersection', 'new_diff', 'new_sym_diff')])),
 'C24': dict(level='proof', trusted=TRUST, assumptions=ASSUME + ['the predicate of retain is a function of the entry'], rule=ABS,
   tasks=avl_tasks('avl.retain', 'avl.for_each', 'avl.for_each_mut', 'avlset.retain')),
 'C07': dict(level='proof', trusted=TRUST, assumptions=ASSUME, rule=ABS, tasks=bt_tasks('seq')),
 'C09': dict(level='proof', trusted=TRUST, assumptions=ASSUME, rule=ABS, tasks=bt_tasks('shape', MUTATORS)),
 'C10': dict(level='proof', trusted=TRUST, assumptions=ASSUME, rule=ABS, tasks=bt_tasks('len', MUTATORS)),
 'C04': dict(level='proof', trusted=TRUST, assumptions=ASSUME, rule=ABS, tasks=avl_len),
}
