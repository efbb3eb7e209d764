"""Destruction of stacks: no chain of nodes owned by one handle alone is ever left to the drop glue, which recurses
once per node.  Every drop executed by an operation is examined: what it destroys must be empty, shared (then only a
count changes), or a node whose own link is empty or shared."""
import lin as L
from absint import *
import concrete, stack_roles

def owns(F, R, ty, seen=()):
    """does dropping a value of this type destroy list nodes (other than through a Drop impl of the crate)?"""
    memo = F.__dict__.setdefault('_owns', {})
    if ty in memo: return memo[ty]
    if ty in seen or ty is None: return False
    x = F.ty(ty); k = x['k']; s = seen + (ty,)
    if R.role(ty): r = True
    elif k in ('struct', 'enum', 'union'):
        if x.get('dropimpl') and x.get('local'): r = False
        elif F.is_vec(ty) or F.is_box(ty): r = any(owns(F, R, a, s) for a in x.get('args', []) if isinstance(a, int))
        elif x.get('v') and not str(x.get('d')).startswith('core::marker'): r = any(owns(F, R, f['t'], s) for v in x['v'] for f in v['f'])
        else: r = any(owns(F, R, a, s) for a in x.get('args', []) if isinstance(a, int))
    elif k == 'tuple': r = any(owns(F, R, t, s) for t in x['ts'])
    elif k == 'closure': r = any(owns(F, R, t, s) for t in x['ups'])
    elif k in ('array', 'slice'): r = owns(F, R, x['t'], s)
    else: r = False
    if not seen: memo[ty] = r
    return r
def check(I, st, v, ty):
    """None when this drop is bounded, else what it destroys"""
    F = I.F; R = I.R
    if v[0] in ('u', 'T'): return None if v[0] == 'u' else 'unknown'
    r = R.role(ty)
    if r is None:
        x = F.ty(ty)
        v = I.force(st, v)
        if v[0] == 'u': return None
        if v[0] == 'a':
            ts = [f['t'] for f in x['v'][v[2]]['f']] if x.get('v') else x.get('ts') or x.get('ups') or []
            for f, t in zip(v[3], ts):
                if owns(F, R, t):
                    b = check(I, st, f, t)
                    if b: return b
            return None
        if v[0] == 'vec' and not v[2]: return None
        return 'unknown'
    v = I.force(st, v)
    if r == 'opt': return None if v[2] == 0 else check(I, st, v[3][0], F.ty(ty)['args'][0])
    if r == 'arc':
        if v[2] == 'S': return None
        return node(I, st, v[1], F.ty(ty)['args'][0])
    return node(I, st, v, ty)
def node(I, st, v, ty):
    F = I.F; R = I.R
    if v[0] == 'u': return None
    v = I.force(st, v); ft = F.ty(ty)['v'][0]['f'][R.fr]['t']; rest = v[3][R.fr]
    if rest[0] == 'u': return None
    rest = I.force(st, rest)
    if rest[0] == 'u' or rest[2] == 0: return None
    a = I.force(st, rest[3][0])
    return None if a[0] == 'arc' and a[2] == 'S' else 'a chain of nodes'
def hook(I, st, v, ty, fr):
    if ty is None or not owns(I.F, I.R, ty): return
    b = check(I, st, v, ty)
    f = I.F.fns[I.fnstack[-1]] if I.fnstack else None
    where = (f['disp'] if f else '?', str(I.cur))
    if b is None: I.drops_ok.add(where)
    else: I.drops_bad.append((st.copy(), where, b, bool(I.S.stack)))
def spec_exit(c):
    v = c.force(c.s.cells[('A', 'M')]); b = None
    for f, x in zip(v[3], c.I.F.ty(v[1])['v'][0]['f']):
        if owns(c.I.F, c.I.R, x['t']): b = b or check(c.I, c.s, f, x['t'])
    if b == 'unknown': raise Undecided('fields after the destructor')
    c.flag('left to the drop glue', 'at most one node', b or 'at most one node')
def spec_none(c): c.ok('path')
def lint(F):
    """no other owner of a bare list, no recursion along the list, every drop of list nodes in a function that is examined"""
    R = stack_roles.StackRoles(F); viol = []; und = []; n = 0
    if not R.node_adt: return dict(obligations=1, discharged=0, viol=[], und=[('anchor', 'no list node type')], info={})
    owners = []
    for i, t in enumerate(F.types):
        if t and t['k'] in ('struct', 'enum') and t.get('local') and t.get('v') and t['d'] != R.node_adt and t['d'] not in owners:
            if any(owns(F, R, f['t']) for v in t['v'] for f in v['f']):
                owners.append(t['d']); n += 1
                if not t.get('dropimpl'): viol.append(('owner without destructor', dict(expected='a Drop impl that empties the list first', got=t['d'] + ' owns list nodes and has none', instance='a value of this type that alone owns a long list', trace=())))
    scc = F.sccs(); stk = [k for k in F.local_identity() if F.fns[k]['disp'].startswith(('stack::', '<stack::', '<&')) and 'stack' in F.fns[k]['disp']]
    mod = {F.fns[k]['path'].rsplit('::', 1)[0] for k in stk}
    n += len(stk)
    for k in stk:
        f = F.fns[k]
        if scc.get(k, (0, False))[1]:
            # recursion is along the list when a list node is passed down
            tys = [f['locals'][i][0] for i in range(1, f['argc'] + 1)]
            if any(R.role(t) or F.ty(t)['k'] in ('ref', 'ptr') and R.role(F.ty(t)['t']) for t in tys):
                viol.append(('recursion along the list', dict(expected='a loop', got=f['disp'] + ' calls itself', instance='a list longer than the call stack allows', trace=())))
            else: und.append(('recursion', f['disp']))
    return dict(obligations=n, discharged=n - len(viol) - len(und), viol=viol, und=und, info=dict(owning_types=owners, functions_analysed=len(stk), node_type=R.node_adt))
def unexamined(F, done):
    """functions with drops of list nodes that no examined operation reaches"""
    R = stack_roles.StackRoles(F); out = []
    for k in F.local_identity():
        f = F.fns[k]
        if f['disp'] in done: continue
        for b in f['blocks']:
            if not b['c'] and b['t'][0] == 'drop' and owns(F, R, b['t'][4]): out.append(f['disp']); break
    return out
