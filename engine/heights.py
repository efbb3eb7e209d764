"""Numeric obligations on AVL trees: every node an operation builds stores the heights of its two
children and these differ by at most one.  Trees are abstracted by their height and balance; summaries
of recursive helpers carry balances and small height differences."""
from absint import *
from summ import Abs
import roles

def callback(I, f, args, st):
    """a user closure: any boolean; values behind `&mut` do not matter for heights"""
    dty = I.curdest
    if dty is None or I.F.ty(dty)['k'] != 'bool': return [(st, UNIT)]
    return [(st.copy(), B(True)), (st.copy(), B(False))]

def finish(I, f, st, rv):
    """folding the final values raises the obligations on the nodes still materialised"""
    todo = [st]; n = 0
    while todo:
        s = todo.pop().copy(); n += 1
        if n > 2000: raise Undecided('too many cases')
        try:
            O = Abs(I, s, St(), 'o')
            O.val(rv, f['locals'][0][0])
            for ck, v in sorted(s.cells.items(), key=str):
                if isinstance(ck, tuple) and ck and ck[0] == 'A':
                    t = I.ty_of_content(v, None)
                    if t is not None: O.val(v, t)
        except Fork as fk: todo += fk.states
        except Dead: pass

def reachable(S):
    seen = set(); todo = list(S.roots or ())
    while todo:
        i = todo.pop()
        if i in seen: continue
        seen.add(i)
        e = S.byid.get(i)
        if e is not None: todo += list(e.deps)
    return [S.byid[i] for i in seen if i in S.byid]

def run(I, key, build):
    st = St(); ctx = {'key': key}
    f = I.F.fns[key]; err = None; outs = []
    try:
        args = build(I, st, ctx)
        outs = I.S.run_top(key, args, st)
        top = [(s, rv) for s, rv in outs if rv[0] != 'panic']
        for s, rv in top: finish(I, f, s, rv)
    except Undecided as e:
        err = e.why + ' in ' + ' > '.join(I.F.fns[k]['path'].split('::', 1)[-1] for k in I.fnstack[-4:]); I.fnstack.clear(); I.S.stack.clear()
    viol = {}; und = {}; pan = {}
    for e in reachable(I.S):
        for k, v in e.viol.items(): viol.setdefault(k, v)
        for k, v in e.und.items(): und.setdefault(k, v)
        if e.pan or e.panu: pan[I.F.fns[e.key]['path']] = str(e.panu or e.pan[0][0]['ret'])
    for k, v in I.viol.items(): viol.setdefault(k, v)
    for k, v in I.und.items(): und.setdefault(k, v)
    for s, w in I.panicked: pan[str(w)] = 'at top'
    return viol, und, pan, err, outs
