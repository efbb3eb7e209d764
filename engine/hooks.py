"""Abstract behaviour of user-supplied closures."""
from absint import *

def callback(I, f, args, st):
    """a user closure over entries: records the entry as an event; `&mut` values become post(value);
    a boolean result is an arbitrary function of the key, remembered in `keep`"""
    F = I.F
    tup = I.force(st, args[1])
    fn = I.curfn
    tys = [x for x in (fn.get('args') or []) if isinstance(x, int)]
    tty = F.ty(tys[1]) if len(tys) > 1 else None
    key = None; val = None; mcell = None
    def walk(v, ty, mut):
        nonlocal key, val, mcell
        x = F.ty(ty) if ty is not None else {}
        if x.get('k') == 'tuple' and x['ts']:
            v = I.force(st, v)
            for a, t in zip(v[3], x['ts']): walk(a, t, mut)
            return
        if x.get('k') == 'ref':
            v = I.force(st, v)
            if v[0] != 'r': raise Undecided('callback argument ' + v[0])
            if x.get('m') and F.ty(x['t'])['k'] not in ('tuple',): cell = (v[1], v[2])
            else: cell = None
            inner = I.res(st, I.get(st, v[1], v[2]))
            w = inner
            if w[0] == 's' and I.keylike(w[2]):
                if key is None: key = w[1]
                return
            if F.ty(x['t'])['k'] in ('tuple', 'ref'): walk(inner, x['t'], mut); return
            val = w; mcell = cell; return
        v = I.res(st, v)
        if v[0] == 's' and I.keylike(v[2]) and key is None: key = v[1]
        else: val = v
    walk(tup, tys[1] if len(tys) > 1 else None, False)
    if key is None: raise Undecided('callback without a key')
    kk = st.r(key)
    s0 = st.copy()
    term = I.cterm(s0, val) if val is not None else UNIT
    s0.ev = s0.ev + (('e', kk, term),)
    if mcell is not None:
        n = s0.fresh('post')
        s0.tdef[n] = ('post', term)
        vty = val[2] if val[0] == 's' else None
        I.put(s0, mcell[0], mcell[1], ('s', n, vty) if vty is not None else val)
    dty = I.curdest
    if dty is None or F.ty(dty)['k'] != 'bool': return [(s0, UNIT)]
    out = []
    for b in (True, False):
        if s0.keep.get(kk, b) != b: continue
        t = s0.copy(); t.keep[kk] = b
        out.append((t, B(b)))
    return out
