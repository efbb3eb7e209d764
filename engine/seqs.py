"""Queues and user iterators as sequences.

A vector segment ('q', S) stands for an unknown run of elements whose contents, read in order, are
the opaque word S.  It is unfolded on demand at either end (an element of every possible shape,
followed or preceded by another unknown run) and folded again at summary boundaries."""
from absint import attempt, Dead, Undecided, Fork, UNIT
from words import Words

def settle(st, fn):
    """[(state, fn(state))] over the case splits fn asks for"""
    todo = [st]; res = []
    while todo:
        s = todo.pop().copy()
        try: res.append((s, fn(s)))
        except Fork as f: todo += f.states
        except Dead: pass
    return res

def parts(I, st, v, ty=None, depth=0):
    """what a value contributes to the sequence: ('w', word) | ('K', key) | ('V', term), in field order"""
    F = I.F
    v = I.res(st, v)
    if depth > 30: raise Undecided('deep element')
    if v[0] == 's':
        r = I.R.role(v[2])
        if r in ('opt', 'arc', 'node'):
            if r != 'opt': I.set_nonempty(st, v[1])
            return [('w', (('t', v[1]),))]
        x = F.ty(v[2]); k = x['k']
        if I.keylike(v[2]): return [('K', v[1])]
        if not I.otherscalar(v[2]): return [('V', ('s', v[1]))]
        if k in ('ref', 'ptr', 'tuple', 'struct', 'enum') or F.is_box(v[2]): return parts(I, st, I.force(st, v), None, depth + 1)
        return []
    if v[0] == 'r':
        x = I.get(st, v[1], v[2])
        return parts(I, st, x, None, depth + 1)
    if v[0] == 'arc': return parts(I, st, v[1], None, depth + 1)
    if v[0] == 'tm': return [('V', v)]
    if v[0] == 'vec':
        out = []
        for s in resolve(st, v[2]): out.append(('w', segword(I, st, s)))
        return out
    if v[0] == 'a':
        if v[1] is not None and I.R.role(v[1]) in ('opt', 'node'): return [('w', I.R.word(I, st, v, v[1]))]
        out = []
        for f in v[3]: out += parts(I, st, f, None, depth + 1)
        return out
    return []
def itemword(I, st, v):
    """the word of one element"""
    ps = parts(I, st, v)
    if all(p[0] == 'w' for p in ps): return tuple(a for p in ps for a in p[1])
    ks = [p for p in ps if p[0] == 'K']; vs = [p for p in ps if p[0] == 'V']
    if len(ks) + len(vs) != len(ps) or len(ks) > 1 or len(vs) > 1: raise Undecided('element with several entries')
    return (('e', ks[0][1] if ks else '*', vs[0][1] if vs else UNIT),)
def segword(I, st, s):
    if s[0] == 'q': return (('t', s[1]),)
    if s[0] == 'e': return itemword(I, st, s[1])
    raise Undecided('counted segment in a sequence')
def resolve(st, segs):
    if not any(s[0] == 'q' and ('q', s[1]) in st.defs for s in segs): return segs
    out = []
    for s in segs:
        if s[0] == 'q' and ('q', s[1]) in st.defs: out += resolve(st, st.defs[('q', s[1])])
        else: out.append(s)
    return tuple(out)
def isseq(segs): return any(s[0] == 'q' for s in segs)
def seqword(I, st, v):
    return tuple(a for s in resolve(st, v[2]) for a in segword(I, st, s))
def fold(I, st, v):
    """one symbol for the whole sequence"""
    segs = resolve(st, v[2])
    segs = tuple(s for s in segs if not (s[0] == 'q' and s[1] in st.empty))
    if len(segs) == 1 and segs[0][0] == 'q': return segs[0][1]
    w = tuple(a for s in segs for a in segword(I, st, s))
    for S, d in st.wdef.items():
        if d == w and S[0] == 'Q': return S
    S = st.fresh('Q')
    if not w: st.empty = st.empty | {S}
    st.wdef[S] = w
    for s in segs:
        if s[0] == 'e':
            if not segword(I, st, s): raise Undecided('element without entries')
            st.nonempty = st.nonempty | {S}
        elif s[1] in st.nonempty: st.nonempty = st.nonempty | {S}
    return S
def expand(I, st, S, ety, back):
    """case split of an unknown run: empty, or an element at the front (back) and the rest"""
    if S in st.wdef: 
        if not Words(st).nf(st.wdef[S]): raise Fork(attempt(st, lambda t: t.defs.__setitem__(('q', S), ())))
        raise Undecided('unfolding of a derived sequence')
    def none(t):
        I.set_empty(t, S); t.defs[('q', S)] = ()
    out = attempt(st, none)
    e = f"e:{S}." + ('b' if back else 'f'); rest = S + ('.i' if back else '.r')
    for t in attempt(st, lambda t: I.set_nonempty(t, S)):
        v = I.mk(t, e, ety)
        for t2, w in settle(t, lambda s: itemword(I, s, v)):
            if not w: continue       # a shape that holds no entry is never queued
            seg = ('e', v); q = ('q', rest)
            t2.defs[('q', S)] = (q, seg) if back else (seg, q)
            t2.wdef[S] = ((('t', rest),) + w) if back else (w + (('t', rest),))
            # sorted: the element against the rest
            if I.hooks.get('torder'): order(t2, S, w, rest, back)
            out.append(t2)
    raise Fork(out)
def order(st, S, w, rest, back):
    """facts about the whole run hold for its parts, and the parts are sorted"""
    old = list(st.order)
    terms = [('t', a[1]) if a[0] == 't' else st.r(a[1]) for a in w] + [('t', rest)]
    for p, q in old:
        if p == ('t', S):
            for u in terms: st.add_lt(u, q)
        if q == ('t', S):
            for u in terms: st.add_lt(p, u)
    seq = [('t', rest)] + terms[:-1] if back else terms
    for i, a in enumerate(seq):
        for b in seq[i + 1:]: st.add_lt(a, b)
