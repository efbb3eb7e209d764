"""Serialization and deserialization of the maps (feature `serde`).

Deserialization is interpreted from the public trait with a data format that is a list of entries of
bounded length, announces any length, and may fail at any entry; the trees that are put together are
explicit.  Serialization runs on explicit maps with an arbitrary serializer."""
import time
import lin as L
import client, roles, btiter
from client import C, Result, Client
from absint import *

class Input:
    maxdepth = 600
    """hooks for the data format"""
    def fmt(self, fn, args, st):
        tr = fn.get('trait') or ''; name = fn.get('name')
        if tr.endswith('::MapAccess'):
            if name == 'size_hint': return [(st, self.NONE if self.hint is None else self.SOME(I(self.hint)))]
            if name in ('next_entry', 'next_key', 'next_value'):
                st = st.copy(); i, half = st.extra.get('at', (0, False)); et = self.curdest
                if self.fail is not None and i == self.fail and name != 'next_value': st.extra['failed'] = True; return [(st, ('a', et, 1, (('s', 'fault', None),)))]
                if name == 'next_value':
                    if not half: raise Undecided('value before its key')
                    st.extra['at'] = (i + 1, False); return [(st, ('a', et, 0, (self.inp[i][1],)))]
                if half: raise Undecided('key before the last value')
                if i >= len(self.inp): st.extra['ended'] = True; return [(st, ('a', et, 0, (self.NONE,)))]
                if name == 'next_key': st.extra['at'] = (i, True); return [(st, ('a', et, 0, (self.SOME(self.inp[i][0]),)))]
                st.extra['at'] = (i + 1, False); return [(st, ('a', et, 0, (self.SOME(self.pair(*self.inp[i])),)))]
        if name in ("to_string", "to_owned", "from", "new", "into") and self.curdest is not None and self.F.tstr(self.curdest).endswith("String"): return [(st, ("s", "text", self.curdest))]
        ser = tr.endswith('::Serializer') or tr.endswith('::SerializeMap')
        if ser and name in ('serialize_map', 'serialize_entry', 'serialize_key', 'serialize_value', 'end', 'collect_map'): return self.emit(name, args, st)
        return None
    def emit(self, name, args, st):
        et = self.curdest; st = st.copy(); out = st.extra.get('out', ())
        if name == 'collect_map':
            x = self.iterval(st, args[1])
            v = x[2] if x else self.res(st, args[1])
            if v[0] != 'vec': raise Undecided('collect_map')
            st.extra['out'] = out + (('serialize_map', len(v[2])),) + tuple(('entry',) + tuple(self.sym(st, y) for y in self.res(st, s[1])[3]) for s in v[2]) + (('end',),)
            return [(st, ('a', et, 0, (('s', 'done', None),)))]
        if name == 'serialize_map':
            o = self.force(st, args[1]); n = None
            if o[2] == 1:
                n = st.lin.norm(self.res(st, o[3][0])[1]); n = int(n[0]) if L.is_const(n) else '?'
            ok = ('s', 'sink', None); ev = (name, n)
        elif name == 'end': ok = ('s', 'done', None); ev = ('end',)
        elif name == 'serialize_entry': ok = UNIT; ev = ('entry', self.sym(st, args[1]), self.sym(st, args[2]))
        elif name == 'serialize_key': ok = UNIT; ev = ('key', self.sym(st, args[1]))
        else:
            k = out[-1][1] if out and out[-1][0] == 'key' else '?'
            out = out[:-1]; ok = UNIT; ev = ('entry', k, self.sym(st, args[1]))
        bad = st.copy(); bad.extra['failed'] = True
        st.extra['out'] = out + (ev,)
        return [(st, ('a', et, 0, (ok,))), (bad, ('a', et, 1, (('s', 'fault', None),)))]

LIM = (700, 0, 0)
class Avl(Input, Client):
    kind = 'avl'
    def __init__(self, F, top):
        super().__init__(F, roles.AvlRoles(F), top); self.real = True; self.exact = LIM; self.unroll = 700
    def contract(self, fn, args, st):
        r = self.fmt(fn, args, st)
        return r if r is not None else super().contract(fn, args, st)
    def wf(self, st, v, check):
        ci = self.coll(v[1]); R = self.R0
        def go(x):
            x = self.res(st, x)
            if x[0] != 'a': raise Undecided('tree is ' + x[0])
            if x[2] == 0: return 0
            n = self.res(st, x[3][0])
            while n[0] == 'arc': n = self.res(st, n[1])
            l = go(n[3][R.fl]); r = go(n[3][R.fr])
            check('recorded heights', (l, r), tuple(cnum(self, st, n[3][i]) for i in (R.hl, R.hr)))
            check('balance', True, abs(l - r) <= 1)
            return 1 + max(l, r)
        go(v[3][ci[0]])
class Bt(Input, btiter.Bt):
    kind = 'bt'
    def __init__(self, F, top, n):
        super().__init__(F, 'vec', top, n); self.exact = LIM; self.unroll = 700
    def contract(self, fn, args, st):
        r = self.fmt(fn, args, st)
        return r if r is not None else super().contract(fn, args, st)
    def wf(self, st, v, check):
        ci = self.coll(v[1]); n = self.consts['N']
        def go(x, root):
            x = self.res(st, x)
            while x[0] == 'a' and x[1] is not None and self.F.is_option(x[1]):
                if x[2] == 0: return 0
                x = self.res(st, x[3][0])
            while x[0] == 'arc': x = self.res(st, x[1])
            ks, vs, cs = self.R0.parts(self, st, x)
            check('occupancy', True, (len(ks) >= (1 if root else n) and len(ks) <= 2 * n + 1) or len(ks))
            if not cs: return 1
            check('children', len(ks) + 1, len(cs))
            hs = {go(c, False) for c in cs}
            check('depth', 1, len(hs))
            return 1 + max(hs)
        go(v[3][ci[0]], True)
def cnum(I, st, v):
    v = I.force(st, v)
    if v[0] == 'i':
        n = st.lin.norm(v[1])
        if L.is_const(n): return int(n[0])
    raise Undecided('number')

def s_de(c):
    I, s = c.I, c.s; v = I.force(s, c.rv)
    if v[0] != 'a': raise Undecided('result is ' + v[0])
    c.check('result', 'error' if s.extra.get('failed') else 'map', 'map' if v[2] == 0 else 'error')
    if v[2] != 0 or s.extra.get('failed'): return
    exp = []
    for k, x in I.inp:
        k, x = I.sym(s, k), I.sym(s, x)
        i = 0
        while i < len(exp) and c.cmp(exp[i][0], k) < 0: i += 1
        if i < len(exp) and c.cmp(exp[i][0], k) == 0: exp[i] = (k, x)
        else: exp.insert(i, (k, x))
    c.check('whole input read', True, bool(s.extra.get('ended')) or s.extra.get('at', (0, 0))[0] == len(I.inp))
    got, n = c.contents(v[3][0])
    c.check('contents', c.ren(exp), c.ren(got)); c.check('length', len(exp), n)
    I.wf(s, I.res(s, v[3][0]), c.check)
def s_ser(c):
    I, s = c.I, c.s; v = I.force(s, c.rv)
    if v[0] != 'a': raise Undecided('result is ' + v[0])
    c.check('result', 'error' if s.extra.get('failed') else 'done', 'done' if v[2] == 0 else 'error')
    if v[2] != 0 or s.extra.get('failed'): return
    o = c.orig('M')
    out = list(s.extra.get('out', ()))
    c.check('announced length', len(o), out[0][1] if out and out[0][0] == 'serialize_map' else None)
    c.check('entries', c.ren(o), c.ren([e[1:] for e in out[1:-1]]) if all(e[0] == 'entry' for e in out[1:-1]) else out)
    c.check('ended', [('end',)], out[-1:])

def task(F, kind, n, hints, order, fails=(None,), occ=1, deadline=300):
    """deserialization of n entries: order 'any' or 'sorted'"""
    key = F.key_of('verif_serde::' + ('avl' if kind == 'avl' else 'btree'))
    if not key:
        import tasks
        return tasks.missing('Deserialize for ' + kind)
    res = Result(); errs = []; stmts = 0; funcs = set(); cases = 0; t0 = time.time()
    f = F.fns[key]; mt = F.ty(f['locals'][0][0])['args'][0]
    kt, vt = [a for a in F.ty(mt)['args'] if isinstance(a, int)][:2]
    for hint in hints:
        for fail in fails:
            I = Avl(F, key) if kind == 'avl' else Bt(F, key, occ)
            I.deadline = t0 + deadline; I.hint = hint; I.fail = fail
            I.inp = [(('s', f'k{i}', kt), ('s', f'v{i}', vt)) for i in range(n)]
            ctx = dict(case=f'{n} entries, announced {hint}' + ('' if fail is None else f', failing at entry {fail}'))
            I.order = order; res.err = None; cases += 1
            def sp(c):
                old = c.facts; c.facts = lambda: dict(old(), case=ctx['case']); s_de(c)
            run(I, key, res, ctx, sp, order == 'sorted')
            if res.err: errs.append((ctx['case'], res.err))
            stmts += I.stats['stmts']; funcs |= I.analysed
    return done(F, key, res, errs, stmts, funcs, f'{cases} cases of {n} entries ({order})')
def run(I, key, res, ctx, spec, sort):
    st = St()
    if sort:
        for a, b in zip(I.inp, I.inp[1:]): st.add_lt(a[0][1], b[0][1])
    client.run(I, key, res, ctx, spec, [], {}, start=st)
def done(F, key, res, errs, stmts, funcs, what):
    und = [(w, v) for w, v in res.und.items()] + [('analysis', x) for x in errs[:3]] + [('path given up', f'{w} in {f}') for w, f in res.lost.items()]
    return dict(obligations=res.n + len(errs) + len(res.lost), discharged=res.good, viol=list(res.viol.items()), und=und,
                info=dict(function=F.fns[key]['disp'], outcomes=res.outs, functions_analysed=len(funcs), statements=stmts, bounded=what))
def ser(F, kind, sizes):
    key = F.key_of(f"<{'avl::AvlMap<K, V>' if kind == 'avl' else 'btree::BTreeMap<K, V, N>'} as serde::Serialize>::serialize")
    if not key:
        import tasks
        return tasks.missing('Serialize for ' + kind)
    res = Result(); errs = []; stmts = 0; funcs = set()
    class S(Input, Client):
        def contract(self, fn, args, st):
            r = self.fmt(fn, args, st)
            return r if r is not None else super().contract(fn, args, st)
    for n in sizes:
        I = S(F, roles.AvlRoles(F), key); I.deadline = time.time() + 100; res.err = None
        client.run(I, key, res, {}, s_ser, ['M', 'S'], dict(M=n))
        if res.err: errs.append((f'{n} entries', res.err))
        stmts += I.stats['stmts']; funcs |= I.analysed
    return done(F, key, res, errs, stmts, funcs, f'maps of {min(sizes)} to {max(sizes)} entries, every point of failure')
