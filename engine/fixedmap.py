"""The B-tree with inline storage: behaviour and memory safety on explicit node trees.

The storage of a node is an array of slots; slots past the length are uninitialised.  Raw pointers are
positions in such an array, so that copies, reads and writes act on slots.  Every key and value is an
instance: cloning makes a new one, destructors and moves are followed.  What an operation leaves behind
must own every instance exactly once (or have destroyed it exactly once), never an uninitialised slot,
and never something that a node shared with another map owns."""
import re, time
import lin as L
import client, btiter
from client import C, Result
from btiter import Bt, count
from absint import *

class UB(Panic): pass
SP = {}
def sp(*names):
    def deco(f):
        for n in names: SP[n] = f
        return f
    return deco
class Fx(Bt):
    def __init__(self, F, top, share='U'):
        super().__init__(F, 'inl', top); self.share = share; self.exact = (60, 0, 0); self.unroll = 400
    # ---- building
    def tree(self, ty, shape, items, depth=0):
        R = self.R0; F = self.F; nty = F.ty(ty)['args'][0]; fs = F.ty(nty)['v'][0]['f']
        es = []; kids = []; p = 0
        if isinstance(shape, int): es = items
        else:
            ct = R._inline(F.ty(F.ty(fs[R.fc]['t'])['args'][0])['args'][0])[3]
            for i, s in enumerate(shape):
                if i: es.append(items[p]); p += 1
                kids.append(self.tree(ct, s, items[p:p + count(s)], depth + 1)); p += count(s)
        u = {'U': True, 'S': 'S', 'K': True if depth == 0 else 'S', 'L': True if kids else 'S'}[self.share]
        return ('arc', R.make(self, None, nty, [e[3][0] for e in es], [e[3][1] for e in es], kids), u)
    # ---- ownership
    def slots(self, ty): return ty is not None and self.R0._inline(ty) is not None
    def muarr(self, ty):
        x = self.F.ty(ty)
        return x['k'] == 'array' and self.F.ty(x['t'])['s'].startswith('std::mem::MaybeUninit<')
    def fields(self, v):
        """field types of a value, None where unknown"""
        if v[1] is None: return [None] * len(v[3])
        x = self.F.ty(v[1])
        if x.get('v'): return [f['t'] for f in x['v'][v[2]]['f']]
        return (x.get('ts') or x.get('ups') or [None] * len(v[3]))
    def hid(self, st, v): 
        v = self.res(st, v); ks, vs, cs = self.R0.parts(self, st, v)
        return ('h', ks[0][1] if ks else self.hid(st, cs[0][1]) if cs else 'empty')
    def owned(self, st, v, out, un=True):
        """instances owned by a value"""
        v = self.res(st, v); k = v[0]
        if k == 's':
            if self.keylike(v[2]): out.append(v[1])
        elif k == 'u':
            if un: out.append('!')
        elif k == 'arc':
            if v[2] == 'S': out.append(self.hid(st, v[1]))
            else: self.owned(st, v[1], out, un)
        elif k == 'a':
            if self.slots(v[1]):
                iv = self.R0._inline(v[1]); n = self.cn(st, v[3][iv[2]])
                for a, t in ((iv[0], iv[3]), (iv[1], iv[4])):
                    if self.unit(t): continue
                    x = self.res(st, v[3][a])
                    for i in range(n):
                        if i >= len(x[2]): out.append('!')
                        else: self.owned(st, x[2][i][1], out, un)
            else:
                for f, t in zip(v[3], self.fields(v)):
                    if t is not None and self.muarr(t): continue
                    self.owned(st, f, out, un)
        elif k == 'vec':
            for s in v[2]:
                if s[0] == 'e': self.owned(st, s[1], out, un)
        return out
    def unit(self, t): return self.F.ty(t)['k'] == 'tuple' and not self.F.ty(t)['ts']
    def cn(self, st, v):
        v = self.force(st, v)
        n = st.lin.norm(v[1]) if v[0] == 'i' else None
        if n is None or not L.is_const(n): raise Undecided('length')
        return int(n[0])
    def ev(self, st, k, x): st.ev = st.ev + ((k, x),)
    def drop(self, st, v, ty=None):
        """drop glue: [states]"""
        v = self.res(st, v); k = v[0]
        if k in ('r', 'i', 'b', 'fn', 'nd', 'mu', 'wrap'): return [st]
        if k == 'T':
            if ty is None or self.F.ty(ty)['k'] in ('struct', 'enum', 'param', 'alias'): raise Undecided('drop of an unknown value')
            return [st]
        if k == 'u':
            if ty is not None and self.unit(ty): return [st]
            raise UB('UB: an uninitialised value is dropped')
        if k == 's':
            if self.keylike(v[2]):
                if ('d', v[1]) in st.ev: raise UB(f'UB: {v[1]} is dropped twice')
                st = st.copy(); self.ev(st, 'd', v[1])
            return [st]
        if k == 'arc':
            if v[2] == 'S': st = st.copy(); self.ev(st, 'h-', self.hid(st, v[1])); return [st]
            if v[2] is not True: raise Undecided('drop of a handle')
            return self.drop(st, v[1])
        if k == 'vec':
            sts = [st]
            for s in v[2]:
                if s[0] != 'e': raise Undecided('drop of a sequence')
                sts = [t for q in sts for t in self.drop(q, s[1])]
            return sts
        if k != 'a': raise Undecided('drop of ' + k)
        sts = [(st, v)]
        x = self.F.ty(v[1]) if v[1] is not None else {}
        if x.get('dropimpl') and x.get('local'):
            key = self.dropfn(v[1]); nx = []
            for s, w in sts:
                s = s.copy(); c = s.fresh('dr'); s.cells[c] = w
                for q, _ in self.invoke(key, [('r', c, ())], s): q = q.copy(); w2 = q.cells.pop(c); nx.append((q, w2))
            sts = nx
        out = []
        for s, w in sts:
            w = self.res(s, w); ss = [s]
            if w[0] != 'a': raise Undecided('drop')
            for f, t in zip(w[3], self.fields(w)):
                if t is not None and (self.muarr(t) or str(self.F.ty(t)['s']).startswith(('std::mem::ManuallyDrop<', 'std::mem::MaybeUninit<'))): continue
                ss = [u for q in ss for u in self.drop(q, f, t)]
            out += ss
        return out
    def dropfn(self, ty):
        k = self.F.ty(ty).get('dropkey')
        if k not in self.F.fns: raise Undecided('destructor of ' + self.F.tstr(ty))
        return k
    def clonefn(self, ty):
        k = next((k for k, f in self.F.fns.items() if f.get('name') == 'clone' and f['argc'] == 1 and f['locals'][0][0] == ty and f['local']), None)
        if k is None: raise Undecided('clone of ' + self.F.tstr(ty))
        return k
    def do_drop(self, f, fr, t, st):
        c, p = self.place(st, fr, t[1])
        if c not in st.cells: return [(t[2], st)]
        v = self.get(st, c, p)
        if v[0] == 'u' and not p: return [(t[2], st)]
        return [(t[2], s) for s in self.drop(st, v, t[4])]
    # ---- calls
    def call(self, fn, args, st):
        if fn.get('key') in self.F.fns and fn.get('rname') == 'clone' and '#shim' not in fn['key']: return self.invoke(fn['key'], args, st)
        for n in (fn.get('rdisp'), fn.get('disp')):
            if n in SP:
                self.stats['calls'] += 1
                r = SP[n](self, fn, args, st)
                if r is not NotImplemented: return r
        if fn.get('ctor') or fn.get('key') in self.F.fns and not any(n in self.models for n in (fn.get('rdisp'), fn.get('disp'))): return super().call(fn, args, st)
        # library function known by contract: what it consumes without handing it on, it destroys
        # (through a closure it may also end up elsewhere: then it is only known to be gone from here)
        pre = self.reach(st, args)
        clo = any(self.callable(st, a) for a in args)
        out = []
        for s, v in super().call(fn, args, st):
            if pre[0] or any(self.get(s, c, p) is not o for c, p, o in pre[1]):
                had = list(pre[0])
                for c, p, o in pre[1]: self.owned(st, o, had, False)
                now = self.owned(s, v, [], False)
                for c, p, o in pre[1]: self.owned(s, self.get(s, c, p), now, False)
                lost = list(had)
                for x in now:
                    if x in lost: lost.remove(x)
                if lost:
                    s = s.copy(); new = {x for k, x in s.ev[len(st.ev):] if k in ('d', 'h-')}
                    for x in lost:
                        if clo:
                            if x not in new: self.ev(s, '?', x)
                        elif isinstance(x, tuple): self.ev(s, 'h-', x)
                        elif ('d', x) in s.ev: raise UB(f'UB: {x} is dropped twice')
                        else: self.ev(s, 'd', x)
            out.append((s, v))
        return out
    def callable(self, st, a):
        v = self.res(st, a)
        for _ in range(3):
            if v[0] == 'r':
                try: v = self.res(st, self.get(st, v[1], v[2]))
                except (Undecided, Panic): return False
        return v[0] == 'fn' or v[0] == 'a' and v[1] is not None and self.F.ty(v[1])['k'] == 'closure' or v[0] == 's' and not self.keylike(v[2])
    def reach(self, st, args):
        """instances passed by value, places passed by reference"""
        own = []; refs = []
        for a in args:
            v = self.res(st, a)
            if v[0] == 'r':
                try: refs.append((v[1], v[2], self.get(st, v[1], v[2])))
                except (Undecided, Panic): pass
            elif v[0] != 's' or self.keylike(v[2]): self.owned(st, v, own, False)
        return own, refs
    def stuck(self, st, v):
        """a value is read or used"""
        v = self.res(st, v)
        if v[0] == 'u': raise UB('UB: an uninitialised slot is read')
        return v
    def keycmp(self, st, a, b): return super().keycmp(st, a, b)
    def under(self, st, v):
        v = super().under(st, v)
        if v[0] == 'u': raise UB('UB: an uninitialised slot is read')
        return v

def ptr(I, st, v):
    """cell, path of the array, index"""
    v = I.force(st, v)
    if v[0] != 'r' or not v[2] or v[2][-1][0] != 'e': raise Undecided('pointer')
    n = st.lin.norm(v[2][-1][1])
    if not L.is_const(n): raise Undecided('pointer offset')
    return v[1], v[2][:-1], int(n[0])
def arr(I, st, c, p):
    a = I.force(st, I.get(st, c, p))
    if a[0] != 'vec' or any(s[0] != 'e' for s in a[2]): raise Undecided('array')
    return a
@sp('core::slice::<impl [T]>::as_ptr', 'core::slice::<impl [T]>::as_mut_ptr')
def _asptr(I, fn, a, st):
    v = I.force(st, a[0])
    if v[0] != 'r': raise Undecided('as_ptr')
    c, p = v[1], v[2]
    if p and p[-1][0] == 'sl': return [(st, ('r', c, p[:-1] + (('e', p[-1][1]),)))]
    return [(st, ('r', c, p + (('e', L.ZERO),)))]
def offset(sign):
    def f(I, fn, a, st):
        c, p, i = ptr(I, st, a[0]); j = i + sign * I.cn(st, a[1]); n = len(arr(I, st, c, p)[2])
        if not 0 <= j <= n: raise UB(f'UB: pointer to position {j} of {n} slots')
        return [(st, ('r', c, p + (('e', L.const(j)),)))]
    return f
for q in ('mut_ptr::<impl *mut T>', 'const_ptr::<impl *const T>'):
    sp(f'std::ptr::{q}::add', f'std::ptr::{q}::offset')(offset(1)); sp(f'std::ptr::{q}::sub')(offset(-1))
    sp(f'std::ptr::{q}::cast')(lambda I, fn, a, st: [(st, a[0])])
def rd(I, st, v):
    v = I.force(st, v)
    if v[0] != 'r': raise Undecided('pointer')
    if v[2] and v[2][-1][0] == 'e':
        c, p, i = ptr(I, st, v); x = arr(I, st, c, p)
        if i >= len(x[2]): raise UB(f'UB: access to position {i} of {len(x[2])} slots')
    return I.get(st, v[1], v[2])
def wr(I, st, v, x):
    rd(I, st, v); v = I.force(st, v)
    I.put(st, v[1], v[2], x)
@sp('std::ptr::mut_ptr::<impl *mut T>::read', 'std::ptr::const_ptr::<impl *const T>::read', 'std::ptr::read')
def _read(I, fn, a, st): return [(st, rd(I, st, a[0]))]
@sp('std::ptr::mut_ptr::<impl *mut T>::write', 'std::ptr::write')
def _write(I, fn, a, st): st = st.copy(); wr(I, st, a[0], a[1]); return [(st, UNIT)]
@sp('std::ptr::mut_ptr::<impl *mut T>::replace', 'std::ptr::replace')
def _replace(I, fn, a, st): st = st.copy(); o = rd(I, st, a[0]); wr(I, st, a[0], a[1]); return [(st, o)]
@sp('std::ptr::swap')
def _pswap(I, fn, a, st): st = st.copy(); x = rd(I, st, a[0]); y = rd(I, st, a[1]); wr(I, st, a[0], y); wr(I, st, a[1], x); return [(st, UNIT)]
@sp('std::ptr::mut_ptr::<impl *mut T>::drop_in_place', 'std::ptr::drop_in_place')
def _dip(I, fn, a, st): return [(s, UNIT) for s in I.drop(st, rd(I, st, a[0]))]
def copier(overlap, flip=False):
    def f(I, fn, a, st):
        if flip: a = [a[1], a[0], a[2]]
        n = I.cn(st, a[2])
        if n < 0: raise UB(f'UB: copy of {n} slots')
        if n == 0: return [(st, UNIT)]
        c, p, i = ptr(I, st, a[0]); d, q, j = ptr(I, st, a[1])
        x = arr(I, st, c, p); y = arr(I, st, d, q)
        if i + n > len(x[2]): raise UB(f'UB: copy of {n} slots from position {i} of {len(x[2])}')
        if j + n > len(y[2]): raise UB(f'UB: copy of {n} slots to position {j} of {len(y[2])}')
        if not overlap and (c, p) == (d, q) and abs(i - j) < n: raise UB('UB: overlapping ranges')
        st = st.copy()
        I.put(st, d, q, ('vec', y[1], y[2][:j] + x[2][i:i + n] + y[2][j + n:]))
        return [(st, UNIT)]
    return f
sp('std::ptr::copy', 'std::intrinsics::copy')(copier(True)); sp('std::ptr::copy_nonoverlapping', 'std::intrinsics::copy_nonoverlapping')(copier(False))
for n, o, fl in (('copy_to', True, False), ('copy_from', True, True), ('copy_to_nonoverlapping', False, False), ('copy_from_nonoverlapping', False, True)):
    for q in ('mut_ptr::<impl *mut T>', 'const_ptr::<impl *const T>'): sp(f'std::ptr::{q}::{n}')(copier(o, fl))
@sp('std::slice::from_raw_parts', 'std::slice::from_raw_parts_mut')
def _frp(I, fn, a, st):
    c, p, i = ptr(I, st, a[0]); n = I.cn(st, a[1]); m = len(arr(I, st, c, p)[2])
    if not 0 <= i + n <= m: raise UB(f'UB: slice of {n} entries at position {i} of {m} slots')
    return [(st, ('r', c, p + (('sl', L.const(i), L.const(i + n)),)))]
@sp('std::mem::MaybeUninit::<T>::uninit')
def _uninit(I, fn, a, st):
    d = fn['args'][0] if fn.get('args') and isinstance(fn['args'][0], int) else None
    if d is not None and I.F.ty(d)['k'] == 'array': return [(st, slots(I, d))]
    return [(st, ('u',))]
def slots(I, t):
    x = I.F.ty(t); n = x.get('len')
    if isinstance(n, dict): n = n.get('c')
    if n is None or not str(n).isdigit(): raise Undecided('generic capacity')
    return ('vec', t, (('e', ('u',)),) * int(n))
@sp('std::mem::MaybeUninit::<T>::new')
def _munew(I, fn, a, st): return [(st, a[0])]
def isunit(I, fn):
    return fn.get('args') and isinstance(fn['args'][0], int) and I.unit(fn['args'][0])
@sp('std::mem::MaybeUninit::<T>::assume_init')
def _ai(I, fn, a, st):
    t = fn['args'][0]
    if isunit(I, fn): return [(st, UNIT)]
    v = I.res(st, a[0])
    if v[0] == 'u':
        if I.F.ty(t)['k'] == 'array' and I.muarr(t): return [(st, slots(I, t))]
        raise UB('UB: an uninitialised slot is read')
    return [(st, a[0])]
@sp('std::mem::MaybeUninit::<T>::assume_init_read')
def _air(I, fn, a, st):
    if isunit(I, fn): return [(st, UNIT)]
    return [(st, I.stuck(st, rd(I, st, a[0])))]
@sp('std::mem::MaybeUninit::<T>::assume_init_ref', 'std::mem::MaybeUninit::<T>::assume_init_mut')
def _airef(I, fn, a, st):
    if isunit(I, fn):
        c = st.fresh('unit'); st.cells[c] = UNIT; return [(st, ('r', c, ()))]
    I.stuck(st, rd(I, st, a[0])); return [(st, I.force(st, a[0]))]
@sp('std::mem::MaybeUninit::<T>::as_ptr', 'std::mem::MaybeUninit::<T>::as_mut_ptr')
def _muptr(I, fn, a, st): return [(st, a[0])]
@sp('std::mem::MaybeUninit::<T>::assume_init_drop')
def _aid(I, fn, a, st):
    if isunit(I, fn): return [(st, UNIT)]
    return [(s, UNIT) for s in I.drop(st, I.stuck(st, rd(I, st, a[0])))]
@sp('std::mem::MaybeUninit::<T>::write')
def _muw(I, fn, a, st): st = st.copy(); wr(I, st, a[0], a[1]); return [(st, a[0])]
@sp('std::mem::forget')
def _forget(I, fn, a, st): return [(st, UNIT)]
@sp('std::mem::drop')
def _mdrop(I, fn, a, st): return [(s, UNIT) for s in I.drop(st, a[0])]
@sp('std::clone::Clone::clone')
def _clone(I, fn, a, st):
    v = I.stuck(st, rd(I, st, a[0]))
    for _ in range(3):
        if v[0] == 'r': return NotImplemented
    if v[0] != 's' or not I.keylike(v[2]): return NotImplemented
    st = st.copy(); st.n += 1
    if ('d', v[1]) in st.ev: raise UB(f'UB: {v[1]} is used after it was dropped')
    n = f'{v[1].split("~")[0]}~{st.n}'; st.rep[n] = st.r(v[1]); I.ev(st, 'c', n)
    return [(st, ('s', n, v[2]))]
def deepshare(I, st, v, gone):
    """everything below a shared handle is shared"""
    v = I.res(st, v)
    if v[0] == 'arc' and v[2] == 'S': gone.append(I.hid(st, v[1]))
    if v[0] == 'arc': return ('arc', deepshare(I, st, v[1], gone), 'S' if v[2] is not None else v[2])
    if v[0] == 'a':
        if v[1] is not None and I.slots(v[1]):
            iv = I.R0._inline(v[1])
            return ('a', v[1], v[2], tuple(('vec', I.res(st, f)[1], tuple(('e', deepshare(I, st, s[1], gone)) for s in I.res(st, f)[2])) if i in iv[:2] else f for i, f in enumerate(v[3])))
        return ('a', v[1], v[2], tuple(deepshare(I, st, f, gone) for f in v[3]))
    if v[0] == 's' and I.keylike(v[2]): gone.append(v[1])
    return v
ARC = ('std::sync::Arc::<T, A>::', 'std::rc::Rc::<T, A>::')
def arcs(*names): return sp(*[a + n for a in ARC for n in names])
def isbox(fn, I): return False
@sp('<std::sync::Arc<T, A> as std::clone::Clone>::clone', '<std::rc::Rc<T, A> as std::clone::Clone>::clone')
def _arcclone(I, fn, a, st):
    r = I.force(st, a[0]); v = I.force(st, I.stuck(st, rd(I, st, r))); st = st.copy()
    if v[0] != 'arc': raise Undecided('clone of a handle')
    if v[2] is True:
        g = []; inner = deepshare(I, st, v[1], g); v = ('arc', inner, 'S')
        I.put(st, r[1], r[2], v); I.ev(st, 'g', tuple(g))
        I.ev(st, 'h0', I.hid(st, inner))
    I.ev(st, 'h+', I.hid(st, v[1]))
    return [(st, v)]
@arcs('make_mut')
def _mm(I, fn, a, st):
    r = I.force(st, a[0]); v = I.force(st, I.stuck(st, rd(I, st, r)))
    if v[0] != 'arc': raise Undecided('make_mut')
    q = ('r', r[1], r[2] + (('d',),))
    if v[2] is True: return [(st, q)]
    st = st.copy(); c = st.fresh('mm'); st.cells[c] = v[1]; out = []
    for s, w in I.invoke(I.clonefn(v[1][1]), [('r', c, ())], st):
        s = s.copy(); I.put(s, r[1], r[2], ('arc', w, True)); I.ev(s, 'h-', I.hid(s, v[1])); out.append((s, q))
    return out
@arcs('get_mut')
def _gm(I, fn, a, st):
    r = I.force(st, a[0]); v = I.force(st, I.stuck(st, rd(I, st, r)))
    return [(st, I.SOME(('r', r[1], r[2] + (('d',),))) if v[2] is True else I.NONE)]
@arcs('try_unwrap')
def _tu(I, fn, a, st):
    v = I.force(st, I.stuck(st, a[0]))
    return [(st, OK(I, v[1]) if v[2] is True else ERR(I, v))]
@arcs('into_inner')
def _ii(I, fn, a, st):
    v = I.force(st, I.stuck(st, a[0]))
    if v[2] is True: return [(st, I.SOME(v[1]))]
    return [(s, I.NONE) for s in I.drop(st, v)]
@arcs('unwrap_or_clone')
def _uoc(I, fn, a, st):
    v = I.force(st, I.stuck(st, a[0]))
    if v[2] is True: return [(st, v[1])]
    st = st.copy(); c = st.fresh('mm'); st.cells[c] = v[1]; out = []
    for s, w in I.invoke(I.clonefn(v[1][1]), [('r', c, ())], st): out += [(t, w) for t in I.drop(s, v)]
    return out
@arcs('strong_count')
def _sc(I, fn, a, st):
    v = I.force(st, rd(I, st, a[0])); st = st.copy()
    if v[2] is True: return [(st, ('i', L.const(1)))]
    n = L.var(st.fresh('rc')); st.ge(L.sub(n, L.const(2))); return [(st, ('i', n))]
@arcs('ptr_eq')
def _pe(I, fn, a, st): raise Undecided('identity of handles')
def OK(I, v): return ('a', I.any_result, 0, (v,))
def ERR(I, v): return ('a', I.any_result, 1, (v,))
@sp('<std::boxed::Box<T, A> as std::clone::Clone>::clone')
def _bc(I, fn, a, st):
    r = I.force(st, a[0]); v = I.force(st, rd(I, st, r))
    if v[0] != 'arc': raise Undecided('clone of a box')
    return [(s, ('arc', w, True)) for s, w in I.invoke(I.clonefn(v[1][1]), [('r', r[1], r[2] + (('d',),))], st)]
@sp('std::mem::size_of')
def _so(I, fn, a, st):
    st = st.copy(); t = fn['args'][0]; x = I.F.ty(t); fixed = {'usize': 8, 'u64': 8, 'u32': 4, 'u16': 2, 'u8': 1, '()': 0}
    if x['s'] in fixed: return [(st, ('i', L.const(fixed[x['s']])))]
    n = L.var('size_of:' + x['s']); st.ge(n); return [(st, ('i', n))]
@sp('core::slice::<impl [T]>::binary_search_by_key', 'core::slice::<impl [T]>::binary_search_by', 'core::slice::<impl [T]>::binary_search', 'core::slice::<impl [T]>::partition_point')
def _bs(I, fn, a, st):
    r = I.force(st, a[0]); v = arr(I, st, r[1], r[2]); n = len(v[2]); st = st.copy()
    kind = (fn.get('rdisp') or fn['disp']).rsplit('::', 1)[1]
    at = lambda i: ('r', r[1], r[2] + (('e', L.const(i)),)) if not (r[2] and r[2][-1][0] == 'sl') else ('r', r[1], r[2][:-1] + (('e', L.add(r[2][-1][1], L.const(i))),))
    # the slice is sorted (checked): the first position that is not below the target
    ks = [I.sym(st, at(i)) for i in range(n)]
    if any(not st.lt(x, y) for x, y in zip(ks, ks[1:])): raise Undecided('binary search in a slice not known to be sorted')
    ff = st.fresh('bs'); st.cells[ff] = a[-1] if kind != 'binary_search' else UNIT
    todo = [(st, 0)]; out = []
    while todo:
        s, i = todo.pop()
        if i == n: out.append((s, ERR(I, ('i', L.const(i))) if kind != 'partition_point' else ('i', L.const(i)))); continue
        if kind == 'binary_search': rs = [(k, t) for k, t in I.keycmp(s, I.sym(s, at(i)), I.sym(s, a[1]))]
        elif kind == 'binary_search_by_key':
            rs = []
            for t, kv in I.call_fn_trait(fn, [('r', ff, ()), I.pair(at(i))], s.copy()): rs += I.keycmp(t, I.sym(t, kv), I.sym(t, a[1]))
        else:
            rs = []
            for t, o in I.call_fn_trait(fn, [('r', ff, ()), I.pair(at(i))], s.copy()):
                o = I.force(t, o)
                if kind == 'partition_point': rs.append((-1 if o[1] else 1, t))
                else: rs.append((int(I.F.ty(o[1])['v'][o[2]]['d']) if int(I.F.ty(o[1])['v'][o[2]]['d']) < 2 else -1, t))
        for k, t in rs:
            if k < 0: todo.append((t, i + 1))
            elif kind == 'partition_point': out.append((t, ('i', L.const(i))))
            else: out.append((t, (OK if k == 0 else ERR)(I, ('i', L.const(i)))))
    return out

# ------------------------------------------------------------------ specifications
def build(I, st, ty, shape, name):
    F = I.F; x = F.ty(ty)
    if x['k'] == 'ref':
        c = ('A', name); st.cells[c] = build(I, st, x['t'], shape, name); return ('r', c, ())
    ci = I.coll(ty)
    if ci is None: raise Undecided('argument')
    n = count(shape) if shape is not None else 0
    items = client.mkitems(I, ty, name, n, 'map')
    for a, b in zip(items, items[1:]): st.add_lt(a[3][0][1], b[3][0][1])
    fs = x['v'][0]['f']; r = [None] * 2; r[ci[1]] = ('i', L.const(n)); ot = fs[ci[0]]['t']
    r[ci[0]] = ('a', ot, 0, ()) if shape is None else ('a', ot, 1, (I.tree(F.ty(ot)['args'][0], shape, items),))
    return ('a', ty, 0, tuple(r))
def place(st, items, key, pos):
    """order facts that put the key at one of 2n+1 positions"""
    i, eq = divmod(pos, 2)
    if eq: st.add_eq(items[i][0], key)
    else:
        if i: st.add_lt(items[i - 1][0], key)
        if i < len(items): st.add_lt(key, items[i][0])
def account(c, init, roots, what='ownership'):
    """every instance is owned once or destroyed once"""
    I, st = c.I, c.s; now = []
    for v in roots: I.owned(st, v, now)
    names = {}; hs = {}
    for x in init:
        if isinstance(x, tuple): hs[x] = hs.get(x, 0) + 1
        else: names[x] = names.get(x, 0) + 1
    gone = set(); loose = set()
    for k, x in st.ev:
        if k == 'c': names[x] = names.get(x, 0) + 1
        elif k == 'd': names[x] = names.get(x, 0) - 1
        elif k == 'g': gone |= set(x)
        elif k == '?': loose.add(x)
        elif k in ('h+', 'h0'): hs[x] = hs.get(x, 0) + 1
        elif k == 'h-': hs[x] = hs.get(x, 0) - 1
    bad = []
    for x in now:
        if x == '!': bad.append('an uninitialised slot counts as an entry')
        elif isinstance(x, tuple): hs[x] = hs.get(x, 0) - 1
        else: names[x] = names.get(x, 0) - 1
    for x, n in names.items():
        if x in gone: continue
        if n > 0 and x not in loose: bad.append(f'{x} is neither kept, returned nor destroyed')
        if n < 0: bad.append(f'{x} is owned or destroyed more than once')
    for x, n in hs.items():
        if x in gone: continue
        if n > 0 and x not in loose: bad.append(f'a handle to the shared node of {x[1]} is lost')
        if n < 0: bad.append(f'a handle to the shared node of {x[1]} is used or released twice')
    c.check(what, [], sorted(set(bad))[:3])
def shape_ok(c, v):
    """occupancy, number of children, uniform height of the tree"""
    I, st, R = c.I, c.s, c.I.R0
    ci = I.coll(v[1]); o = I.res(st, v[3][ci[0]])
    if o[2] == 0: return 'ok'
    def rec(a, root):
        a = I.res(st, a)
        while a[0] == 'arc': a = I.res(st, a[1])
        ks, vs, cs = R.parts(I, st, a)
        if len(ks) > 11 or len(ks) < (1 if root else 5): raise ValueError(f'a node with {len(ks)} entries')
        if cs and len(cs) != len(ks) + 1: raise ValueError(f'{len(ks)} entries and {len(cs)} children')
        hs = {rec(x, False) for x in cs}
        if len(hs) > 1: raise ValueError('leaves at different depths')
        return 1 + (hs.pop() if hs else 0)
    try: rec(o[3][0], True)
    except ValueError as e: return str(e)
    return 'ok'
def mapv(c, name='M'): return c.I.res(c.s, c.s.cells[('A', name)])

def s_insert(c, pos, sh):
    M = c.ctx['orig']['M']; i, eq = divmod(pos, 2)
    o = c.opt(c.rv)
    c.check('replaced value', M[i][1] if eq else None, None if o is None else c.I.sym(c.s, o))
    exp = M[:i] + [('K', 'V')] + M[i + eq:]
    got, n = c.arg('M'); c.check('contents', c.ren(exp), c.ren(got)); c.check('length', len(exp), n)
    c.check('shape', 'ok', shape_ok(c, mapv(c)))
def s_remove(c, pos, sh):
    M = c.ctx['orig']['M']; i, eq = divmod(pos, 2)
    o = c.opt(c.rv)
    c.check('removed value', M[i][1] if eq else None, None if o is None else c.I.sym(c.s, o))
    exp = M[:i] + M[i + eq:]
    got, n = c.arg('M'); c.check('contents', c.ren(exp), c.ren(got)); c.check('length', len(exp), n)
    c.check('shape', 'ok', shape_ok(c, mapv(c)))
def s_get(c, pos, sh, mut=False):
    M = c.ctx['orig']['M']; i, eq = divmod(pos, 2)
    o = c.opt(c.rv)
    c.check('finds', bool(eq), o is not None)
    if eq and o is not None:
        r = c.I.force(c.s, o)
        if r[0] != 'r': raise Undecided('reference')
        c.check('refers into the map', True, r[1] == ('A', 'M'))
        c.check('value', c.ren([M[i][1]]), c.ren([c.I.sym(c.s, c.I.get(c.s, r[1], r[2]))]))
        if mut:
            c.s = c.s.copy(); x = c.I.res(c.s, c.I.get(c.s, r[1], r[2])); c.I.put(c.s, r[1], r[2], ('s', 'written', x[2]))
            M = M[:i] + [(M[i][0], 'written')] + M[i + 1:]
    got, n = c.arg('M'); c.check('contents', c.ren(M), c.ren(got)); c.check('length', len(M), n)
def s_getmut(c, pos, sh): s_get(c, pos, sh, True)
def s_clear(c, pos, sh):
    got, n = c.arg('M'); c.check('contents', [], got); c.check('length', 0, n)
def s_len(c, pos, sh):
    v = c.I.force(c.s, c.rv)
    c.check('length', len(c.ctx['orig']['M']), btiter.num(c, v))
def s_isempty(c, pos, sh): c.check('emptiness', not c.ctx['orig']['M'], c.bool())
def s_new(c, pos, sh):
    got, n = c.contents(c.rv); c.check('contents', [], got); c.check('length', 0, n)
def s_clone(c, pos, sh):
    M = c.ctx['orig']['M']
    got, n = c.contents(c.rv); c.check('contents of the clone', c.ren(M), c.ren(got)); c.check('length of the clone', len(M), n)
    got, n = c.arg('M'); c.check('contents', c.ren(M), c.ren(got)); c.check('length', len(M), n)
def s_drop(c, pos, sh): pass
P = 'btree::fixed::BTreeMap::<K, V>::'
OPS = {'insert': (P + 'insert', s_insert), 'remove': (P + 'remove', s_remove), 'get': (P + 'get', s_get), 'get_mut': (P + 'get_mut', s_getmut),
       'clear': (P + 'clear', s_clear), 'len': (P + 'len', s_len), 'is_empty': (P + 'is_empty', s_isempty), 'new': (P + 'new', s_new),
       'clone': ('<btree::fixed::BTreeMap<K, V> as std::clone::Clone>::clone', s_clone), 'default': ('<btree::fixed::BTreeMap<K, V> as std::default::Default>::default', s_new), 'drop': (None, s_drop)}
SAFE = ('ownership',)
def run(F, op, cases, part, deadline=400):
    """cases: (shape, sharing, positions); part 'safe' reports memory safety, 'map' behaviour"""
    import tasks
    disp, spec = OPS[op]
    key = F.key_of(disp) if disp else None
    if disp and not key: return tasks.missing(disp)
    mty = next(i for i, t in enumerate(F.types) if t and t['k'] == 'struct' and t['s'] == 'btree::fixed::BTreeMap<K, V>')
    res = Result(); errs = []; stmts = 0; funcs = set(); n = 0; t0 = time.time()
    for shape, share, poss in cases:
        for pos in poss:
            I = Fx(F, key, share); I.deadline = t0 + deadline
            words_mode()
            st = St(); ctx = dict(orig={}, shapeof=shape); n += 1
            if key is None: args = [build(I, st, mty, shape, 'M')]; ctx['orig']['M'] = C(I, st, None, res, ctx).contents(args[0])[0]
            else:
                f = F.fns[key]; args = []
                for i in range(1, f['argc'] + 1):
                    t = f['locals'][i][0]; x = F.ty(t); r = F.ty(x['t']) if x['k'] == 'ref' else x
                    if r['k'] == 'struct' and I.coll(x['t'] if x['k'] == 'ref' else t): args.append(build(I, st, t, shape, 'M')); ctx['orig']['M'] = C(I, st, None, res, ctx).contents(args[-1])[0]
                    elif x['k'] == 'ref': st.cells[('A', 'K')] = ('s', 'K', x['t']); args.append(('r', ('A', 'K'), ()))
                    else: args.append(('s', 'K' if x['s'] == 'K' else 'V', t))
                if pos is not None: place(st, ctx['orig']['M'], 'K', pos)
            st.keep = dict(st.keep)
            init = []
            for a in args:
                v = I.res(st, a)
                I.owned(st, v if v[0] != 'r' else st.cells[v[1]] if v[1] == ('A', 'M') else UNIT, init)
            def facts(c): return dict(shape=str(shape), sharing={'U': 'no node is shared', 'S': 'every node is shared', 'K': 'every node but the root is shared', 'L': 'leaves are shared'}[share], position=None if pos is None else f'key equals entry {pos // 2}' if pos % 2 else f'key before entry {pos // 2}')
            def bad(what, exp, got): res.viol.setdefault(what, dict(expected=str(exp), got=str(got), instance=facts(None), trace=()))
            try:
                I.panicked = []; I.lost = {}
                if key is None:
                    outs = []; todo = [st]
                    for s in I.drop(st, args[0]): outs.append((s, UNIT))
                else: outs = I.S.run_top(key, args, st)
            except Undecided as e:
                errs.append((str(shape), e.why + ' in ' + ' > '.join(F.fns[k]['path'].split('::', 1)[-1] for k in I.fnstack[-4:]))); I.fnstack.clear(); I.S.stack.clear(); outs = []
            except Panic as e: outs = []; I.panicked.append((st, ('panic', e.why)))
            res.lost.update(I.lost)
            for s, w in I.panicked:
                ub = str(w[1]).startswith('UB')
                if ub != (part == 'safe'): continue
                res.n += 1
                if s.und: res.und.setdefault('completes', ('returns', w[1], s.und))
                else: bad('memory safety' if ub else 'completes', 'no undefined behaviour' if ub else 'returns', w[1])
            for s, rv in outs:
                c = C(I, s, rv, res, ctx); c.facts = lambda: facts(None)
                try:
                    if part == 'safe':
                        roots = [rv] + ([s.cells[('A', 'M')]] if ('A', 'M') in s.cells else [])
                        account(c, init, roots)
                    else: spec(c, pos, shape)
                except UB as e: bad('memory safety', 'no undefined behaviour', e.why)
                except Undecided as e: res.n += 1; res.und.setdefault('case', (e.why, None, s.und))
                except Panic as e: res.n += 1; bad('completes', 'readable', e.why)
            stmts += I.stats['stmts']; funcs |= I.analysed
    und = list(res.und.items()) + [('analysis', x) for x in errs[:3]] + [('path given up', f'{w} in {f}') for w, f in res.lost.items()]
    return dict(obligations=res.n + len(errs) + len(res.lost), discharged=res.good, viol=list(res.viol.items()), und=und,
                info=dict(function=F.fns[key]['disp'] if key else 'drop of ' + F.tstr(mty), cases=n, functions_analysed=len(funcs), statements=stmts, bounded=f'{len(cases)} trees of up to {max([count(c[0]) if c[0] is not None else 0 for c in cases])} entries'))
def words_mode():
    import words
    words.Mode.unit = False; words.Mode.nokey = False
def allpos(shape): return range(2 * (count(shape) if shape is not None else 0) + 1)
ITERS = {'into_iter': '<btree::fixed::BTreeMap<K, V> as std::iter::IntoIterator>::into_iter', 'iter_mut': P + 'iter_mut', 'iter': P + 'iter'}
def run_iter(F, op, cases, part='safe', deadline=400):
    """every interleaving of steps from both ends, abandoned after every step: what was delivered belongs to the caller,
    the rest is destroyed (or still in the map), once"""
    import tasks
    disp = ITERS[op]; key = F.key_of(disp)
    it = next((i for i in F.iters if F.disp_of(i['fn']) == disp), None)
    if not key or not it or 'next' not in it: return tasks.missing(disp)
    res = Result(); errs = []; stmts = 0; funcs = set(); n = 0; t0 = time.time(); mut = {'into_iter': None, 'iter': False, 'iter_mut': True}[op]
    for shape, share in cases:
        I = Fx(F, key, share); I.deadline = t0 + deadline; words_mode()
        st = St(); f = F.fns[key]; ctx = dict(orig={}, shapeof=shape)
        def facts(tr): return dict(shape=str(shape), sharing=share, steps=' '.join({'f': 'next', 'b': 'next_back'}[x] for x in tr))
        def bad(what, exp, got, tr): res.viol.setdefault(what, dict(expected=str(exp), got=str(got), instance=facts(tr), trace=()))
        def panics(tr):
            for s, w in I.panicked:
                res.n += 1
                if str(w[1]).startswith('UB') != (part == 'safe'): continue
                if str(w[1]).startswith('UB'): bad('memory safety', 'no undefined behaviour', w[1], tr)
                elif not s.und: bad('completes', 'returns', w[1], tr)
                else: res.und.setdefault('completes', ('returns', w[1], s.und))
            I.panicked = []
        try:
            args = [build(I, st, f['locals'][1][0], shape, 'M')]; M = C(I, st, None, res, ctx).contents(args[0])[0]
            init = []; I.owned(st, st.cells[('A', 'M')] if args[0][0] == 'r' else args[0], init)
            I.panicked = []; I.lost = {}
            outs = I.S.run_top(key, args, st); panics('')
            todo = [(s, rv, 0, len(M), '') for s, rv in outs]; seen = set()
            while todo:
                s, itv, lo, hi, tr = todo.pop()
                s = s.copy(); s.cells[('IT', 'x')] = itv
                k = (lo, hi, btiter.sig(I, s, itv), frozenset(s.ev) if part == 'safe' else 0)
                if k in seen: continue
                seen.add(k); n += 1
                if len(seen) > 30000: raise Undecided('too many positions')
                outc = [v for c, v in s.cells.items() if isinstance(c, tuple) and c[0] == 'OUT']
                try:
                    for mm in ('len', 'size_hint'):
                        if part != 'map' or mm not in it: continue
                        for t, v in I.split_safe(it[mm], mm, [('r', ('IT', 'x'), ())], s.copy()):
                            c = C(I, t, v, res, ctx); c.facts = lambda: facts(tr)
                            if mm == 'len': c.check('remaining length', hi - lo, btiter.num(c, v))
                            else:
                                v = I.force(t, v); b = c.opt(v[3][1])
                                c.check('size hint', (hi - lo, hi - lo), (btiter.num(c, v[3][0]), None if b is None else btiter.num(c, b)))
                        panics(tr)
                    if part == 'map' and lo == hi and mut is not None:
                        c = C(I, s, UNIT, res, ctx); c.facts = lambda: facts(tr); ctx['orig']['M'] = M
                        got, cnt = c.arg('M'); c.check('length afterwards', len(M), cnt)
                        c.check('contents afterwards', [(k, 'w:' + k if mut else v) for k, v in c.ren(M)], c.ren(got))
                    for q in I.drop(s, itv) if part == 'safe' else []:
                        c = C(I, q, UNIT, res, ctx); c.facts = lambda: facts(tr)
                        account(c, init, outc + ([q.cells[('A', 'M')]] if ('A', 'M') in q.cells else []))
                except Panic as e: res.n += 1; bad('memory safety', 'the iterator can be dropped', e.why, tr)
                panics(tr)
                for m in ('next', 'next_back'):
                    if m not in it: continue
                    for t, v in I.split_safe(it[m], m, [('r', ('IT', 'x'), ())], s.copy()):
                        v = I.force(t, v); t2 = tr + ('b' if m == 'next_back' else 'f')
                        if v[2] == 0:
                            if part == 'map' and hi > lo: bad('delivers an entry', 'an entry', 'None', t2)
                            elif part == 'map': res.n += 1; res.good += 1
                            if hi <= lo and not seen & {('end', lo)}: seen.add(('end', lo)); todo.append((t, t.cells[('IT', 'x')], lo, hi, t2))
                            continue
                        t = t.copy(); t.cells[('OUT', len(t2))] = v[3][0]
                        if hi <= lo:
                            if part == 'map': bad('ends', 'no further entry', str(v)[:60], t2)
                            continue
                        if part == 'map':
                            e = M[hi - 1 if m == 'next_back' else lo]; c = C(I, t, v, res, ctx); c.facts = lambda t2=t2: facts(t2)
                            c.check('entry', c.ren([e]), c.ren([c.entry(v[3][0])]))
                            if mut is not None:
                                for i, r in enumerate(I.res(t, v[3][0])[3]):
                                    r = I.force(t, r)
                                    if r[0] != 'r': raise Undecided('item is ' + r[0])
                                    c.check('refers into the map', True, r[1] == ('A', 'M'))
                                    if mut and i == 1: I.put(t, r[1], r[2], ('s', 'w:' + t.r(e[0]), I.res(t, I.get(t, r[1], r[2]))[2]))
                        todo.append((t, t.cells[('IT', 'x')], lo + (m == 'next'), hi - (m == 'next_back'), t2))
                    panics(tr)
        except Undecided as e:
            errs.append((str(shape), e.why + ' in ' + ' > '.join(F.fns[k]['path'].split('::', 1)[-1] for k in I.fnstack[-4:]))); I.fnstack.clear(); I.S.stack.clear()
        except Panic as e:
            if str(e.why).startswith('UB') == (part == 'safe'): bad('memory safety' if part == 'safe' else 'completes', 'completes', e.why, '')
        res.lost.update(I.lost); stmts += I.stats['stmts']; funcs |= I.analysed
    und = list(res.und.items()) + [('analysis', x) for x in errs[:3]] + [('path given up', f'{w} in {f}') for w, f in res.lost.items()]
    return dict(obligations=res.n + len(errs) + len(res.lost), discharged=res.good, viol=list(res.viol.items()), und=und,
                info=dict(function=F.fns[key]['disp'], positions=n, functions_analysed=len(funcs), statements=stmts, bounded=f'{len(cases)} trees of up to {max(count(c[0]) if c[0] is not None else 0 for c in cases)} entries'))
