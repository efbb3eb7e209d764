"""Abstract semantics of the standard-library leaves used by the analysed code."""
import lin as L, seqs
from absint import attempt, Dead, Undecided, Fork, Panic, UNIT, I as Int, B, St
from words import Words

def install(I):
    M = I.models; F = I.F
    def m(*names):
        def deco(f):
            for n in names: M[n] = f
            return f
        return deco
    def targ(fn, i=0):
        a = [x for x in (fn.get('args') or []) if isinstance(x, int)]
        return a[i] if i < len(a) else None
    def deref(st, v, n=1):
        for _ in range(n):
            v = I.force(st, v)
            if v[0] == 'r': v = I.get(st, v[1], v[2])
        return v
    def chase(st, v):
        """through any references and boxes to the underlying value"""
        for _ in range(8):
            v = I.res(st, v)
            if v[0] == 's' and F.ty(v[2])['k'] in ('ref', 'ptr'): v = I.force(st, v)
            if v[0] == 'r': v = I.get(st, v[1], v[2])
            elif v[0] == 'arc': v = v[1]
            else: return v
        return v
    def loc(st, v):
        v = I.force(st, v)
        if v[0] != 'r': raise Undecided('expected a reference, got ' + v[0])
        return v[1], v[2]
    def some(st, fn_ret, v): return ('a', fn_ret, 1, (v,))
    def none(fn_ret): return ('a', fn_ret, 0, ())
    def opt_ty(v_ty_pred=None):
        # any Option type index: variants are compared by index only
        return I.any_option
    I.any_option = next(i for i, t in enumerate(F.types) if t and F.is_option(i))
    I.any_result = next(i for i, t in enumerate(F.types) if t and t['k'] == 'enum' and t.get('d') == 'core::result::Result')
    ordt = next((i for i, t in enumerate(F.types) if t and t['k'] == 'enum' and t.get('d') == 'core::cmp::Ordering'), None)
    I.ordering_ty = ordt
    def ordv(n):  # n in -1,0,1
        vs = F.ty(ordt)['v']
        for i, v in enumerate(vs):
            if int(v['d']) in (n, n & 0xff, n & (2**128 - 1), n & (2**64 - 1)): return ('a', ordt, i, ())
        raise Undecided('ordering')
    I.ordv = ordv
    SOME = lambda v: ('a', I.any_option, 1, (v,))
    NONE = ('a', I.any_option, 0, ())
    I.SOME = SOME; I.NONE = NONE
    OK = lambda v: ('a', I.any_result, 0, (v,)); ERR = lambda v: ('a', I.any_result, 1, (v,))
    def neg(st, x):
        """an index below zero wraps around and is out of any range"""
        return st.lin.entails_ge(L.sub(L.const(-1), x))
    # ------------------------------------------------------------ panics
    @m('core::panicking::panic', 'std::option::unwrap_failed', 'core::panicking::assert_failed', 'std::rt::panic_fmt', 'core::panicking::panic_fmt',
       'std::option::expect_failed', 'std::result::unwrap_failed', 'core::panicking::panic_display', 'core::panicking::unreachable_display',
       'std::rt::begin_panic', 'core::panicking::panic_explicit', 'core::panicking::panic_nounwind')
    def _panic(I, fn, a, st): raise Panic('panic')
    # ------------------------------------------------------------ message formatting, without effect on collections
    @m("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::new", "std::fmt::Arguments::<'a>::new_const", "std::fmt::Arguments::<'a>::new_v1", "std::fmt::Arguments::<'a>::from_str_nonconst",
       "core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::<impl std::fmt::Arguments<'a>>::new_const", "core::fmt::rt::<impl std::fmt::Arguments<'a>>::new_v1")
    def _fmt(I, fn, a, st): return [(st, ('u',))]
    # ------------------------------------------------------------ mem
    @m('std::thread::panicking')
    def f(I, fn, a, st): return [(st, B(False)), (st.copy(), B(True))]
    @m('std::mem::replace')
    def _replace(I, fn, a, st):
        c, p = loc(st, a[0]); old = I.get(st, c, p); I.put(st, c, p, a[1]); return [(st, old)]
    @m('std::mem::swap')
    def _swap(I, fn, a, st):
        c, p = loc(st, a[0]); d, q = loc(st, a[1]); x = I.get(st, c, p); y = I.get(st, d, q)
        I.put(st, c, p, y); I.put(st, d, q, x); return [(st, UNIT)]
    @m('std::mem::take')
    def _take(I, fn, a, st):
        c, p = loc(st, a[0]); old = I.get(st, c, p)
        for s, d in I.default_value(st, targ(fn)): 
            old = I.get(s, c, p); I.put(s, c, p, d); return [(s, old)]
    @m('std::mem::drop', 'std::mem::forget')
    def _drop(I, fn, a, st):
        if 'drop' in I.hooks and fn.get('name') == 'drop': I.hooks['drop'](I, st, a[0], targ(fn), None)
        return [(st, UNIT)]
    @m('std::mem::size_of')
    def _so(I, fn, a, st):
        v = L.var(f"sizeof:{F.tstr(targ(fn))}"); st.ge(v); return [(st, ('i', v))]
    def default_value(st, ty):
        x = F.ty(ty)
        if F.is_option(ty): return [(st, ('a', ty, 0, ()))]
        if F.is_vec(ty): return [(st, ('vec', ty, ()))]
        if x['k'] in ('int', 'uint'): return [(st, Int(0))]
        if x['k'] == 'bool': return [(st, B(False))]
        for k, f in F.fns.items():
            if f['local'] and f.get('name') == 'default' and f.get('impl_trait', '') and 'Default' in str(f.get('impl_trait')) and f['blocks'] and f['locals'][0][0] == ty:
                return I.split(I.run_body(k, [], st))
        # same ADT with other generic arguments
        for k, f in F.fns.items():
            if f['local'] and f.get('name') == 'default' and 'Default' in str(f.get('impl_trait')) and F.adt(f['locals'][0][0]) == F.adt(ty) and F.adt(ty):
                return I.split(I.run_body(k, [], st))
        raise Undecided('default of ' + x['s'])
    I.default_value = default_value
    # ------------------------------------------------------------ Arc / Rc / Box
    @m('std::sync::Arc::<T>::new', 'std::rc::Rc::<T>::new', 'std::boxed::Box::<T>::new')
    def _arcnew(I, fn, a, st): return [(st, ('arc', a[0], True))]
    @m('<std::sync::Arc<T, A> as std::clone::Clone>::clone', '<std::rc::Rc<T, A> as std::clone::Clone>::clone')
    def _arcclone(I, fn, a, st):
        c, p = loc(st, a[0]); v = I.force(st, I.get(st, c, p))
        if v[0] == 'arc':
            v = ('arc', v[1], False)
            I.event(st, 'share', (c, p))
            if v[1][0] != 's': I.put_quiet(st, c, p, v)
        return [(st, v)]
    @m('<std::boxed::Box<T, A> as std::clone::Clone>::clone')
    def _boxclone(I, fn, a, st): return [(st, deref(st, a[0]))]
    @m('<std::sync::Arc<T, A> as std::ops::Deref>::deref', '<std::sync::Arc<T, A> as std::convert::AsRef<T>>::as_ref', '<std::rc::Rc<T, A> as std::ops::Deref>::deref')
    def _arcderef(I, fn, a, st):
        c, p = loc(st, a[0]); v = I.force(st, I.get(st, c, p))
        if v[0] != 'arc': raise Undecided('deref of ' + v[0])
        if I.get(st, c, p)[0] == 's': I.put_quiet(st, c, p, v)
        return [(st, ('r', c, p + (('d',),)))]
    @m('std::sync::Arc::<T, A>::make_mut', 'std::rc::Rc::<T, A>::make_mut')
    def _makemut(I, fn, a, st):
        c, p = loc(st, a[0]); v = I.force(st, I.get(st, c, p))
        if v[0] != 'arc': raise Undecided('make_mut of ' + v[0])
        I.put(st, c, p, ('arc', v[1], True))
        return [(st, ('r', c, p + (('d',),)))]
    def forkb(st, key):
        """nondeterministic choice"""
        a = st.copy(); b = st.copy(); return a, b
    @m('std::sync::Arc::<T, A>::get_mut', 'std::rc::Rc::<T, A>::get_mut')
    def _getmut(I, fn, a, st):
        c, p = loc(st, a[0]); v = I.force(st, I.get(st, c, p))
        if v[0] != 'arc': raise Undecided('get_mut of ' + v[0])
        out = []
        own = I.own(st, v)
        if own is not True:
            s = st.copy()
            if 'drop' in I.hooks: I.put_quiet(s, c, p, ('arc', v[1], 'S'))
            out.append((s, NONE))
        if own is False: return out
        s = st.copy(); I.put_quiet(s, c, p, ('arc', v[1], True))
        return out + [(s, SOME(('r', c, p + (('d',),))))]
    @m('std::sync::Arc::<T, A>::try_unwrap', 'std::rc::Rc::<T, A>::try_unwrap')
    def _tryunwrap(I, fn, a, st):
        v = I.force(st, a[0])
        if v[0] != 'arc': raise Undecided('try_unwrap of ' + v[0])
        own = I.own(st, v)
        out = [(st.copy(), OK(v[1]))] if own is not False else []
        if own is not True: out.append((st.copy(), ERR(('arc', v[1], 'S') if 'drop' in I.hooks else v)))
        return out
    @m('std::sync::Arc::<T, A>::into_inner', 'std::rc::Rc::<T, A>::into_inner')
    def _intoinner(I, fn, a, st):
        v = I.force(st, a[0])
        own = I.own(st, v)
        out = [(st.copy(), SOME(v[1]))] if own is not False else []
        if own is not True: out.append((st.copy(), NONE))
        return out
    @m('std::sync::Arc::<T, A>::unwrap_or_clone', 'std::rc::Rc::<T, A>::unwrap_or_clone')
    def _uoc(I, fn, a, st):
        v = I.force(st, a[0]); return [(st, v[1])]
    @m('std::sync::Arc::<T, A>::ptr_eq', 'std::rc::Rc::<T, A>::ptr_eq')
    def _ptreq(I, fn, a, st):
        """true implies both denote the same contents"""
        x = deref(st, a[0]); y = deref(st, a[1])
        nx, ny = I.res(st, x), I.res(st, y)
        if getattr(I, 'sharing', None) is not None: return I.samenode(st, x, y)
        out = [(st.copy(), B(False))]
        if nx == ny: return out + [(st.copy(), B(True))]
        s = st.copy()
        try:
            I.assume_same(s, x, y); out.append((s, B(True)))
        except Undecided:
            s = st.copy(); s.und += ('pointer equality',); out.append((s, B(True)))
        except Dead: pass
        return out
    @m('std::sync::Arc::<T, A>::strong_count', 'std::rc::Rc::<T, A>::strong_count', 'std::sync::Arc::<T, A>::weak_count')
    def _sc(I, fn, a, st):
        if 'drop' in I.hooks and fn.get('name') == 'strong_count':
            c, p = loc(st, a[0]); x = I.force(st, I.get(st, c, p)); out = []
            if x[2] is not True:
                s = st.copy(); n = L.var(s.fresh('rc')); s.ge(L.sub(n, L.const(2))); I.put_quiet(s, c, p, ('arc', x[1], 'S')); out.append((s, ('i', n)))
            s = st.copy(); I.put_quiet(s, c, p, ('arc', x[1], True)); return out + [(s, Int(1))]
        v = L.var(st.fresh('rc')); st.ge(L.sub(v, L.const(1))); return [(st, ('i', v))]
    # ------------------------------------------------------------ generic traits on parameters
    @m('std::borrow::Borrow::borrow', 'std::borrow::BorrowMut::borrow_mut', 'std::convert::AsRef::as_ref')
    def _borrow(I, fn, a, st): return [(st, a[0])]
    @m('std::clone::Clone::clone', '<i8 as std::clone::Clone>::clone')
    def _clone(I, fn, a, st): return [(st, deref(st, a[0]))]
    for t in ('i8', 'usize', 'bool', 'u8', 'u32', 'u64', 'i32'):
        M[f'std::clone::impls::<impl std::clone::Clone for {t}>::clone'] = _clone
    def cmp3(st, x, y):
        """fork into (-1|0|1, state)"""
        x = chase(st, x); y = chase(st, y)
        if x[0] in ('a',) and y[0] == 'a' and x[1] == y[1] == None: raise Undecided('tuple compare')
        if x[0] == 's' and y[0] == 's' and I.keylike(x[2]) and I.keylike(y[2]):
            return I.keycmp(st, x[1], y[1])
        if x[0] == 'i' and y[0] == 'i':
            d = L.sub(x[1], y[1])
            r = []
            for n, f in ((-1, lambda t: t.ge(L.sub(L.scale(d, -1), L.const(1)))), (0, lambda t: t.eq0(d)), (1, lambda t: t.ge(L.sub(d, L.const(1))))):
                r += [(n, s) for s in attempt(st, f)]
            return r
        if x[0] == 'nd' or y[0] == 'nd':
            return [(n, st.copy()) for n in (-1, 0, 1)]
        if x == UNIT and y == UNIT: return [(0, st)]
        raise Undecided('comparison of ' + x[0] + '/' + y[0])
    I.cmp3 = cmp3
    # ------------------------------------------------------------ range arguments
    def bounds(st, qt):
        """the two bounds of the (only) range argument, decided once: kinds ('I','E','U') over the keys rg.lb and rg.ub"""
        r = st.extra.get('rg')
        if r is None:
            out = []
            for lk in 'IEU':
                for uk in 'IEU':
                    t = st.copy(); t.extra['rg'] = (lk, uk)
                    for n in ('rg.lb', 'rg.ub'): t.cells[n] = ('s', n, qt)
                    if lk == 'U' or uk == 'U': out.append(t); continue
                    out += attempt(t, lambda q: q.add_lt('rg.lb', 'rg.ub'))
                    # equal bounds select something or nothing, except that both excluded is refused by the standard maps
                    if lk != 'E' or uk != 'E': out += attempt(t, lambda q: q.add_eq('rg.lb', 'rg.ub'))
            raise Fork(out)
        return r
    def bound(which):
        def f(I, fn, a, st):
            if 'range' not in I.hooks: return NotImplemented
            if fn.get('key') in I.F.fns: return NotImplemented
            bt = I.curdest; qt = F.ty(F.ty(bt)['args'][0])['t']
            k = bounds(st, qt)[which]; c = ('rg.lb', 'rg.ub')[which]
            if k == 'U': return [(st, ('a', bt, 2, ()))]
            return [(st, ('a', bt, 'IE'.index(k), (('r', c, ()),)))]
        return f
    M['std::ops::RangeBounds::start_bound'] = bound(0); M['std::ops::RangeBounds::end_bound'] = bound(1)
    def inrange(I, st, x):
        """[(state, key x is in the range)]"""
        lk, uk = st.extra['rg']; res = []
        for n, s in ([(1, st)] if lk == 'U' else I.keycmp(st, x, 'rg.lb')):
            if n < 0 or n == 0 and lk == 'E': res.append((s, False)); continue
            for m_, t in ([(-1, s)] if uk == 'U' else I.keycmp(s, x, 'rg.ub')):
                res.append((t, m_ < 0 or m_ == 0 and uk == 'I'))
        return res
    I.inrange = inrange
    @m('std::ops::RangeBounds::contains')
    def _contains(I, fn, a, st):
        if 'range' not in I.hooks or fn.get('key') in I.F.fns: return NotImplemented
        x = chase(st, a[1])
        if x[0] != 's': raise Undecided('range test of ' + x[0])
        bounds(st, x[2])
        return [(s, B(b)) for s, b in inrange(I, st, x[1])]
    @m('std::cmp::Ord::cmp')
    def _cmp(I, fn, a, st): return [(s, ordv(n)) for n, s in cmp3(st, a[0], a[1])]
    @m('std::cmp::PartialOrd::partial_cmp')
    def _pcmp(I, fn, a, st): return [(s, SOME(ordv(n))) for n, s in cmp3(st, a[0], a[1])]
    for nm, pred in (('lt', lambda n: n < 0), ('le', lambda n: n <= 0), ('gt', lambda n: n > 0), ('ge', lambda n: n >= 0)):
        M['std::cmp::PartialOrd::' + nm] = (lambda pred: lambda I, fn, a, st: [(s, B(pred(n))) for n, s in cmp3(st, a[0], a[1])])(pred)
    @m('std::cmp::PartialEq::eq')
    def _eq(I, fn, a, st): return I.valeq(st, chase(st, a[0]), chase(st, a[1]), False)
    @m('std::cmp::PartialEq::ne')
    def _ne(I, fn, a, st): return I.valeq(st, chase(st, a[0]), chase(st, a[1]), True)
    # ------------------------------------------------------------ integers
    @m('std::intrinsics::integer_max')
    def _imax(I, fn, a, st): return minmax(st, a, True)
    @m('std::intrinsics::integer_min')
    def _imin(I, fn, a, st): return minmax(st, a, False)
    def minmax(st, a, mx):
        x = I.force(st, a[0]); y = I.force(st, a[1])
        if x[0] != 'i' or y[0] != 'i':
            if I.nonneg(st, x) and I.nonneg(st, y):
                f = any if mx else all
                return [(st, ('nd', '+' if f(I.positive(st, q) for q in (x, y)) else '0'))]
            return [(st, ('nd',))]
        ge = I.icmp(st, 'Ge', x[1], y[1])
        return [(st, x if ge == mx else y)]
    @m('core::num::<impl usize>::saturating_sub')
    def _ssub(I, fn, a, st):
        x = I.force(st, a[0]); y = I.force(st, a[1])
        if x[0] != 'i' or y[0] != 'i': return [(st, ('nd',))]
        if I.icmp(st, 'Ge', x[1], y[1]): return [(st, ('i', L.sub(x[1], y[1])))]
        return [(st, Int(0))]
    @m('core::num::<impl usize>::checked_sub')
    def _csub(I, fn, a, st):
        x = I.force(st, a[0]); y = I.force(st, a[1])
        if x[0] != 'i' or y[0] != 'i': return [(st, ('s', st.fresh('nd'), I.any_option))]
        if I.icmp(st, 'Ge', x[1], y[1]): return [(st, SOME(('i', L.sub(x[1], y[1]))))]
        return [(st, NONE)]
    for n in ('wrapping_sub', 'wrapping_add'):
        pass
    @m('core::num::<impl i8>::abs')
    def _abs(I, fn, a, st):
        x = I.force(st, a[0])
        if x[0] != 'i': return [(st, x)]
        if I.icmp(st, 'Ge', x[1], L.ZERO): return [(st, x)]
        return [(st, ('i', L.scale(x[1], -1)))]
    @m('core::num::<impl usize>::unchecked_add::precondition_check', 'core::num::<impl u32>::unchecked_add::precondition_check')
    def _pc(I, fn, a, st): return [(st, UNIT)]
    # ------------------------------------------------------------ callbacks
    for n in ('std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once', 'std::ops::Fn::call'):
        M[n] = lambda I, fn, a, st: I.call_fn_trait(fn, a, st)
    # ------------------------------------------------------------ Vec / slices / VecDeque
    def vec_at(st, ref):
        c, p = loc(st, ref); v = I.force(st, I.get(st, c, p))
        for _ in range(4):
            if v[0] == 'r': c, p = v[1], v[2]; v = I.force(st, I.get(st, c, p))
            elif v[0] == 'arc': p = p + (('d',),); v = I.force(st, I.get(st, c, p))
            else: break
        if v[0] != 'vec': raise Undecided('expected a vector, got ' + v[0])
        if seqs.isseq(v[2]): v = ('vec', v[1], seqs.resolve(st, v[2]))
        if I.get(st, c, p)[0] == 's': I.put_quiet(st, c, p, v)
        return c, p, v
    I.vec_at = vec_at
    for n in ('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut', 'std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice'):
        M[n] = lambda I, fn, a, st: [(st, a[0])]
    @m('std::vec::Vec::<T>::new', 'std::collections::VecDeque::<T>::new')
    def _vnew(I, fn, a, st): return [(st, ('vec', I.vecty(targ(fn)), ()))]
    @m('std::vec::Vec::<T>::with_capacity', 'std::collections::VecDeque::<T>::with_capacity')
    def _vcap(I, fn, a, st): return [(st, ('vec', I.vecty(targ(fn)), ()))]
    def vecty(et):
        for i, x in enumerate(F.types):
            if x and F.adt(i) and F.adt(i).endswith('::Vec') and x['args'][0] == et: return i
        return I.arr_ty(et)
    I.vecty = vecty
    @m('std::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len', 'std::collections::VecDeque::<T, A>::len')
    def _vlen(I, fn, a, st):
        c, p, v = vec_at(st, a[0]); return [(st, ('i', I.vec_len(st, v)))]
    @m('std::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty', 'std::collections::VecDeque::<T, A>::is_empty')
    def _vie(I, fn, a, st):
        c, p, v = vec_at(st, a[0])
        if seqs.isseq(v[2]):
            if any(s[0] == 'e' or s[1] in st.nonempty for s in v[2]): return [(st, B(False))]
            for s in v[2]:
                if not I.is_empty(st, s[1]): raise Fork(attempt(st, lambda t: I.set_empty(t, s[1])) + attempt(st, lambda t: I.set_nonempty(t, s[1])))
            return [(st, B(True))]
        return [(st, B(I.icmp(st, 'Eq', I.vec_len(st, v), L.ZERO)))]
    def pushb(I, fn, a, st):
        c, p, v = vec_at(st, a[0]); I.put(st, c, p, ('vec', v[1], v[2] + (('e', a[1]),))); return [(st, UNIT)]
    def pushf(I, fn, a, st):
        c, p, v = vec_at(st, a[0]); I.put(st, c, p, ('vec', v[1], (('e', a[1]),) + v[2])); return [(st, UNIT)]
    M['std::vec::Vec::<T, A>::push'] = M['std::collections::VecDeque::<T, A>::push_back'] = pushb
    M['std::collections::VecDeque::<T, A>::push_front'] = pushf
    def endseq(st, v, back):
        """unfold an unknown run at the end that is accessed; true if the sequence is one"""
        if not seqs.isseq(v[2]): return None
        segs = list(v[2])
        while segs:
            s = segs[-1 if back else 0]
            if s[0] == 'e': return tuple(segs)
            if s[1] in st.empty: segs.pop(-1 if back else 0); continue
            seqs.expand(I, st, s[1], F.elem_ty(v[1]), back)
        return ()
    I.endseq = endseq
    def popat(I, st, ref, back):
        c, p, v = vec_at(st, ref)
        q = endseq(st, v, back)
        if q is not None:
            if not q: return [(st, NONE)]
            I.put(st, c, p, ('vec', v[1], q[:-1] if back else q[1:]))
            return [(st, SOME(q[-1 if back else 0][1]))]
        n = I.vec_len(st, v)
        if not I.icmp(st, 'Gt', n, L.ZERO): return [(st, NONE)]
        l, e, r = I._take1(st, v, L.sub(n, L.const(1)) if back else L.ZERO)
        I.put(st, c, p, I.mkvec(st, v[1], list(l) + list(r)))
        return [(st, SOME(e))]
    for n in ('std::vec::Vec::<T, A>::pop', 'std::collections::VecDeque::<T, A>::pop_back'): M[n] = lambda I, fn, a, st: popat(I, st, a[0], True)
    M['std::collections::VecDeque::<T, A>::pop_front'] = lambda I, fn, a, st: popat(I, st, a[0], False)
    def peek(I, st, ref, back):
        c, p, v = vec_at(st, ref)
        q = endseq(st, v, back)
        if q is not None:
            if not q: return [(st, NONE)]
            I.put_quiet(st, c, p, ('vec', v[1], q))
            return [(st, SOME(('r', c, p + (('end', back),))))]
        n = I.vec_len(st, v)
        if not I.icmp(st, 'Gt', n, L.ZERO): return [(st, NONE)]
        i = L.sub(n, L.const(1)) if back else L.ZERO
        l, e, r = I._take1(st, v, i)
        I.put_quiet(st, c, p, ('vec', v[1], tuple(l) + (('e', e),) + tuple(r)))
        return [(st, SOME(('r', c, p + (('e', i),))))]
    for n in ('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut', 'std::collections::VecDeque::<T, A>::back', 'std::collections::VecDeque::<T, A>::back_mut'):
        M[n] = lambda I, fn, a, st: peek(I, st, a[0], True)
    for n in ('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::first_mut', 'std::collections::VecDeque::<T, A>::front', 'std::collections::VecDeque::<T, A>::front_mut'):
        M[n] = lambda I, fn, a, st: peek(I, st, a[0], False)
    def index(I, fn, a, st):
        c, p, v = vec_at(st, a[0]); i = I.force(st, a[1])
        n = I.vec_len(st, v)
        if i[0] == 'i':
            if neg(st, i[1]) or not I.icmp(st, 'Lt', i[1], n): raise Panic('index out of bounds')
            l, e, r = I._take1(st, v, i[1])
            I.put_quiet(st, c, p, ('vec', v[1], tuple(l) + (('e', e),) + tuple(r)))
            return [(st, ('r', c, p + (('e', st.lin.norm(i[1])),)))]
        if i[0] == 'a':
            d = F.ty(i[1]).get('d', '') if i[1] is not None else ''
            lo, hi = L.ZERO, n
            fs = [I.force(st, x) for x in i[3]]
            if d.endswith('::Range'): lo, hi = fs[0][1], fs[1][1]
            elif d.endswith('::RangeFrom'): lo = fs[0][1]
            elif d.endswith('::RangeTo'): hi = fs[0][1]
            elif d.endswith('::RangeFull'): pass
            elif d.endswith('::RangeToInclusive'): hi = L.add(fs[0][1], L.const(1))
            elif d.endswith('::RangeInclusive'): lo, hi = fs[0][1], L.add(fs[1][1], L.const(1))
            else: raise Undecided('slice index ' + d)
            if neg(st, lo) or not I.icmp(st, 'Le', lo, hi): raise Panic('slice order')
            if not I.icmp(st, 'Le', hi, n): raise Panic('slice end')
            if st.lin.entails_eq(lo) and st.lin.entails_eq(L.sub(hi, n)): return [(st, ('r', c, p))]
            return [(st, ('r', c, p + (('sl', lo, hi),)))]
        raise Undecided('index by ' + i[0])
    for n in ('<std::vec::Vec<T, A> as std::ops::Index<I>>::index', '<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut',
              'core::slice::index::<impl std::ops::Index<I> for [T]>::index', 'core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut'): M[n] = index
    def sget(I, fn, a, st):
        i = I.force(st, a[1])
        c, p, v = vec_at(st, a[0]); n = I.vec_len(st, v)
        if i[0] == 'i':
            if neg(st, i[1]) or not I.icmp(st, 'Lt', i[1], n): return [(st, NONE)]
            return [(s, SOME(r)) for s, r in index(I, fn, a, st)]
        if i[0] == 'a':
            try: return [(s, SOME(r)) for s, r in index(I, fn, a, st)]
            except Panic: return [(st, NONE)]
        raise Undecided('get')
    M['core::slice::<impl [T]>::get'] = M['core::slice::<impl [T]>::get_mut'] = sget
    @m('std::vec::Vec::<T, A>::insert')
    def _vins(I, fn, a, st):
        c, p, v = vec_at(st, a[0]); i = I.force(st, a[1])
        if neg(st, i[1]) or not I.icmp(st, 'Le', i[1], I.vec_len(st, v)): raise Panic('insert index')
        l, r = I.vec_split(st, v, i[1])
        I.put(st, c, p, I.mkvec(st, v[1], list(l) + [('e', a[2])] + list(r))); return [(st, UNIT)]
    @m('std::vec::Vec::<T, A>::remove')
    def _vrem(I, fn, a, st):
        c, p, v = vec_at(st, a[0]); i = I.force(st, a[1])
        if neg(st, i[1]) or not I.icmp(st, 'Lt', i[1], I.vec_len(st, v)): raise Panic('remove index')
        l, e, r = I._take1(st, v, i[1])
        I.put(st, c, p, I.mkvec(st, v[1], list(l) + list(r))); return [(st, e)]
    @m('std::vec::Vec::<T, A>::split_off')
    def _vso(I, fn, a, st):
        c, p, v = vec_at(st, a[0]); i = I.force(st, a[1])
        if neg(st, i[1]) or not I.icmp(st, 'Le', i[1], I.vec_len(st, v)): raise Panic('split_off index')
        l, r = I.vec_split(st, v, i[1])
        I.put(st, c, p, I.mkvec(st, v[1], l)); return [(st, I.mkvec(st, v[1], r))]
    @m('std::vec::Vec::<T, A>::truncate')
    def _vtr(I, fn, a, st):
        c, p, v = vec_at(st, a[0]); i = I.force(st, a[1])
        if neg(st, i[1]) or not I.icmp(st, 'Le', i[1], I.vec_len(st, v)): return [(st, UNIT)]
        l, r = I.vec_split(st, v, i[1])
        I.put(st, c, p, I.mkvec(st, v[1], l)); return [(st, UNIT)]
    @m('std::vec::Vec::<T, A>::clear', 'std::collections::VecDeque::<T, A>::clear')
    def _vcl(I, fn, a, st):
        c, p, v = vec_at(st, a[0]); I.put(st, c, p, ('vec', v[1], ())); return [(st, UNIT)]
    @m('std::vec::Vec::<T, A>::append', 'std::collections::VecDeque::<T, A>::append')
    def _vapp(I, fn, a, st):
        c, p, v = vec_at(st, a[0]); d, q, w = vec_at(st, a[1])
        I.put(st, c, p, I.mkvec(st, v[1], list(v[2]) + list(w[2]))); I.put(st, d, q, ('vec', w[1], ())); return [(st, UNIT)]
    @m('<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend')
    def _vext(I, fn, a, st):
        c, p, v = vec_at(st, a[0]); w = I.force(st, a[1])
        if w[0] != 'vec': raise Undecided('extend by an iterator')
        I.put(st, c, p, I.mkvec(st, v[1], list(v[2]) + list(w[2]))); return [(st, UNIT)]
    @m('<std::vec::Vec<T, A> as std::clone::Clone>::clone')
    def _vclone(I, fn, a, st):
        c, p, v = vec_at(st, a[0]); return [(st, v)]
    M['std::boxed::Box::<T>::new_uninit'] = lambda I, fn, a, st: [(st, ('arc', ('mu',), True))]
    @m('std::boxed::box_assume_init_into_vec_unsafe')
    def _biv(I, fn, a, st):
        v = I.force(st, a[0]); x = v[1] if v[0] == 'arc' else v
        x = I.res(st, x)
        while x[0] == 'a' and x[3]: x = I.res(st, x[3][0] if len(x[3]) == 1 else x[3][1])
        if x[0] == 'vec': return [(st, ('vec', I.vecty(F.elem_ty(x[1])), x[2]))]
        raise Undecided('vec! macro')
