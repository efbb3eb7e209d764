"""Runs public operations from an arbitrary well-formed symbolic container and compares what they
leave behind and return with their specification as words."""
import time
import absint
from absint import *
from words import Words
import concrete, lin as L

class Mismatch(Exception): pass

class Case:
    """one abstract outcome of an operation"""
    def __init__(self, I, s, rv, ctx):
        self.I = I; self.s = s; self.rv = rv; self.ctx = ctx; self.W = Words(s)
        self.show = ctx.get('show', ())
    def force(self, v): return self.I.force(self.s, v)
    def split(self, S, k):
        """presence of key k in tree S, deciding it by case split"""
        p = self.s.pres_of(S, k)
        if p is None:
            out = []
            for b in (False, True):
                def f(t, b=b): t.pres[(S, t.r(k))] = b
                out += attempt(self.s, f)
            raise Fork(out)
        return p
    def nonempty(self, S):
        s = self.s
        w = self.W.nf((('t', S),))
        if not w: return False
        if any(a[0] == 'e' for a in w) or S in s.nonempty: return True
        if len(w) == 1 and w[0][0] == 't' and w[0][1] in s.nonempty: return True
        raise Fork(attempt(s, lambda t: self.I.set_empty(t, S)) + attempt(s, lambda t: self.I.set_nonempty(t, S)))
    def deref(self, v, n=10):
        for _ in range(n):
            v = self.I.res(self.s, v)
            if v[0] == 's' and self.I.F.ty(v[2])['k'] in ('ref', 'ptr'): v = self.I.force(self.s, v)
            if v[0] == 'r': v = self.I.get(self.s, v[1], v[2])
            elif v[0] == 'arc': v = v[1]
            else: return v
        return v
    def key(self, v): 
        v = self.deref(v)
        return self.W.key(v[1]) if v[0] == 's' else v
    def val(self, v):
        v = self.deref(v)
        return self.W.val(self.I.cterm(self.s, v))
    def opt(self, v):
        v = self.force(v)
        if v[0] != 'a': raise Undecided('option is ' + v[0])
        return v[3][0] if v[2] == 1 else None
    def tup(self, v):
        v = self.force(v)
        return v[3]
    def bool(self, v):
        v = self.I.res(self.s, v)
        if v[0] == 's' and v[1].startswith('nd'): raise Undecided('nondeterministic result')
        v = self.force(v)
        if v[0] != 'b': raise Undecided('bool is ' + v[0])
        return v[1]
    def clean(self, w): return '?' not in str(w) and not self.s.und and not self.s.extra.get('amb')
    # ---- obligations
    def word(self, what, exp, got):
        e = self.W.nf(exp); g = self.W.nf(got)
        if e == g: return self.ok(what)
        cx = None
        if self.clean(g) and self.clean(e): cx = concrete.refute(self.s, exp, got, self.show)
        self.bad(what, e, g, cx)
    def vals(self, what, exp, got):
        if exp == got: return self.ok(what)
        cx = concrete.refute_term(self.s, exp, got, False, self.show) if self.clean(got) else None
        self.bad(what, exp, got, cx)
    def keys(self, what, exp, got):
        if exp == got: return self.ok(what)
        cx = concrete.refute_term(self.s, exp, got, True, self.show) if self.clean(got) else None
        self.bad(what, exp, got, cx)
    def flag(self, what, exp, got):
        if exp == got: return self.ok(what)
        cx = concrete.refute(self.s, ((('e', 0, ('c', exp)),)), ((('e', 0, ('c', got)),)), self.show) if not self.s.und and not self.s.extra.get('amb') else None
        self.bad(what, exp, got, cx)
    def ok(self, what): self.ctx['res'].ok(what)
    def bad(self, what, e, g, cx): self.ctx['res'].bad(what, e, g, cx, self)

class Result:
    def __init__(self, api): self.api = api; self.n = 0; self.good = 0; self.viol = {}; self.und = {}; self.outs = 0; self.err = None; self.t = 0; self.panics = {}; self.whats = {}; self.lost = {}; self.mayp = {}
    def ok(self, what): self.n += 1; self.good += 1; self.whats[what] = self.whats.get(what, 0) + 1
    def bad(self, what, e, g, cx, case):
        self.n += 1
        if cx is None: self.und.setdefault(what, (e, g, case.s.und))
        else: self.viol.setdefault(what, dict(expected=str(e), got=str(g), instance=cx, trace=case.s.trace))

def run(I, key, build, spec, api):
    res = Result(api); t0 = time.time()
    st = St(); ctx = {'res': res}
    I.stats['stmts'] = 0
    try:
        args = build(I, st, ctx)
        starts = [st]
        if I.mode == 'seq':
            # a stored count is zero exactly when the container is empty
            for S, v in ctx.get('lens', ()):
                nx = []
                for t in starts:
                    def f0(t): I.set_empty(t, S); t.eq0(v)
                    def f1(t): I.set_nonempty(t, S); t.ge(L.sub(v, L.const(1)))
                    nx += attempt(t, f0) + attempt(t, f1)
                starts = nx
        outs = []
        for t in starts: outs += I.S.run_top(key, args, t)
    except Undecided as e:
        res.err = e.why + ' in ' + ' > '.join(I.F.fns[k]['path'].split('::', 1)[-1] for k in I.fnstack[-4:]); I.fnstack.clear(); I.S.stack.clear()
        res.t = time.time() - t0; res.lost = dict(I.lost)
        return res
    except Panic as e:
        res.panics[e.why] = key; outs = []
    for t, w in I.panicked:
        t = t.copy()
        if t.und or t.extra.get('mrg') or t.extra.get('rec'): res.mayp[w[1]] = None; continue
        cx = concrete.refute(t, (('e', 0, ('c', 'returns')),), (('e', 0, ('c', 'panics')),), ctx.get('show', ()))
        res.mayp[w[1]] = res.mayp.get(w[1]) or cx
    I.panicked = []
    if I.want_panics:
        for w, cx in res.mayp.items():
            res.n += 1
            if cx: res.viol['completes'] = dict(expected='returns', got=w, instance=cx, trace=())
            else: res.und['completes'] = ('returns', w, ())
        if not res.mayp: res.ok('completes')
    todo = list(outs); res.outs = len(outs); res.lost = dict(I.lost)
    n = 0
    while todo:
        s, rv = todo.pop(); n += 1
        if n > (200000 if I.exact else 3000): res.err = 'too many cases'; break
        sv = (res.n, res.good, dict(res.viol), dict(res.und), dict(res.whats))
        try: spec(Case(I, s.copy(), rv, ctx))
        except Fork as fk:
            res.n, res.good, res.viol, res.und, res.whats = sv
            todo += [(q, rv) for q in fk.states]
        except Dead:
            res.n, res.good, res.viol, res.und, res.whats = sv
        except Undecided as e:
            res.und.setdefault('case', (e.why, None, s.und))
        except Panic as e:
            res.und.setdefault('case', (e.why, None, s.und))
    res.t = time.time() - t0
    return res
