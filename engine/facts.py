"""Loads the MIR facts written by the mirfacts driver."""
import json, re

class Facts:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']; self.fns = d['fns']; self.impls = d['impls']; self.items = d['items']; self.unsafe = d['unsafe']; self.iters = d.get('iters', [])
        self.byname = {}
        for k, f in self.fns.items():
            f['key'] = k
            self.byname.setdefault(f.get('disp', f['path']), []).append(k)
        self._scc = None
        for f in self.fns.values():
            f['_order'] = None
    # -- types ---------------------------------------------------------------
    def ty(self, t): return self.types[t]
    def tstr(self, t): return self.types[t]['s']
    def adt(self, t):
        x = self.types[t]
        return x.get('d') if x['k'] in ('struct', 'enum', 'union') else None
    def is_option(self, t): return self.adt(t) == 'core::option::Option'
    def is_box(self, t):
        d = self.adt(t)
        return d is not None and (d.startswith('alloc::rcs::arc::Arc') or d.startswith('alloc::sync::Arc') or d.startswith('alloc::rc::Rc') or d.startswith('alloc::rcs::rc::Rc') or d == 'alloc::boxed::Box' or d.endswith('::Arc') or d.endswith('::Rc'))
    def is_vec(self, t):
        d = self.adt(t)
        return d is not None and (d.endswith('::Vec') or d.endswith('::VecDeque')) or self.types[t]['k'] in ('array', 'slice')
    def elem_ty(self, t):
        x = self.types[t]
        if x['k'] in ('array', 'slice'): return x['t']
        return x['args'][0]
    def key_of(self, disp):
        """the identity-instantiated local function with this display path"""
        if not hasattr(self, '_bydisp'): self._bydisp = {self.fns[k]['disp']: k for k in self.local_identity()}
        return self._bydisp.get(disp)
    def disp_of(self, path):
        if not hasattr(self, '_bypath'): self._bypath = {self.fns[k]['path']: self.fns[k]['disp'] for k in self.local_identity()}
        return self._bypath.get(path)
    # -- functions -----------------------------------------------------------
    def local_identity(self):
        """keys of local functions with identity generic arguments (one per source function)"""
        out = []
        for k, f in self.fns.items():
            if f['local'] and not f.get('isconst') and f.get('name') and '#shim' not in k and '{closure' not in k:
                g = ', '.join(f.get('gens', []))
                if k == f"{f['path']}<{g}>": out.append(k)
        return out
    def callees(self, key):
        f = self.fns[key]; out = []
        if '_callees' in f: return f['_callees']
        def ty_keys(t):
            x = self.types[t]
            if x['k'] == 'closure': return [x['key']]
            if x['k'] == 'fndef': return [x['callee'].get('key')]
            return []
        for b in f['blocks']:
            if b['c']: continue
            t = b['t']
            if t[0] == 'call' and 'fn' in t[1]:
                k = t[1]['fn'].get('key')
                if k: out.append(k)
            for s in b['s']:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1]['k'] == 'closure':
                    out.append(self.types[s[2][1]['t']]['key'])
            for op in self._ops(b):
                if 'const' in op and self.types[op['const']['t']]['k'] == 'fndef':
                    k = self.types[op['const']['t']]['callee'].get('key')
                    if k: out.append(k)
        f['_callees'] = [k for k in dict.fromkeys(out) if k in self.fns]
        return f['_callees']
    def _ops(self, b):
        for s in b['s']:
            if s[0] != '=': continue
            r = s[2]
            if r[0] == 'use': yield r[1]
            elif r[0] == 'cast': yield r[2]
            elif r[0] == 'agg':
                for o in r[2]: yield o
        t = b['t']
        if t[0] == 'call':
            for o in t[2]: yield o
    def sccs(self):
        """fn key -> (scc id, recursive?)"""
        if self._scc is not None: return self._scc
        index = {}; low = {}; st = []; on = set(); res = {}; cnt = [0]
        for root in self.fns:
            if root in index: continue
            work = [(root, iter(self.callees(root)))]
            index[root] = low[root] = cnt[0]; cnt[0] += 1; st.append(root); on.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in index:
                        index[w] = low[w] = cnt[0]; cnt[0] += 1; st.append(w); on.add(w)
                        work.append((w, iter(self.callees(w)))); adv = True; break
                    elif w in on: low[v] = min(low[v], index[w])
                if adv: continue
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    comp = []
                    while True:
                        w = st.pop(); on.discard(w); comp.append(w)
                        if w == v: break
                    rec = len(comp) > 1 or v in self.callees(v)
                    for w in comp: res[w] = (index[v], rec)
        self._scc = res
        return res
    def succs(self, f, i):
        t = f['blocks'][i]['t']; k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'switch': return [b for _, b in t[2]] + [t[3]]
        if k == 'drop': return [t[2]]
        if k == 'call': return [t[4]] if t[4] is not None else []
        if k == 'assert': return [t[4]]
        return []
    def rpo(self, f):
        if f['_order'] is not None: return f['_order']
        seen = set(); post = []; st = [(0, iter(self.succs(f, 0)))]; seen.add(0)
        while st:
            v, it = st[-1]
            for w in it:
                if w not in seen:
                    seen.add(w); st.append((w, iter(self.succs(f, w)))); break
            else:
                st.pop(); post.append(v)
        post.reverse()
        f['_order'] = {b: i for i, b in enumerate(post)}
        return f['_order']
