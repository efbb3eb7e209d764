"""Whole-crate rules over the type-checked program (types, impls, MIR, call graph)."""
import re
from mir import Mir, UNIQ, RC

def res(n, viol, und=(), **info):
    return dict(obligations=n, discharged=n - len(viol) - len(und), viol=viol, und=list(und), info=info)
def at(f, b): 
    t = f['blocks'][b]['t']
    sp = next((x for x in reversed(t) if isinstance(x, str) and '/' in x and ':' in x), None) or next((s[-1] for s in f['blocks'][b]['s'] if isinstance(s[-1], str) and ':' in s[-1]), None)
    return sp or f['span']
def V(what, f, loc, why): return (what, dict(expected=why, got=f['disp'], instance=f"{f['disp']} at {loc}", trace=()))

def bodies(F):
    """one instantiation per source function or closure (the generic one where there is one)"""
    by = {}
    for k, f in F.fns.items():
        if not f['local'] or '#shim' in k or not f.get('blocks') or f.get('isconst'): continue
        if 'disp' not in f: f['disp'] = f['path'].replace('lazy_clone_collections::', '')
        by.setdefault(f['path'], []).append(k)
    return [min(ks, key=lambda k: (0 if k == f"{F.fns[k]['path']}<{', '.join(F.fns[k].get('gens', []))}>" else 1, len(k))) for ks in by.values()]
def calls(F, k):
    for i, b in enumerate(F.fns[k]['blocks']):
        if not b['c'] and b['t'][0] == 'call' and 'fn' in b['t'][1]: yield i, b['t'], b['t'][1]['fn']
def is_rc(F, t): return F.adt(t) is not None and F.adt(t).startswith(RC)
def rc_node(F, t):
    """does the type hold, by value, a shared pointer to one of the crate's own types"""
    seen = set(); st = [t]
    while st:
        t = st.pop()
        if t in seen: continue
        seen.add(t); x = F.types[t]
        if is_rc(F, t):
            a = F.types[x['args'][0]]
            if a.get('local'): return True
            continue
        if x['k'] in ('tuple',): st += x.get('ts', x.get('args', []))
        elif x['k'] in ('struct', 'enum'):
            st += [a for a in x['args'] if isinstance(a, int)]
            if x.get('local'): st += [fl['t'] for v in x['v'] for fl in v['f']]
    return False
COLL = ('avl::AvlMap', 'avl::avl_set::AvlSet', 'btree::BTreeMap', 'btree::btree_set::BTreeSet', 'stack::Stack', 'btree::fixed::BTreeMap')

# ------------------------------------------------------------------ C13: sharing
class Sharing:
    def __init__(self, F):
        self.F = F; self.M = Mir(F); self.B = bodies(F); self.n = 0
        self.bypath = {F.fns[k]['path']: k for k in self.B}
        self.callers = {}
        for k in self.B:
            for i, t, c in calls(F, k):
                for p in {c.get('path'), c.get('rpath')}:
                    if p in self.bypath: self.callers.setdefault(p, []).append((k, i, t))
            for l, x in enumerate(self._fnrefs(k)): self.callers.setdefault(x[0], []).append((k, x[1], None))
        self.variants = {}; self.errs = []
        for k in self.B:
            for i, b in enumerate(F.fns[k]['blocks']):
                if b['c']: continue
                for op in F._ops(b):
                    if 'const' in op and F.types[op['const']['t']]['k'] == 'fndef':
                        c = F.types[op['const']['t']]['callee']
                        if str(c.get('disp')).endswith('Result::Err') or str(c.get('path')).startswith('core::result::Result::Err'):
                            self.errs.append((k, i, F.tstr([a for a in c['args'] if isinstance(a, int)][-1])))
                for s in b['s']:
                    if s[0] == '=' and s[2][0] == 'agg' and s[2][1]['k'] == 'adt':
                        if F.adt(s[2][1]['t']) == 'core::result::Result' and s[2][1]['v'] == 1 and is_rc(F, F.types[s[2][1]['t']]['args'][1]): self.errs.append((k, i, F.tstr(F.types[s[2][1]['t']]['args'][1])))
                        self.variants.setdefault((F.adt(s[2][1]['t']), s[2][1]['v']), []).append((k, i))
        self.memo = {}
    def _fnrefs(self, k):
        """functions mentioned as values (passed to combinators): (path, block)"""
        F = self.F; out = []
        for i, b in enumerate(F.fns[k]['blocks']):
            if b['c']: continue
            for op in F._ops(b):
                if 'const' in op and F.types[op['const']['t']]['k'] == 'fndef':
                    c = F.types[op['const']['t']]['callee']
                    for p in {c.get('path'), c.get('rpath')}:
                        if p in self.bypath: out.append((p, i))
        return out
    # a block is guarded when it runs only after a test found a pointer shared
    def guarded(self, k, blk, depth=0):
        m = ('g', k, blk)
        if m in self.memo: return self.memo[m]
        self.memo[m] = True      # greatest fixpoint: an arm reached only from itself is never reached
        r = self._guarded(k, blk, depth)
        self.memo[m] = r
        return r
    def _guarded(self, k, blk, depth):
        F = self.F; f = F.fns[k]
        for sw, vs, tgt in self.M.edges_dominating(k, blk):
            pl = self.M.switch_place(k, sw)
            if not pl: continue
            cs = []; self.M.roots(k, pl[0], calls=cs)
            for t, i in cs:
                c = t[1].get('fn') or {}
                if c.get('name') == 'try_unwrap' or self._result_of_rc(t): 
                    if '0' not in vs: return True
                elif c.get('name') in ('get_mut', 'into_inner') and any(x in str(c.get('path')) for x in ('rc::', 'arc::')):
                    if '1' not in vs: return True
                elif c.get('name') in ('strong_count', 'is_unique'): return True
            # the arm of a variant that is only ever built for shared nodes
            ty = self._place_ty(k, pl)
            if ty is not None and F.adt(ty) == 'core::result::Result' and '0' not in vs and len(F.types[ty]['args']) > 1 and is_rc(F, F.types[ty]['args'][1]):
                if all(self.guarded(k2, i2, depth + 1) for k2, i2, a in self.errs if a == F.tstr(F.types[ty]['args'][1])): return True
            if ty is not None and F.types[ty].get('local') and F.types[ty]['k'] == 'enum' and len(vs) == 1 and vs[0] is not None and depth < 3:
                v = int(vs[0]); sites = self.variants.get((F.adt(ty), v), [])
                if sites and all(self.guarded(k2, i2, depth + 1) for k2, i2 in sites): return True
        if '{closure' in k:
            for pk, pi, st in self.M.creators.get(k, []):
                if self.guarded(pk, pi, depth): return True
                if self._closure_of_test(pk, st[1][0]): return True
        path = f['path']
        cl = self.callers.get(path, [])
        if cl and not f.get('exported') and not f.get('impl_trait') and depth < 3 and all(t is not None and self.guarded(k2, i2, depth + 1) for k2, i2, t in cl): return True
        if cl and depth < 3 and all(t is None for _, _, t in cl) and not f.get('exported'):
            return all(self._fnref_of_test(k2, i2, path) for k2, i2, t in cl)
        return False
    def _result_of_rc(self, t):
        """a call of a local helper that returns Result<_, Arc<_>>: a wrapped uniqueness test"""
        F = self.F; l = t[3]; c = t[1].get('fn') or {}
        if not c.get('local'): return False
        kk = c.get('key'); f = F.fns.get(kk)
        if not f: return False
        rt = f['locals'][0][0]; x = F.types[rt]
        return F.adt(rt) == 'core::result::Result' and len(x['args']) > 1 and is_rc(F, x['args'][1])
    def _place_ty(self, k, pl):
        ty = self.F.fns[k]['locals'][pl[0]][0]
        for p in pl[1]:
            if p == '*':
                x = self.F.types[ty]; ty = x.get('t', x['args'][0] if x.get('args') else None)
            elif p[0] == 'f': ty = p[2]
        return ty
    def _closure_of_test(self, pk, l):
        """the closure in local l is given to a combinator on the result of a uniqueness test (runs on its failure)"""
        F = self.F
        for i, t, c in calls(F, pk):
            args = [self.M.operand_local(a) for a in t[2]]
            hit = [a for a in args if a is not None and (a == l or self._moved(pk, a, l))]
            if not hit: continue
            if c.get('name') not in ('unwrap_or_else', 'map_err', 'or_else', 'map_or_else'): continue
            for a in args:
                if a is None or a in hit: continue
                cs = []; self.M.roots(pk, a, calls=cs)
                if any((x[1].get('fn') or {}).get('name') == 'try_unwrap' or self._result_of_rc(x) for x, _ in cs): return True
        return False
    def _moved(self, k, a, l):
        seen = set(); st = [a]
        while st:
            x = st.pop()
            if x == l: return True
            if x in seen: continue
            seen.add(x)
            for kd, p, i in self.M.defs(k).get(x, ()):
                if kd == 'st' and p[0] == 'use': st += self.M.rv_ops(p)
        return False
    def _fnref_of_test(self, k, i, path):
        t = self.F.fns[k]['blocks'][i]['t']
        if t[0] != 'call' or (t[1].get('fn') or {}).get('name') not in ('unwrap_or_else', 'map_err', 'or_else'): return False
        for a in t[2]:
            x = self.M.operand_local(a)
            if x is None: continue
            cs = []; self.M.roots(k, x, calls=cs)
            if any((c[1].get('fn') or {}).get('name') == 'try_unwrap' for c, _ in cs): return True
        return False
    # may the value in a local (at a block) be cloned: is it out of the function's sole reach
    def excused(self, k, local, blk, depth=0):
        if self.guarded(k, blk): return True
        F = self.F; f = F.fns[k]
        if depth > 6: return True
        for p in self.M.roots(k, local):
            ty = f['locals'][p][0]; x = F.types[ty]
            if x['k'] in ('int', 'uint', 'bool'): continue
            if x['k'] == 'param' and any(f'TraitClause(<{x["n"]} as std::iter::' in q for q in f.get('preds', [])): continue   # items the caller passes in
            if '{closure' in k:
                cr = self.M.creators.get(k, [])
                if p == 1:      # captured values: those of the creating function
                    for pk, pi, st in cr:
                        for op in st[2][2]:
                            l = self.M.operand_local(op)
                            if l is not None and not self.excused(pk, l, pi, depth + 1): return False
                elif x['k'] != 'ref' or x['m']:
                    # an argument: whatever the combinator's receiver yields
                    for pk, pi, st in cr:
                        if not self._arg_excused(pk, pi, st[1][0], depth): return False
                continue
            api = f.get('exported') or f.get('impl_trait') or not self.callers.get(f['path'])
            if x['k'] == 'ref' and not x['m'] and api: continue
            if api: return False
            for k2, i2, t in self.callers.get(f['path'], []):
                if t is None: continue
                l = self.M.operand_local(t[2][p - 1]) if p - 1 < len(t[2]) else None
                if l is not None and not self.excused(k2, l, i2, depth + 1): return False
        return True
    def _arg_excused(self, pk, pi, l, depth):
        for i, t, c in calls(self.F, pk):
            args = [self.M.operand_local(a) for a in t[2]]
            if not any(a is not None and (a == l or self._moved(pk, a, l)) for a in args): continue
            for a in args:
                if a is None or a == l or self._moved(pk, a, l): continue
                if not self.excused(pk, a, i, depth + 1): return False
        return True

CLONES = {'clone', 'cloned', 'to_owned', 'to_vec', 'extend_from_slice', 'clone_from', 'clone_from_slice'}
def clone_sites(F, k):
    for i, t, c in calls(F, k):
        nm = c.get('name'); tr = str(c.get('trait') or '')
        if nm not in CLONES: continue
        if c.get('local') and not tr: continue
        a = [x for x in c.get('args', []) if isinstance(x, int)]
        if not a: continue
        ty = a[-1] if nm == 'cloned' and len(a) > 1 else a[0]
        if heavy(F, ty): yield i, t, c, ty
def heavy(F, t, seen=None):
    """does a value of the type hold, by value, an entry (a type parameter) or a shared node"""
    seen = set() if seen is None else seen
    if t in seen: return False
    seen.add(t); x = F.types[t]
    if x['k'] in ('param', 'alias'): return True
    if x['k'] == 'tuple': return any(heavy(F, y, seen) for y in x['ts'])
    if x['k'] in ('array', 'slice'): return heavy(F, x['t'], seen)
    if x['k'] in ('struct', 'enum'):
        if x['d'].endswith('PhantomData') or x['d'] == 'core::ops::range::Bound': return False
        if is_rc(F, t): return True
        return any(heavy(F, a, seen) for a in x['args'] if isinstance(a, int))
    return False
def ret_holds(F, k, depth=0):
    return heavy(F, F.fns[k]['locals'][0][0])
def is_clone_impl(F, f): return f.get('impl_trait') == 'core::clone::Clone' or '<' in f['disp'] and ' as std::clone::Clone>' in f['disp']
def entry_api(F, f):
    """functions of the Entry handle, which owns a copy of its key by design"""
    def mentions(t, d=0):
        x = F.types[t]
        if (x.get('d') or '').endswith('::Entry') and x.get('local'): return True
        return d < 4 and any(mentions(a, d + 1) for a in list(x.get('args', [])) + [x.get('t')] if isinstance(a, int))
    return any(mentions(f['locals'][i][0]) for i in range(0, f['argc'] + 1) if i < len(f['locals']))

def only_from(F, S, k, names):
    """every exported way to reach the function goes through the named public operations"""
    seen = set(); st = [F.fns[k]['path']]; tops = set()
    while st:
        p = st.pop()
        if p in seen: continue
        seen.add(p); kk = S.bypath.get(p)
        if kk and F.fns[kk].get('exported') or kk and F.fns[kk].get('impl_trait'): tops.add(F.fns[kk]['disp']); continue
        st += [F.fns[c[0]]['path'] for c in S.callers.get(p, [])]
    return bool(tops) and tops <= names
REBUILD = {'avl::AvlMap::<K, V>::retain'}
def sharing(F):
    S = Sharing(F); viol = []; n = 0; sites = []
    reach = {}
    for k in S.B:
        f = F.fns[k]
        if is_clone_impl(F, f): continue
        top = re.sub(r'::\{closure#\d+\}.*', '', f['path']); tk = S.bypath.get(top, k)
        if entry_api(F, F.fns[tk]) or only_from(F, S, tk, REBUILD): continue
        for i, t, c, ty in clone_sites(F, k):
            n += 1
            l = S.M.operand_local(t[2][0]) if t[2] else None
            ok = l is None or S.excused(k, l, i)
            sites.append(f"{f['disp']} at {at(f, i)}: {F.tstr(ty)}{'' if ok else ' NOT SHARED'}")
            if not ok: viol.append(V(f"clone of {F.tstr(ty)} in {f['disp']}", f, at(f, i), 'entries and nodes that an update owns alone are moved, not cloned'))
    return res(n, viol, sites=sites)

def cheap_clone(F):
    """the Clone impls of the collections copy a root pointer and a length"""
    viol = []; n = 0; und = []
    for im in F.impls:
        if im['trait'] != 'core::clone::Clone' or not any(im['self'].startswith(c + '<') for c in COLL): continue
        st = [k for k in F.fns if F.fns[k]['local'] and F.fns[k].get('name') == 'clone' and F.fns[k]['disp'].startswith(im['ref'] + '::clone') and '{closure' not in k]
        st = st[:1]; seen = set()
        if not st: und.append(('anchor', im['ref'])); continue
        while st:
            k = st.pop()
            if k in seen: continue
            seen.add(k); f = F.fns[k]; n += 1
            if looping(F, f): viol.append(V(f"loop in {f['disp']}", f, f['span'], 'cloning a collection takes constant time'))
            for i, t, c in calls(F, k):
                a = [x for x in c.get('args', []) if isinstance(x, int)]
                if c.get('trait') == 'core::clone::Clone' or c.get('name') in CLONES:
                    s = F.types[a[0]] if a else None
                    if s is None: continue
                    if s['k'] in ('param', 'alias', 'tuple') or s.get('local') and s['k'] in ('struct', 'enum') and not any(s['s'].startswith(x + '<') for x in COLL) or (s.get('d') or '').endswith(('::Vec', '::VecDeque')):
                        viol.append(V(f"{f['disp']} clones {s['s']}", f, at(f, i), 'cloning a collection shares its storage'))
                        continue
                    if is_rc(F, a[0]) or F.is_option(a[0]): continue
                if c.get('name') == 'new' and c.get('path', '').startswith(('alloc::',)): viol.append(V(f"{f['disp']} allocates", f, at(f, i), 'cloning a collection allocates nothing'))
                kk = c.get('key')
                if kk in F.fns and F.fns[kk]['local']: st.append(kk)
    return res(n, viol, und)
def looping(F, f):
    order = F.rpo(f)
    return any(order.get(w, 1 << 30) <= order[b] for b in order for w in F.succs(f, b))

def pure_reads(F):
    """lookups and borrowed iteration never copy an entry or a node"""
    S = Sharing(F); viol = []; n = 0
    for k in S.B:
        f = F.fns[k]
        if '{closure' in k or not f.get('exported') and not (f.get('impl_trait') or '').startswith('core::iter') : continue
        if is_clone_impl(F, f) or entry_api(F, f): continue
        ps = [F.types[f['locals'][i][0]] for i in range(1, f['argc'] + 1)]
        if not ps: continue
        it = (f.get('impl_trait') or '').startswith('core::iter') and f.get('name') in ('next', 'next_back')
        if not it and not (ps[0]['k'] == 'ref' and not ps[0]['m']): continue
        if it and not borrowed_iter(F, f): continue
        if ret_holds(F, k) or f.get('name') in ('check', 'chk', 'fmt', 'serialize', 'to_owned'): continue
        if not any(c in str(f.get('self_ty', f['disp'])) for c in ('avl::', 'btree::', 'stack::')): continue
        n += 1; st = [k]; seen = set()
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            fx = F.fns[x]
            if fx['local']:
                for i, t, c, ty in clone_sites(F, x): viol.append(V(f"{f['disp']} copies {F.tstr(ty)}", fx, at(fx, i), 'a lookup copies nothing'))
                for i, t, c in calls(F, x):
                    if c.get('name') in ('make_mut', 'unwrap_or_clone'): viol.append(V(f"{f['disp']} may copy a node", fx, at(fx, i), 'a lookup copies nothing'))
            st += [y for y in F.callees(x) if F.fns[y]['local']]
    return res(n, viol)
def borrowed_iter(F, f):
    s = str(f.get('self_ty') or f['disp'])
    rt = F.types[f['locals'][0][0]]
    a = F.types[rt['args'][0]] if rt.get('args') else None
    if a is None: return False
    if a['k'] == 'ref' and not a['m']: return True
    return a['k'] == 'tuple' and all(F.types[t]['k'] == 'ref' and not F.types[t]['m'] for t in a['ts'])

# ------------------------------------------------------------------ C12: independence of clones
CELLS = ('core::cell::', 'core::sync::atomic::', 'std::sync::mutex', 'std::sync::rwlock', 'std::sync::once', 'std::sync::poison', 'std::sync::nonpoison', 'std::sync::lazy', 'std::sync::reentrant')
WRITES = {'copy': 1, 'copy_nonoverlapping': 1, 'write': 0, 'write_bytes': 0, 'write_unaligned': 0, 'write_volatile': 0, 'swap': 0, 'replace': 0, 'drop_in_place': 0, 'from_raw_parts_mut': 0, 'slice_from_raw_parts_mut': 0, 'as_mut': 0, 'copy_from': 0, 'copy_from_nonoverlapping': 0, 'as_uninit_mut': 0}
MOVES = {'read': 0, 'assume_init_read': 0, 'read_unaligned': 0, 'read_volatile': 0}
FORBID = {'get_mut_unchecked', 'from_raw', 'from_raw_in', 'increment_strong_count', 'decrement_strong_count', 'transmute', 'transmute_copy', 'transmute_unchecked', 'as_mut_ptr_unchecked'}
def is_ptr(F, t): return F.types[t]['k'] == 'ptr'
def unshared_memory(F):
    S = Sharing(F); viol = []; n = 0; sites = []
    # 1. nothing reachable through a shared pointer can change behind it
    seen = set()
    def cells(t, path):
        if t in seen: return
        seen.add(t); x = F.types[t]
        if x['k'] in ('struct', 'enum', 'union'):
            if x['d'].startswith(CELLS): viol.append((f'interior mutability in {path}', dict(expected='nodes shared between clones hold no interior mutability', got=x['s'], instance=path, trace=()))); return
            for v in x.get('v', []):
                for fl in v['f']: cells(fl['t'], f"{path}.{fl['n']}")
            for a in x['args']:
                if isinstance(a, int): cells(a, path)
        elif x['k'] == 'tuple':
            for y in x['ts']: cells(y, path)
        elif x['k'] in ('array', 'slice', 'ptr'): cells(x['t'], path)
    for t, x in enumerate(F.types):
        if x['k'] == 'struct' and is_rc(F, t):
            a = F.types[x['args'][0]]
            if a.get('local'): n += 1; cells(x['args'][0], a['s'])
    for it in F.items:
        if it['kind'] in ('Static', 'static'): n += 1; viol.append((f"static {it['path']}", dict(expected='collections share no global state', got=it['path'], instance=it.get('span'), trace=())))
    # 2. raw pointers
    for k in S.B:
        f = F.fns[k]
        for i, b in enumerate(f['blocks']):
            if b['c']: continue
            for s in b['s']:
                if s[0] != '=': continue
                for pl, w in [(s[1], 'assignment')] + ([(s[2][2], 'mutable borrow')] if s[2][0] == 'ref' and s[2][1] or s[2][0] == 'raw' and 'Mut' in s[2][1] else []):
                    if pl[1] and pl[1][0] == '*' and is_ptr(F, f['locals'][pl[0]][0]):
                        n += 1; why = origin(F, S, k, pl[0])
                        sites.append(f"{f['disp']} at {s[-1]}: {w} through a raw pointer{': ' + why if why else ''}")
                        if why: viol.append(V(f"{w} through a raw pointer in {f['disp']}", f, s[-1], f'memory shared with a clone is not written ({why})'))
            t = b['t']; c = t[1].get('fn') if t[0] == 'call' else None
            if not c: continue
            nm = c.get('name')
            if nm in FORBID and not c.get('local') and str(c.get('path')).startswith(('alloc::', 'core::', 'std::')) and not str(c.get('trait') or ''):
                n += 1
                if not S.guarded(k, i): viol.append(V(f"{nm} in {f['disp']}", f, at(f, i), 'no unchecked access to memory that a clone may share'))
            for table, msg in ((WRITES, 'write'), (MOVES, 'move out')):
                if nm not in table or c.get('local') or table[nm] >= len(t[2]): continue
                l = S.M.operand_local(t[2][table[nm]])
                if l is None: continue
                ty = f['locals'][l][0]
                if table is WRITES and not is_ptr(F, ty): continue
                if table is MOVES and not (is_ptr(F, ty) or nm == 'assume_init_read'): continue
                n += 1; why = origin(F, S, k, l) if table is WRITES else shared_deref(F, S, k, l, i)
                sites.append(f"{f['disp']} at {at(f, i)}: {nm}{': ' + why if why else ''}")
                if why: viol.append(V(f"{nm} in {f['disp']}", f, at(f, i), f'memory shared with a clone is not changed ({why})'))
    return res(n, viol, sites=sites)
def origin(F, S, k, l):
    """why a raw pointer must not be written through (None if it comes from a mutable borrow)"""
    f = F.fns[k]; seen = set(); st = [l]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        for kd, p, i in S.M.defs(k).get(x, ()):
            if kd == 'st':
                if p[0] == 'raw':
                    if 'Mut' not in p[1]:
                        # &raw const of a place behind a raw pointer keeps that pointer's origin
                        if p[2][1] and p[2][1][0] == '*' and is_ptr(F, f['locals'][p[2][0]][0]): st.append(p[2][0])
                        else: return 'the pointer comes from a shared borrow'
                    continue
                if p[0] == 'ref':
                    if not p[1] : return 'the pointer comes from a shared borrow'
                    continue
                if p[0] in ('use', 'cast'):
                    for y in S.M.rv_ops(p):
                        ty = F.types[f['locals'][y][0]]
                        if ty['k'] == 'ref' and not ty['m']: return 'the pointer comes from a shared borrow'
                        if ty['k'] == 'ptr' or ty['k'] == 'ref': st.append(y)
                        elif ty['k'] == 'struct' and p[0] == 'use': st.append(y)
                continue
            c = p[1].get('fn') or {}
            if c.get('name') in ('as_ptr',):
                a = S.M.operand_local(p[2][0]); ty = F.types[f['locals'][a][0]] if a is not None else None
                if ty and ty['k'] == 'ref' and not ty['m']: return 'the pointer comes from as_ptr of a shared borrow'
            if c.get('name') in ('add', 'sub', 'offset', 'cast', 'cast_mut', 'wrapping_add', 'wrapping_sub', 'byte_add', 'as_ptr', 'from_ref', 'cast_const'):
                a = S.M.operand_local(p[2][0]) if p[2] else None
                if a is not None:
                    ty = F.types[f['locals'][a][0]]
                    if ty['k'] == 'ref' and not ty['m']: return 'the pointer comes from a shared borrow'
                    st.append(a)
    return None
def shared_deref(F, S, k, l, blk):
    """is a value moved bitwise out of memory reached through a shared pointer"""
    cs = []; S.M.roots(k, l, calls=cs)
    for t, i in cs:
        c = t[1].get('fn') or {}
        if c.get('name') == 'deref' and any(x in str(c.get('rdisp') or '') for x in ('rc::Rc<', 'sync::Arc<')): return 'the value is moved out of a shared node'
    return None
