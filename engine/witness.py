"""Type-level witnesses: programs that use the crate's public types and must (or must not) pass the
type and borrow checker.  Nothing is run: rustc's verdict on each small function is the decision.
Three batches are compiled against the current source: functions that must be accepted, functions
that the type checker must reject, and functions that the borrow checker must reject."""
import json, os, re, subprocess, tempfile, shutil
REPO = os.environ.get('VERIF_REPO', '/repo')

class W: 
    def __init__(self): self.ok = []; self.ty = []; self.bk = []
    def yes(self, name, src): self.ok.append((name, src, None))
    def noty(self, name, src, codes): self.ty.append((name, src, codes))
    def nobk(self, name, src, codes): self.bk.append((name, src, codes))

MAPS = {'AvlMap': 'l::AvlMap<{K}, {V}>', 'BTreeMap': 'l::btree::BTreeMap<{K}, {V}, 5>', 'fixed::BTreeMap': 'l::btree::fixed::BTreeMap<{K}, {V}>'}
SETS = {'AvlSet': 'l::AvlSet<{K}>', 'BTreeSet': 'l::btree::btree_set::BTreeSet<{K}, 5>'}
STK = {'Stack': 'l::Stack<{K}>'}
def T(t, K, V): return t.replace('{K}', K).replace('{V}', V)
# borrowing accesses: (expression on m, kind)
MAPB = [('get', 'm.get(&1)', 's'), ('get_mut', 'm.get_mut(&1)', 'm'), ('iter', 'm.iter()', 's'), ('iter_mut', 'm.iter_mut()', 'm'),
        ('get_key_value', 'm.get_key_value(&1)', 's'), ('first_key_value', 'm.first_key_value()', 's'), ('last_key_value', 'm.last_key_value()', 's'),
        ('keys', 'm.keys()', 's'), ('values', 'm.values()', 's'), ('values_mut', 'm.values_mut()', 'm'), ('range', 'm.range(0..4)', 's'), ('range_mut', 'm.range_mut(0..4)', 'm'),
        ('entry', 'm.entry(1)', 'm'), ('first_entry', 'm.first_entry()', 'm'), ('last_entry', 'm.last_entry()', 'm'), ('entry value', 'm.entry(1).or_insert(2)', 'm'),
        ('entry default', 'm.entry(1).or_default()', 'm'), ('entry with', 'm.entry(1).or_insert_with(|| 2)', 'm'), ('entry with key', 'm.entry(1).or_insert_with_key(|k| *k)', 'm'),
        ('next', 'm.iter().next()', 's'), ('next_mut', 'm.iter_mut().next()', 'm'), ('range item', 'm.range(0..4).next()', 's'), ('range_mut item', 'm.range_mut(0..4).next()', 'm'),
        ('into_iter of a reference', '(&m).into_iter()', 's'), ('into_iter of a mutable reference', '(&mut m).into_iter()', 'm')]
FIXB = MAPB[:4] + [b for b in MAPB if b[0] in ('next', 'next_mut')]
SETB = [('get', 'm.get(&1)', 's'), ('first', 'm.first()', 's'), ('last', 'm.last()', 's'), ('iter', 'm.iter()', 's'), ('range', 'm.range(0..4)', 's'), ('next', 'm.iter().next()', 's'),
        ('difference', 'm.difference(&n)', 's'), ('intersection', 'm.intersection(&n)', 's'), ('symmetric_difference', 'm.symmetric_difference(&n)', 's'), ('union', 'm.union(&n)', 's'),
        ('difference from', 'n.difference(&m)', 's'), ('intersection with', 'n.intersection(&m)', 's'), ('symmetric_difference with', 'n.symmetric_difference(&m)', 's'), ('union with', 'n.union(&m)', 's'),
        ('union item', 'n.union(&m).next()', 's'), ('into_iter of a reference', '(&m).into_iter()', 's')]
STKB = [('iter', 'm.iter()', 's'), ('iter_mut', 'm.iter_mut()', 'm'), ('top', 'm.top()', 's'), ('top_mut', 'm.top_mut()', 'm'), ('next', 'm.iter().next()', 's'), ('next_mut', 'm.iter_mut().next()', 'm'),
        ]
MAPM = [('insert', 'm.insert(3, 4);'), ('remove', 'm.remove(&1);'), ('clear', 'm.clear();'), ('pop_first', 'm.pop_first();'), ('pop_last', 'm.pop_last();'), ('append', 'm.append(&mut n);'),
        ('split_off', 'm.split_off(&1);'), ('retain', 'm.retain(|_, _| true);'), ('get_mut', 'm.get_mut(&1);'), ('iter_mut', 'm.iter_mut();'), ('values_mut', 'm.values_mut();'), ('range_mut', 'm.range_mut(0..4);'), ('entry', 'm.entry(1);'), ('extend', 'm.extend(vec![(1, 2)]);')]
AVLM = [('remove_entry', 'm.remove_entry(&1);'), ('for_each_mut', 'm.for_each_mut(|_| ());')]
FIXM = [x for x in MAPM if x[0] in ('insert', 'remove', 'clear', 'get_mut', 'iter_mut', 'extend')]
SETM = [('insert', 'm.insert(3);'), ('replace', 'm.replace(3);'), ('remove', 'm.remove(&1);'), ('take', 'm.take(&1);'), ('clear', 'm.clear();'), ('pop_first', 'm.pop_first();'), ('pop_last', 'm.pop_last();'), ('append', 'm.append(&mut n);'),
        ('split_off', 'm.split_off(&1);'), ('retain', 'm.retain(|_| true);'), ('extend', 'm.extend(vec![1u8]);')]
STKM = [('push', 'm.push(3);'), ('pop', 'm.pop();'), ('top_mut', 'm.top_mut();'), ('clear', 'm.clear();'), ('remove', 'm.remove(0);'), ('split_off', 'm.split_off(0);'), ('iter_mut', 'm.iter_mut();'), ('extend', 'm.extend(vec![1u8]);')]
NEW = {'m': 'let mut m = {t}::new();', 'n': 'let mut n = {t}::new();'}
def generate():
    w = W()
    tbl = [(n, t, FIXB if 'fixed' in n else MAPB, FIXM if 'fixed' in n else MAPM + (AVLM if n == 'AvlMap' else []), 'map') for n, t in MAPS.items()]
    tbl += [(n, t, SETB, SETM, 'set') for n, t in SETS.items()] + [(n, t, STKB, STKM, 'stack') for n, t in STK.items()]
    for n, t, bs, ms, kind in tbl:
        ty = T(t, 'u8', 'u8')
        def mk(t): return 'let mut m = <%s>::new(); let mut n = <%s>::new(); let _ = (&mut m, &mut n);' % (t, t)
        ins = {'map': 'm.insert(1, 2);', 'set': 'm.insert(1);', 'stack': 'm.push(1);'}[kind]
        for bn, b, bk in bs:
            # a borrow that is alive excludes modification, moving and dropping
            use = f'let b = {b};' if True else ''
            w.yes(f'{n}: {bn} then modify', f'{mk(ty)} let b = {b}; drop(b); {ins}')
            w.nobk(f'{n}: modification while the result of {bn} is alive', f'{mk(ty)} let b = {b}; {ins} keep(b);', ('E0502', 'E0499'))
            w.nobk(f'{n}: move while the result of {bn} is alive', f'{mk(ty)} let b = {b}; let p = m; keep(b); keep(p);', ('E0505',))
            w.nobk(f'{n}: result of {bn} outlives the collection', f'let mut n = <{ty}>::new(); let _ = &mut n; let b; {{ let mut m = <{ty}>::new(); let _ = &mut m; b = {b}; }} keep(b);', ('E0597',))
            if bk == 'm':
                w.nobk(f'{n}: {bn} twice at a time', f'{mk(ty)} let b = {b}; let c = {b}; keep(b); keep(c);', ('E0499',))
                w.nobk(f'{n}: {bn} beside a shared borrow', f'{mk(ty)} let c = m.{"iter" if kind != "stack" else "top"}(); let b = {b}; keep(b); keep(c);', ('E0502',))
                w.nobk(f'{n}: {bn} through a shared reference', f'let x = <{ty}>::new(); let m = &x; let b = {b}; keep(b);', ('E0596',)) if '&mut m' not in b else None
        for mn, m in ms:
            w.nobk(f'{n}: {mn} through a shared reference', f'let x = <{ty}>::new(); let mut n = <{ty}>::new(); let _ = &mut n; let m = &x; {m}', ('E0596',))
            w.nobk(f'{n}: {mn} while iterating', f'{mk(ty)} let b = m.iter(); {m} keep(b);', ('E0502', 'E0499'))
        # sending and sharing between threads
        gk = 'K: Send + Sync' + (', V: Send + Sync' if kind == 'map' else '')
        gt = T(t, 'K', 'V')
        its = [('m.iter()', '')]
        if kind == 'map':
            its += [('m.iter_mut()', 'Clone')]
            if 'fixed' not in n: its += [('m.keys()', ''), ('m.values()', ''), ('m.values_mut()', 'Clone'), ('m.range::<K, _>(..)', 'Ord'), ('m.range_mut::<K, _>(..)', 'Ord + Clone')]
        if kind == 'set': its += [('m.range::<K, _>(..)', 'Ord')]
        if kind != 'stack':
            g = 'K: Send + Sync' + (', V: Send + Sync' if kind == 'map' else '')
            w.yes(f'{n}: Send and Sync when the contents are', ('G', f'<{g}>', f'send::<{gt}>(); sync::<{gt}>();'))
            for e, bd in its:
                g = 'K: Send + Sync + Clone + Ord' + (', V: Send + Sync + Clone' if kind == 'map' else '')
                if 'range_mut' in e and n != 'BTreeMap' or e in ('m.keys()', 'm.values()', 'm.values_mut()'): continue   # opaque types: checked on concrete contents
                w.yes(f'{n}: {e} can be sent when the contents can', ('G', f'<{g}>', f'let mut m = <{gt}>::new(); let _ = &mut m; sendv(&{e});'))
            rk = T(t, 'u8', 'std::cell::Cell<u8>') if kind == 'map' else T(t, 'NotSync', '')
            rs = T(t, 'u8', 'NotSend') if kind == 'map' else T(t, 'NotSend', '')
            for what, x in (('values that are not Sync', rk), ('values that are not Send', rs)) if kind == 'map' else (('elements that are not Sync', rk), ('elements that are not Send', rs)):
                w.noty(f'{n}: sent to another thread with {what}', f'send::<{x}>();', ('E0277',))
                w.noty(f'{n}: shared with another thread with {what}', f'sync::<{x}>();', ('E0277',))
                for e, _ in its:
                    e = e.replace('::<K, _>(..)', '(0..4)') if kind == 'map' else e.replace('K', x.split('<')[1].split('>')[0].split(',')[0])
                    w.noty(f'{n}: {e} sent to another thread with {what}', f'let mut m = <{x}>::new(); let _ = &mut m; sendv(&{e});', ('E0277',))
            if kind == 'map':
                for what, k in (('keys that are not Sync', 'NotSync'), ('keys that are not Send', 'NotSend')):
                    w.noty(f'{n}: sent to another thread with {what}', f'send::<{T(t, k, "u8")}>();', ('E0277',))
                    w.noty(f'{n}: shared with another thread with {what}', f'sync::<{T(t, k, "u8")}>();', ('E0277',))
                    w.noty(f'{n}: m.iter() sent to another thread with {what}', f'let m = <{T(t, k, "u8")}>::new(); sendv(&m.iter());', ('E0277',))
                    w.noty(f'{n}: m.iter_mut() sent to another thread with {what}', f'let mut m = <{T(t, k, "u8")}>::new(); sendv(&m.iter_mut());', ('E0277',))
        else:
            for what, bd in (('sent to', 'send'), ('shared with', 'sync')):
                w.noty(f'{n}: {what} another thread', f'{bd}::<{T(t, "u8", "")}>();', ('E0277',))
        # values that borrow must outlive the collection that drops them
        D = T(t, 'u8', "D<'_>") if kind == 'map' else T(t, "D<'_>", '')
        add = {'map': "m.insert(1, D(&x));", 'set': "m.insert(D(&x));", 'stack': "m.push(D(&x));"}[kind]
        w.nobk(f'{n}: element outlived by its collection', f'let mut m = <{D}>::new(); let x = 1u8; {add}', ('E0597',))
        # covariance
        st, sh = T(t, "&'static str", "&'static str"), T(t, "&'a str", "&'a str")
        w.yes(f'{n}: covariant', ('G', "<'a>", f"fn f<'a>(m: {st}) -> {sh} {{ m }} let _ = f;"))
        w.nobk(f'{n}: not contravariant', ('G', "<'a>", f"fn f<'a>(m: {sh}) -> {st} {{ m }} let _ = f;"), ('LIFETIME',))
        w.nobk(f'{n}: mutable access is invariant', ('G', '', f"fn f<'a, 'b>(m: &'b mut {st}) -> &'b mut {sh} {{ m }} let _ = f;"), ('LIFETIME',))
        if kind != 'stack' and 'fixed' not in n or kind == 'map':
            im = ('m.iter_mut()', "impl Iterator<Item = (&'b {k}, &'b mut {v})>")
    # the exact shape of what is handed out: keys and set elements are only lent for reading
    def sig(name, g, args, ret, body): w.yes(name, ('F', g, args, ret, body))
    for n, t in MAPS.items():
        K = T(t, 'K', 'V'); fx = 'fixed' in n
        IT = "impl Iterator<Item = (&'a K, &'a V)>"; IM = "impl Iterator<Item = (&'a K, &'a mut V)>"
        sig(f'{n}: iter lends keys and values', "<'a, K, V>", f"m: &'a {K}", f"{IT} + 'a", 'm.iter()')
        sig(f'{n}: iter_mut lends keys for reading only', "<'a, K: Clone, V: Clone>", f"m: &'a mut {K}", f"{IM} + 'a", 'm.iter_mut()')
        sig(f'{n}: get_mut lends the value', "<'a, K: Clone + Ord, V: Clone>", f"m: &'a mut {K}, k: &K", "Option<&'a mut V>", 'm.get_mut(k)')
        sig(f'{n}: get lends the value', "<'a, K: Ord + Clone, V: Clone>" if fx else "<'a, K: Ord, V>", f"m: &'a {K}, k: &K", "Option<&'a V>", 'm.get(k)')
        w.yes(f'{n}: items of iter_mut are disjoint', f'let mut m = <{T(t, "u8", "u8")}>::new(); let v: Vec<_> = m.iter_mut().map(|(_, v)| v).collect(); keep(v);')
        w.noty(f'{n}: key of iter_mut used for writing', f'let mut m = <{T(t, "u8", "u8")}>::new(); for (k, _) in m.iter_mut() {{ let _: &mut u8 = k; }}', ('E0308',))
        if fx: continue
        sig(f'{n}: get_key_value lends both for reading', "<'a, K: Ord, V>", f"m: &'a {K}, k: &K", "Option<(&'a K, &'a V)>", 'm.get_key_value(k)')
        sig(f'{n}: first_key_value lends both for reading', "<'a, K, V>", f"m: &'a {K}", "Option<(&'a K, &'a V)>", 'm.first_key_value()')
        sig(f'{n}: last_key_value lends both for reading', "<'a, K, V>", f"m: &'a {K}", "Option<(&'a K, &'a V)>", 'm.last_key_value()')
        sig(f'{n}: keys lends keys', "<'a, K, V>", f"m: &'a {K}", "impl Iterator<Item = &'a K> + 'a", 'm.keys()')
        sig(f'{n}: values lends values', "<'a, K, V>", f"m: &'a {K}", "impl Iterator<Item = &'a V> + 'a", 'm.values()')
        sig(f'{n}: values_mut lends values', "<'a, K: Clone, V: Clone>", f"m: &'a mut {K}", "impl Iterator<Item = &'a mut V> + 'a", 'm.values_mut()')
        sig(f'{n}: range lends keys and values', "<'a, K: Ord, V>", f"m: &'a {K}, lo: K, hi: K", f"{IT} + 'a", 'm.range::<K, _>(lo..hi)')
        w.noty(f'{n}: key of range_mut used for writing', f'let mut m = <{T(t, "u8", "u8")}>::new(); for (k, _) in m.range_mut(0..4) {{ let _: &mut u8 = k; }}', ('E0308',))
        sig(f'{n}: range_mut lends keys for reading only', "<'a, K: Ord + Clone, V: Clone>", f"m: &'a mut {K}, f: &mut dyn FnMut(&K, &mut V)", '()', "for (k, v) in m.range_mut::<K, _>(..) { let k: &K = k; let v: &mut V = v; f(k, v) }")
        sig(f'{n}: entry lends its key for reading', "<'a, K: Ord + Clone, V: Clone>", f"m: &'a mut {K}, k: K, f: &mut dyn FnMut(&K)", '()', "f(m.entry(k).key())")
        w.noty(f'{n}: key of an entry used for writing', f'let mut m = <{T(t, "u8", "u8")}>::new(); let _: &mut u8 = m.entry(1).key();', ('E0308',))
        w.noty(f'{n}: key given to the closure of retain used for writing', f'let mut m = <{T(t, "u8", "u8")}>::new(); m.retain(|k, _| {{ let _: &mut u8 = k; true }});', ('E0308',))
        sig(f'{n}: retain lends keys for reading only', "<'a, K: Ord + Clone, V: Clone>", f"m: &'a mut {K}, f: &mut dyn FnMut(&K, &mut V) -> bool", '()', "m.retain(|k, v| f(k, v))")
        # reading asks for nothing but an order
        sig(f'{n}: reading needs neither Clone nor Debug', "<K: Ord, V>", f"m: &{K}, k: &K", '()', "keep(m.get(k)); keep(m.get_key_value(k)); keep(m.contains_key(k)); keep(m.iter().next()); keep(m.iter().next_back()); keep(m.keys().next()); keep(m.values().next()); keep(m.range::<K, _>(..).next()); keep(m.first_key_value()); keep(m.last_key_value()); keep(m.len()); keep(m.is_empty()); keep(m.clone()); for x in m { keep(x); }")
        sig(f'{n}: comparison needs only comparable contents', "<K: PartialEq, V: PartialEq>", f"m: &{K}", 'bool', 'm == m')
        sig(f'{n}: ordering needs only ordered contents', "<K: PartialOrd, V: PartialOrd>", f"m: &{K}", 'bool', 'm < m')
    for n, t in SETS.items():
        K = T(t, 'K', '')
        for op, a, r in (('iter()', '', "impl Iterator<Item = &'a K> + 'a"), ('first()', '', "Option<&'a K>"), ('last()', '', "Option<&'a K>"), ('get(k)', ', k: &K', "Option<&'a K>"),
                         ('range::<K, _>(..)', '', "impl Iterator<Item = &'a K> + 'a")):
            sig(f'{n}: {op.split("(")[0].split("::")[0]} lends elements for reading only', "<'a, K: Ord>", f"m: &'a {K}{a}", r, f'm.{op}')
        for op in ('union', 'intersection', 'difference', 'symmetric_difference'):
            sig(f'{n}: {op} lends elements for reading only', "<'a, K: Ord>", f"m: &'a {K}, o: &'a {K}", "impl Iterator<Item = &'a K> + 'a", f'm.{op}(o)')
        w.noty(f'{n}: element of iter used for writing', f'let m = <{T(t, "u8", "")}>::new(); for k in m.iter() {{ let _: &mut u8 = k; }}', ('E0308',))
        w.noty(f'{n}: element given to the closure of retain used for writing', f'let mut m = <{T(t, "u8", "")}>::new(); m.retain(|k| {{ let _: &mut u8 = k; true }});', ('E0308',))
        w.noty(f'{n}: element of get used for writing', f'let m = <{T(t, "u8", "")}>::new(); let _: Option<&mut u8> = m.get(&1);', ('E0308',))
        sig(f'{n}: reading needs neither Clone nor Debug', "<K: Ord>", f"m: &{K}, o: &{K}, k: &K", '()', "keep(m.get(k)); keep(m.contains(k)); keep(m.iter().next()); keep(m.range::<K, _>(..).next()); keep(m.first()); keep(m.last()); keep(m.len()); keep(m.is_empty()); keep(m.is_subset(o)); keep(m.is_superset(o)); keep(m.is_disjoint(o)); keep(m.union(o).next()); keep(m.intersection(o).next()); keep(m.difference(o).next()); keep(m.symmetric_difference(o).next()); keep(m.clone()); for x in m { keep(x); }")
    S = T(STK['Stack'], 'K', '')
    sig('Stack: reading needs no Clone', "<K: PartialEq>", f"m: &{S}, k: &K", '()', "keep(m.top()); keep(m.contains(k)); keep(m.iter().next()); keep(m.len()); keep(m.is_empty()); keep(m.clone()); keep(m == m);")
    sig('Stack: iter lends elements', "<'a, K>", f"m: &'a {S}", "impl Iterator<Item = &'a K> + 'a", 'm.iter()')
    sig('Stack: iter_mut lends elements', "<'a, K: Clone>", f"m: &'a mut {S}", "impl Iterator<Item = &'a mut K> + 'a", 'm.iter_mut()')
    w.yes('Stack: items of iter_mut are disjoint', 'let mut m = <l::Stack<u8>>::new(); let v: Vec<_> = m.iter_mut().collect(); keep(v);')
    return w

PRE = '''#![allow(warnings)]
extern crate lazy_clone_collections as l;
use std::iter::Iterator;
fn send<T: Send>() {} fn sync<T: Sync>() {} fn sendv<T: Send>(_: &T) {} fn keep<T>(_: T) {}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Default)] pub struct NotSync(u8, std::marker::PhantomData<std::cell::Cell<u8>>);
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Default)] pub struct NotSend(u8, std::marker::PhantomData<std::rc::Rc<u8>>);
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)] pub struct D<'a>(&'a u8);
impl<'a> Drop for D<'a> { fn drop(&mut self) {} }
'''
def program(items):
    out = PRE.splitlines(); where = {}
    for i, (name, src, _) in enumerate(items):
        if isinstance(src, str): line = f'fn w{i}() {{ {src} }}'
        elif src[0] == 'G': line = f'fn w{i}{src[1]}() {{ {src[2]} }}'
        else: line = f'fn w{i}{src[1]}({src[2]}) -> {src[3]} {{ {src[4]} }}'
        out.append(line); where[len(out)] = i
    return '\n'.join(out) + '\n', where

def rustc(args, cwd):
    return subprocess.run(['rustc', '--edition', '2021', '--error-format=json', '-Awarnings'] + args, capture_output=True, text=True, cwd=cwd)
def compile_batch(items, rlib, tmp, name):
    """error codes reported for each item"""
    src, where = program(items)
    p = os.path.join(tmp, name + '.rs'); open(p, 'w').write(src)
    r = rustc(['--crate-type', 'lib', '--emit=metadata', '--extern', 'lazy_clone_collections=' + rlib, '-o', os.path.join(tmp, name + '.rmeta'), p], tmp)
    errs = {}; other = []
    for l in r.stderr.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get('level') != 'error' or not d.get('spans'): continue
        code = (d.get('code') or {}).get('code') or ('LIFETIME' if 'lifetime' in d['message'] or 'may not live long enough' in d['message'] else '?')
        sp = [s for s in d['spans'] if s['is_primary'] and s['file_name'].endswith(name + '.rs')]
        hit = [where.get(s['line_start']) for s in sp]
        if hit and hit[0] is not None: errs.setdefault(hit[0], []).append((code, d['message']))
        else: other.append((code, d['message']))
    return errs, other, r.returncode

UNKNOWN = ('E0599', 'E0425', 'E0432', 'E0433', 'E0412')      # the thing is not there (renamed or removed): nothing can be said
def run():
    tmp = tempfile.mkdtemp(prefix='verif.w.')
    try:
        rlib = os.path.join(tmp, 'liblazy_clone_collections.rmeta')
        r = rustc(['--crate-type', 'lib', '--crate-name', 'lazy_clone_collections', '--emit=metadata', '-o', rlib, REPO + '/src/lib.rs'], tmp)
        if r.returncode: return dict(obligations=1, discharged=0, viol=[], und=[('library', 'does not compile: ' + r.stderr[-300:])], info={})
        w = generate(); viol = []; und = []; n = 0; per = {}
        for batch, items in (('accepted', w.ok), ('rejected_types', w.ty), ('rejected_borrows', w.bk)):
            items = list(items); n += len(items)
            # missing operations would hide borrow errors: leave those items out and compile again
            for rnd in range(3):
                errs, other, rc = compile_batch(items, rlib, tmp, batch)
                if other: und.append((batch, str(other[:2])))
                gone = [i for i, e in errs.items() if any(c in UNKNOWN for c, _ in e)]
                hard = gone
                if batch == 'rejected_borrows': hard = [i for i, e in errs.items() if any(c not in ('E0502', 'E0499', 'E0505', 'E0597', 'E0596', 'E0594', 'E0716', 'E0515', 'E0506', 'E0503', 'LIFETIME', 'E0521') for c, _ in e)]
                if batch == 'accepted' and any(c not in ('E0502', 'E0499', 'E0505', 'E0597', 'E0596', 'LIFETIME', 'E0716', 'E0515') for e in errs.values() for c, _ in e): 
                    # type errors suppress the borrow checker: report them, then look at the rest
                    hard = list(errs)
                    for i in hard:
                        if i not in gone: viol.append((items[i][0], dict(expected='accepted by the compiler', got='; '.join(f'{c}: {m}' for c, m in errs[i][:2]), instance=f'witness: {items[i][1]}', trace=())))
                for i in hard:
                    if i in gone or batch == 'rejected_borrows': und.append((items[i][0], str(errs[i][:1])))
                if not hard: break
                if batch == 'rejected_types': break
                items = [x for i, x in enumerate(items) if i not in hard]
            for i, (name, src, codes) in enumerate(items):
                e = errs.get(i, [])
                if codes is None:
                    if e and (name, ) not in [(v[0],) for v in viol] and not any(c in UNKNOWN for c, _ in e):
                        viol.append((name, dict(expected='accepted by the compiler', got='; '.join(f'{c}: {m}' for c, m in e[:2]), instance=f'witness: {src}', trace=())))
                elif not any(c in codes for c, _ in e) and not any(c in UNKNOWN for c, _ in e):
                    if e: und.append((name, str(e[:1])))
                    else: viol.append((name, dict(expected='rejected by the compiler', got='accepted', instance=f'witness: {src}', trace=())))
            per[batch] = len(items)
        return dict(obligations=n, discharged=n - len(viol) - len(und), viol=viol, und=und, info=dict(witnesses=per))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
if __name__ == '__main__':
    r = run(); print(r['obligations'], r['discharged'], r['info'])
    for v in r['viol']: print('V', v[0], str(v[1])[:400])
    for v in r['und']: print('U', str(v)[:300])
