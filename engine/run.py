"""Entry point of the checks: python3 run.py <property>.
Extracts MIR facts from /repo's current source with the mirfacts driver, runs the property's tasks
(each a static analysis of part of the crate) in parallel, writes evidence/<property>.json and
prints VIOLATION / KNOWN-FINDING lines."""
import json, os, subprocess, sys, tempfile, time, traceback, multiprocessing, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

class Setup(Exception): pass

def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True, check=True).stdout.strip()

def driver():
    exe = os.path.join(ROOT, 'driver/target/release/mirfacts')
    src = [os.path.join(ROOT, 'driver', p) for p in ('src/main.rs', 'src/json.rs', 'Cargo.toml')]
    if not os.path.exists(exe) or os.path.getmtime(exe) < 0:
        r = subprocess.run(['bash', os.path.join(ROOT, 'setup.sh')], capture_output=True, text=True)
        if not os.path.exists(exe): raise Setup('driver does not build: ' + r.stdout[-500:] + r.stderr[-500:])
    return exe

MANIFEST = '''[package]
name = "lazy-clone-collections"
version = "0.0.0"
edition = "2021"
[features]
bench = []
serde_test = []
[dependencies]
serde = { version = "1.0", optional = true, features = ["derive"] }
[workspace]
'''
def extract_serde(tmp):
    """the crate with its feature `serde`: a scratch copy, with the instantiations of interest named in an extra module"""
    exe = driver(); sr = sysroot(); out = os.path.join(tmp, 'facts.json'); d = os.path.join(tmp, 'crate')
    shutil.copytree(os.path.join(REPO, 'src'), os.path.join(d, 'src'))
    with open(os.path.join(d, 'Cargo.toml'), 'w') as f: f.write(MANIFEST)
    with open(os.path.join(d, 'src/lib.rs'), 'a') as f: f.write(open(os.path.join(HERE, 'serde_roots.rs')).read())
    env = dict(os.environ, LD_LIBRARY_PATH=sr + '/lib', MIRFACTS_OUT=out, RUSTC_WORKSPACE_WRAPPER=exe, CARGO_TARGET_DIR=os.path.join(tmp, 't'), CARGO_INCREMENTAL='0', CARGO_NET_OFFLINE='true',
               CARGO_PROFILE_DEV_DEBUG_ASSERTIONS='false', CARGO_PROFILE_DEV_OVERFLOW_CHECKS='false', RUSTFLAGS='')
    r = subprocess.run(['cargo', '+nightly', 'rustc', '--offline', '--features', 'serde', '--lib', '--', '-Zmir-opt-level=0', '-Awarnings'], cwd=d, capture_output=True, text=True, env=env)
    if r.returncode or not os.path.exists(out): raise Setup('fact extraction failed: ' + r.stderr[-2000:])
    return out
def extract(tmp):
    exe = driver(); sr = sysroot(); out = os.path.join(tmp, 'facts.json')
    env = dict(os.environ, LD_LIBRARY_PATH=sr + '/lib', MIRFACTS_OUT=out)
    r = subprocess.run([exe, 'rustc', '--edition', '2021', '--crate-type', 'lib', '--crate-name', 'lazy_clone_collections', REPO + '/src/lib.rs',
                        '-Zmir-opt-level=0', '-Coverflow-checks=off', '-Cdebug-assertions=off', '--emit=metadata', '-o', os.path.join(tmp, 'x.rmeta'), '-Awarnings', '--sysroot', sr],
                       capture_output=True, text=True, env=env)
    if r.returncode or not os.path.exists(out): raise Setup('fact extraction failed: ' + r.stderr[-2000:])
    return out

_F = None
def _init(path):
    global _F
    from facts import Facts
    _F = Facts(path)

def _task(t):
    import tasks
    name, fn, args = t
    t0 = time.time()
    try: r = getattr(tasks, fn)(_F, *args)
    except Exception as e:
        r = dict(obligations=0, discharged=0, viol=[], und=[('internal', repr(e) + ' ' + traceback.format_exc()[-400:])], info={})
    r['task'] = name; r['t'] = round(time.time() - t0, 2)
    return r

def _again(t):
    import tasks
    name, fn, args, ex = t
    tasks.EXACT = ex
    try: r = getattr(tasks, fn)(_F, *args)
    except Exception as e: r = dict(obligations=0, discharged=0, viol=[], und=[], info=dict(error=repr(e)[:200]))
    r['task'] = f'{name} (trees of height up to {ex[0]})'; r['t'] = 0
    return r

def collect(pool, f, todo, until, stop=lambda r: False):
    ps = [(t, pool.apply_async(f, (t,))) for t in todo]; res = []
    while ps:
        left = []
        for t, p in ps:
            if p.ready():
                r = p.get(); res.append(r)
                if stop(r): return res
            else: left.append((t, p))
        ps = left
        if time.time() > until: break
        if ps: time.sleep(0.02)
    for t, _ in ps:
        res.append(dict(task=t[0], obligations=1, discharged=0, viol=[], und=[('analysis', 'not examined within the time limit')], info={}, t=0))
    return res

def load_known(prop):
    out = []
    p = os.path.join(ROOT, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            if l.strip():
                d = json.loads(l)
                if d.get('property') == prop and d.get('status') == 'known': out.append(d)
    return out

def main():
    import tasks
    prop = sys.argv[1]
    tier = 'thorough' if 'thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time(); nagain = 0
    tmp = tempfile.mkdtemp(prefix='verif.')
    try:
        spec = tasks.PROPS[prop]
        path = (extract_serde if spec.get('serde') else extract)(tmp)
        _init(path)
        todo = [t for t in spec['tasks'](_F, tier)]
        todo.sort(key=lambda t: -tasks.WEIGHT.get(t[0], 1))
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(min(8, max(1, len(todo)))) as pool:
            res = collect(pool, _task, todo, t0 + (420 if tier == 'quick' else 3600))
        # tasks that were not decided are examined again exactly, on trees of bounded height: this finds violations, it proves nothing
        again = []
        if not any(r['viol'] for r in res):
            args = {t[0]: t for t in todo}
            for r in res:
                if r['und']: again += [x for x in tasks.bounded(*args[r['task']]) if x not in again]
        again.sort(key=lambda x: x[3])
        if again:
            with ctx.Pool(8) as pool:
                for r in collect(pool, _again, again, t0 + (780 if tier == 'quick' else 5400), stop=lambda r: r['viol']):
                    if r['viol']: res.append(r)
                    else: nagain += 1
    except Setup as e:
        print('ERROR', e); sys.exit(2)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    res.sort(key=lambda r: r['task'])
    obl = sum(r['obligations'] for r in res); dis = sum(r['discharged'] for r in res)
    viol = [(r['task'], w, m) for r in res for w, m in r['viol']]
    und = [(r['task'], w, str(m)[:400]) for r in res for w, m in r['und']]
    known = load_known(prop); new = []
    for t, w, m in viol:
        k = [d for d in known if d['id'] == f'{t}:{w}']
        if k: print(f"KNOWN-FINDING: property={prop} {k[0]['what']}")
        else: new.append((t, w, m))
    ev = os.path.join(ROOT, 'evidence'); os.makedirs(ev, exist_ok=True)
    cov = dict(obligations=obl, discharged=dis,
               checker_cmd=f'python3 engine/run.py {prop}', trusted_base=spec['trusted'],
               tasks=[dict(task=r['task'], obligations=r['obligations'], discharged=r['discharged'], undecided=[w for w, _ in r['und']], seconds=r['t'], **r['info']) for r in res],
               undecided=und, bounded_reexaminations_without_violation=nagain, rule=spec['rule'])
    if spec['level'] == 'other': cov['explanation'] = spec['rule']
    json.dump(dict(property=prop, tier=tier, seed=seed, level=spec['level'], coverage=cov, assumptions=spec.get('assumptions', []),
                   wall_s=round(time.time() - t0, 2), violations=len(new)), open(os.path.join(ev, prop + '.json'), 'w'), indent=1)
    print(f'{prop}: {len(res)} tasks, {dis}/{obl} obligations discharged, {len(und)} undecided, {len(new)} violations, {time.time()-t0:.1f}s')
    if '-v' in sys.argv:
        for r in res: print('  ', r['task'], r['discharged'], '/', r['obligations'], r['t'], r['info'])
        for u in und: print('   UND', u)
    if new:
        rp = os.path.join(ev, prop + '.violation.json')
        json.dump([dict(task=t, construct=w, detail=m) for t, w, m in new], open(rp, 'w'), indent=1, default=str)
        for t, w, m in new[:10]: print(f'  violated: {t}: {w}: {str(m)[:600]}')
        print(f'VIOLATION property={prop} replay={rp}')
        sys.exit(1)
    sys.exit(0)

if __name__ == '__main__': main()
