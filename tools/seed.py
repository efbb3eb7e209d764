#!/usr/bin/env python3
"""Development tool: makes and confirms a planted bug.
  seed.py <id> <property> <spec.json>
spec.json: {"file":..., "old":..., "new":..., ["edits":[{file,old,new}]], "demo": "<rust main body file>", "needs":..., "breaks":...}
Confirms in a scratch copy: patch builds, stable tests pass, demo passes without / fails with the patch."""
import json, os, shutil, subprocess, sys, tempfile
DEMO_SH = '''#!/bin/bash
# builds the crate from the current tree and runs demo.rs against it
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
rustc +stable --edition 2021 --crate-type rlib --crate-name lazy_clone_collections src/lib.rs -o "$t/liblazy_clone_collections.rlib" -Awarnings || exit 3
rustc +stable --edition 2021 -Awarnings "$d/demo.rs" -o "$t/demo" --extern lazy_clone_collections="$t/liblazy_clone_collections.rlib" || exit 3
timeout 120 "$t/demo"
'''
def sh(c, cwd, **k): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def main():
    sid, prop, spec = sys.argv[1:4]
    sp = json.load(open(spec)) if os.path.exists(spec) else json.loads(spec)
    out = f'/verif/seeded/{sid}'
    wt = tempfile.mkdtemp(prefix='seed.', dir='/tmp'); shutil.rmtree(wt)
    subprocess.run(['cp', '-a', '/repo', wt], check=True)
    try:
        for e in sp.get('edits') or [sp]:
            p = f"{wt}/{e['file']}"; s = open(p).read()
            if 'line' in e:
                ls = s.split('\n'); i = e['line'] - 1
                assert ls[i].strip() == e['old'].strip(), ls[i]
                ls[i] = e['new']; s = '\n'.join(ls)
            else:
                assert s.count(e['old']) == 1, (s.count(e['old']), e['old']); s = s.replace(e['old'], e['new'])
            open(p, 'w').write(s)
        diff = sh('git diff', wt).stdout
        assert diff
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff); open(out + '/demo.sh', 'w').write(sp.get('demo_sh', DEMO_SH))
        demo = sp['demo']
        if os.path.exists(demo): demo = open(demo).read()
        open(out + '/demo.rs', 'w').write(demo)
        json.dump(dict(property=prop, needs=sp['needs'], what_it_breaks=sp['breaks']), open(out + '/meta.json', 'w'), indent=1)
        r = sh(f'bash {out}/demo.sh', '/repo')
        ok = True
        if r.returncode: print('demo fails on the unchanged tree', r.stdout[-800:], r.stderr[-1500:]); ok = False
        r = sh(f'bash {out}/demo.sh', wt)
        if r.returncode in (0, 3): print('demo rc', r.returncode, 'with the patch', r.stderr[-1500:]); ok = False
        if ok:
            env = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', PROPTEST_RNG_SEED='20240229')
            r = sh('cargo test --features serde,serde_test --offline 2>&1', wt, env=env)
            if r.returncode: 
                fails = [l for l in r.stdout.splitlines() if 'FAILED' in l or l.startswith('error')]
                print('tests fail', fails[:6]); ok = False
        if ok:
            env = dict(os.environ, VERIF_REPO=wt)
            r = subprocess.run(['python3', '/verif/engine/run.py', prop], env=env, capture_output=True, text=True)
            print(sid, 'ok; check rc', r.returncode, r.stdout.splitlines()[:2])
        else: shutil.rmtree(out)
    finally: shutil.rmtree(wt, ignore_errors=True)
main()
