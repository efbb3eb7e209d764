#!/usr/bin/env python3
"""Development tool (no check uses it): enumerate small source mutants of /repo,
keep those that build and pass the stable tests.  Scratch copies live in /tmp/mut.
usage: mutate.py OUT.jsonl [workers] [shard]"""
import json, os, re, subprocess, sys, shutil, random
from concurrent.futures import ThreadPoolExecutor
import threading, queue
REPO='/repo'
FILES=['src/avl.rs','src/avl/avl_set.rs','src/btree.rs','src/btree/btree_set.rs','src/btree/core.rs','src/btree/fixed.rs','src/lib.rs','src/stack.rs']
SWAPS=[('<','<='),('<=','<'),('>','>='),('>=','>'),('==','!='),('!=','=='),('&&','||'),('||','&&'),
 ('+','-'),('-','+'),('+=','-='),('-=','+=')]
WORDS=[('true','false'),('false','true'),('is_some','is_none'),('is_none','is_some'),('Less','Greater'),('Greater','Less'),
 ('left','right'),('right','left'),('next','next_back'),('next_back','next'),('pop_front','pop_back'),('pop_back','pop_front'),
 ('push_front','push_back'),('push_back','push_front'),('Included','Excluded'),('Excluded','Included'),('max','min'),('min','max'),
 ('first','last'),('last','first'),('left_ht','right_ht'),('right_ht','left_ht'),('0','1'),('1','0'),('1','2'),('2','1'),
 ('self','other'),('other','self'),('lhs','rhs'),('rhs','lhs'),('lf','rt'),('rt','lf'),('pop_first','pop_last'),('pop_last','pop_first'),
 ('is_ok','is_err'),('Ok','Err'),('join_rt','join_lf'),('join_lf','join_rt'),('rot_lf','rot_rt'),('rot_rt','rot_lf'),('rm_leftmost','rm_rightmost'),('rm_rightmost','rm_leftmost'),
 ('break','continue'),('front','back'),('back','front'),('a','b'),('b','a'),('start','end'),('end','start'),('lo','hi'),('hi','lo'),('k','v'),]
def test_lines(src):
    # mark lines inside #[cfg(test)] items
    lines=src.split('\n'); skip=set(); i=0
    while i<len(lines):
        if '#[cfg(test)]' in lines[i]:
            j=i; depth=0; started=False
            while j<len(lines):
                l=re.sub(r'//.*','',lines[j])
                depth+=l.count('{')-l.count('}')
                if '{' in l: started=True
                skip.add(j)
                if started and depth<=0: break
                if not started and l.rstrip().endswith(';'): break
                j+=1
            i=j
        i+=1
    return skip
def mutants(f):
    src=open(f'{REPO}/{f}').read(); lines=src.split('\n'); skip=test_lines(src); out=[]
    for i,l in enumerate(lines):
        if i in skip: continue
        s=l.strip()
        if not s or s.startswith('//') or s.startswith('#') or s.startswith('use ') or s.startswith('impl') or s.startswith('pub fn') or s.startswith('fn ') or s.startswith('where') or s.startswith('type ') : continue
        code=l.split('//')[0]
        for a,b in SWAPS:
            for m in re.finditer(r' '+re.escape(a)+r' ',code):
                out.append((f,i,l[:m.start()]+' '+b+' '+l[m.end():]))
        for a,b in WORDS:
            for m in re.finditer(r'(?<![\w])'+re.escape(a)+r'(?![\w])',code):
                out.append((f,i,l[:m.start()]+b+l[m.end():]))
        m=re.match(r'^(\s*)(if|while|} else if) (?!let)(.*) \{$',code)
        if m:
            out.append((f,i,f'{m[1]}{m[2]} !({m[3]}) {{'))
            if m[2]!='while':
                out.append((f,i,f'{m[1]}{m[2]} true || ({m[3]}) {{')); 
            out.append((f,i,f'{m[1]}{m[2]} false && ({m[3]}) {{'))
        if re.match(r'^\s*(self\.|\*|[a-z_\.]+(\(|\.)|[a-z_\.\*]+ [-+|&]?= ).*;\s*$',code) and not s.startswith('let') and not s.startswith('return'):
            out.append((f,i,re.match(r'^\s*',l)[0]+'{}'))
    seen=set(); res=[]
    for x in out:
        if x not in seen and x[2]!=lines[x[1]]:
            seen.add(x); res.append(x)
    return res
def stable():
    return set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def run(wd,mut):
    f,i,new=mut
    p=f'{wd}/{f}'; orig=open(f'{REPO}/{f}').read()
    lines=orig.split('\n'); lines[i]=new
    open(p,'w').write('\n'.join(lines))
    try:
        env=dict(os.environ,CARGO_BUILD_JOBS='2')
        r=subprocess.run('cargo check --offline --features serde,serde_test',shell=True,cwd=wd,capture_output=True,text=True,env=env,timeout=300)
        if r.returncode: return 'nobuild'
        # unit+integration tests first, fail fast
        try:
            r=subprocess.run('ulimit -v 8000000; timeout 100 cargo test --offline --features serde,serde_test --lib --tests -- --test-threads 2',shell=True,cwd=wd,capture_output=True,text=True,env=env,timeout=200)
        except subprocess.TimeoutExpired: return 'killed'
        if r.returncode: return 'killed'
        try:
            r=subprocess.run('ulimit -v 8000000; timeout 200 cargo test --offline --features serde,serde_test --doc -- --test-threads 2',shell=True,cwd=wd,capture_output=True,text=True,env=env,timeout=300)
        except subprocess.TimeoutExpired: return 'killed'
        if r.returncode: return 'killed'
        return 'survived'
    finally:
        open(p,'w').write(orig)
        subprocess.run('git checkout -q -- . ; git clean -fdq -e target -e Cargo.lock',shell=True,cwd=wd)
def main():
    out=sys.argv[1]; n=int(sys.argv[2]) if len(sys.argv)>2 else 7
    os.makedirs('/tmp/mut',exist_ok=True)
    done=set()
    if os.path.exists(out):
        for l in open(out):
            d=json.loads(l); done.add((d['file'],d['line'],d['new']))
    ms=[m for f in FILES for m in mutants(f)]
    random.Random(7).shuffle(ms)
    ms=[m for m in ms if m not in done]
    print(len(ms),'mutants'); q=queue.Queue(); [q.put(m) for m in ms]; lock=threading.Lock()
    def worker(k):
        wd=f'/tmp/mut/w{k}'
        if not os.path.exists(wd): subprocess.run(['cp','-a',REPO,wd])
        while True:
            try: m=q.get_nowait()
            except queue.Empty: return
            try: r=run(wd,m)
            except Exception as e: r='error '+str(e)
            with lock:
                open(out,'a').write(json.dumps(dict(file=m[0],line=m[1],new=m[2],old=open(f'{REPO}/{m[0]}').read().split('\n')[m[1]],res=r))+'\n')
    ts=[threading.Thread(target=worker,args=(k,)) for k in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
if __name__=='__main__': main()
