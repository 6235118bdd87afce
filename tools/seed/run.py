#!/usr/bin/env python3
"""run.py [-n] [-j N] BUGFILE... [id...]: make and verify planted bugs."""
import sys, os, subprocess, json, shutil, threading, queue, importlib.util, re, time
HERE=os.path.dirname(os.path.abspath(__file__)); OUT='/verif/seeded'; WORK='/tmp/seed-work'
ENV=dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', GO111MODULE='on', GOFLAGS='-mod=mod')
ENV['PATH']='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
def sh(cmd, cwd, timeout=900, env=None):
    p=subprocess.run(['bash','-c',cmd],cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout,env=env or ENV)
    return p.returncode,p.stdout.decode('utf8','replace')
BASE=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ROOT=subprocess.check_output(['git','-C','/repo','rev-list','--max-parents=0','HEAD']).decode().strip()
blame={}
lock=threading.Lock()
ANY=False # also try changes of lines of our own commits, without keeping them
def mine(f):
    with lock:
        if f not in blame:
            o=subprocess.check_output(['git','-C','/repo','blame','-s','--root','-l','HEAD','--',f]).decode().splitlines()
            blame[f]={i+1 for i,l in enumerate(o) if not l.lstrip('^').startswith(ROOT[:30])}
        return blame[f]
def tests(w):
    sh("find . -name '*_generated.go' -delete; go generate ./...",w)
    rc,o=sh('go test -json -vet=off -count=1 -timeout 5m ./... 2>/dev/null',w)
    ok=set()
    for l in o.splitlines():
        try: d=json.loads(l)
        except: continue
        if d.get('Action')=='pass' and d.get('Test'): ok.add(d['Package']+'/'+d['Test'])
    return BASE-ok
def do(b,w,checks):
    log=[]
    sh('git checkout -q -- . && git clean -fdxq -e examples',w)
    yacc=False
    for f,old,new in b['edits']:
        p=os.path.join(w,f); s=open(p).read()
        if s.count(old)!=1: return 'BAD-EDIT %s: %d matches of %r'%(f,s.count(old),old)
        open(p,'w').write(s.replace(old,new))
        if f=='asn1.y': yacc=True
    if yacc:
        rc,o=sh('/opt/vp/bin/goyacc asn1.y && rm -f y.output',w)
        if rc: return 'YACC '+o
        sh('git checkout -q -- asn1.y',w)
    sh('gofmt -l *.go',w)
    rc,diff=sh('git diff --no-color',w)
    # original lines
    rc,d0=sh('git diff -U0 --no-color',w)
    orig=False; ins=False; cur=None
    for l in d0.splitlines():
        if l.startswith('--- a/'): cur=l[6:]
        m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
        if m:
            a=int(m[1]); n=int(m[2]) if m[2] is not None else 1
            if any(i not in mine(cur) for i in range(a,a+n)): orig=True
            if n==0 and a not in mine(cur) and a+1 not in mine(cur): ins=True
    if not orig and not ins and not ANY: return 'NOT-ORIGINAL'
    foreign=not orig and not ins
    rc,o=sh("find . -name '*_generated.go' -delete; go build . ./cmd/... && go generate ./... && go build ./...",w)
    if rc: return 'NO-BUILD '+o[-1500:]
    miss=tests(w)
    if miss: return 'TESTS-FAIL %s'%sorted(miss)
    d=os.path.join(OUT,b['id']); os.makedirs(d,exist_ok=True)
    for f in os.listdir(d): os.unlink(os.path.join(d,f))
    open(d+'/patch.diff','w').write(diff)
    if 'test' in b:
        shutil.copy(HERE+'/demo.sh',d+'/demo.sh')
        h=open(HERE+'/helpers.go.txt').read()
        imps=''.join('\t%s\n'%i for i in b.get('imports',[]))
        h=h.replace('import (\n','import (\n'+imps,1)
        open(d+'/demo_test.go.txt','w').write(h+'\nfunc TestSeeded(t *testing.T) {\n'+b['test'].strip('\n')+'\n}\n'+b.get('more',''))
    else:
        shutil.copy(HERE+'/democmd.sh',d+'/demo.sh')
        open(d+'/steps.sh','w').write(b['steps'].lstrip('\n'))
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
    rc,o=sh('bash %s/demo.sh'%d,w,300)
    if rc==0: shutil.rmtree(d); return 'DEMO-PASSES-WITH-BUG '+o[-800:]
    if re.search(r'\[build failed\]|\[setup failed\]',o): shutil.rmtree(d); return 'DEMO-BUILD '+o[-1500:]
    demo_out=o
    rc,_=sh('git apply -R %s/patch.diff; find . -name "*_generated.go" -delete; go generate ./...'%d,w)
    rc,o=sh('bash %s/demo.sh'%d,w,300)
    if rc!=0: shutil.rmtree(d); return 'DEMO-FAILS-CLEAN '+o[-1500:]
    res='ok' if orig else 'ok(INSERTION)'
    if checks:
        rc,o=sh('git apply %s/patch.diff'%d,w)
        t=time.time()
        env=dict(ENV,VERIF_REPO=w,VERIF_SEED='1',VERIF_TIER='quick')
        rc,o=sh('/verif/check.sh %s quick'%b['property'],'/verif',900,env)
        v=[l for l in o.splitlines() if l.startswith('VIOLATION property=%s '%b['property'])]
        res=('' if orig else 'INS ')+('CAUGHT' if rc==1 and v else 'MISSED rc=%d %s'%(rc,o[-600:]))+' %.0fs'%(time.time()-t)
    if foreign: shutil.rmtree(d); res='NOT-ORIGINAL '+res
    return res
def main():
    global ANY
    args=sys.argv[1:]; checks=True; j=4
    files=[];ids=[]
    while args:
        a=args.pop(0)
        if a=='-n': checks=False
        elif a=='-a': ANY=True
        elif a=='-j': j=int(args.pop(0))
        elif a.endswith('.py'): files.append(a)
        else: ids.append(a)
    bugs=[]
    for f in files:
        sp=importlib.util.spec_from_file_location('b',f); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m); bugs+=m.BUGS
    if ids: bugs=[b for b in bugs if b['id'] in ids or b['property'] in ids]
    assert len({b['id'] for b in bugs})==len(bugs)
    q=queue.Queue(); [q.put(b) for b in bugs]
    def worker(k):
        w='%s/w%d'%(WORK,k); os.makedirs(WORK,exist_ok=True)
        shutil.rmtree(w,ignore_errors=True); sh('cp -a /repo %s'%w,'/')
        while True:
            try: b=q.get_nowait()
            except queue.Empty: break
            try: r=do(b,w,checks)
            except Exception as e: r='EXC %r'%e
            with lock:
                print('%-28s %s %s'%(b['id'],b['property'],r),flush=True)
        shutil.rmtree(w,ignore_errors=True)
    ts=[threading.Thread(target=worker,args=(k,)) for k in range(min(j,len(bugs)))]
    [t.start() for t in ts];[t.join() for t in ts]
main()
