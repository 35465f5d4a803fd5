import json,subprocess,os,sys,time,fcntl
W=sys.argv[1]
L=json.load(open('/tmp/mut/list.json'))
def nxt():
    with open('/tmp/mut/counter','a+') as f:
        fcntl.flock(f,fcntl.LOCK_EX); f.seek(0); s=f.read().strip(); n=int(s or 0)
        f.seek(0); f.truncate(); f.write(str(n+1)); f.flush(); return n
def checks(f):
    b=f
    if 'generators/rust/generator' in b or 'preset.rs' in b: return ['C19']
    if 'generators/' in b: return ['C18','C19']
    if b.startswith('src/'): return ['C17']
    if 'distill/hy' in b: return ['C03','C05','C06','C08','C09','C02','C01','C07']
    if 'distill/de' in b: return ['C04','C05','C06','C09','C01','C07']
    if b.endswith('layouts/src/matching.rs') or b.endswith('src/pattern.rs'): return ['C03','C06','C08','C04']
    if 'regexp' in b: return ['C13','C11']
    if 'utils/' in b: return ['C14','C13']
    if 'value/cbor' in b or 'serde_cbor' in b: return ['C16']
    if 'value/' in b: return ['C15','C16','C11']
    if 'abs/' in b: return ['C10','C11','C12','C07']
    return ['C12','C10','C03','C11','C15']
def run(c,t):
    import signal
    p=subprocess.Popen(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,start_new_session=True)
    try:
        o,_=p.communicate(timeout=t); return p.returncode,o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,signal.SIGKILL); p.wait(); return 124,'timeout'
def probe():
    import glob
    for d in sorted(glob.glob('/tmp/mut/probes/*.diff')):
        try: os.rename(d,d[:-5]+'.run')
        except OSError: continue
        return d[:-5]+'.run'
def do_probe(d):
    name=os.path.basename(d)[:-4]; props=name.split('-')[0].split('_')
    res={'probe':name}; t0=time.time()
    rc,o=run('cd /repo && git apply %s'%d,60)
    if rc: res['r']='noapply '+o
    else:
        try:
            rc,o=run('bash /opt/vp/test.sh /tmp/mut/o%s.json'%W,300)
            if 'could not compile' in o: res['r']='nocompile'; res['o']=o[-1500:]
            else:
                a=json.load(open('/tmp/mut/o%s.json'%W)); ok=len(a.get('passed',[]))
                if ok!=55: res['r']='tests %d'%ok; res['o']=o[-600:]
                else:
                    res['r']='MISSED'; res['log']=[]
                    for c in props:
                        rc,o=run('cd /verif && timeout 900 ./check %s quick 2>&1'%c,1000)
                        v=o.count('VIOLATION property'); res['log'].append((c,rc,v,o.strip().split('\n')[-1][:120]))
                        if rc==1 and v: res['r']='caught'
                        elif rc not in(0,1): res['log'].append(o[-300:])
        finally: run('cd /repo && git checkout -q -- .',60)
    res['t']=round(time.time()-t0)
    with open('/tmp/mut/presults.jsonl','a') as g: g.write(json.dumps(res)+'\n')
while True:
    if os.path.exists('/tmp/mut/stop'): break
    d=probe()
    if d: do_probe(d); continue
    if os.path.exists('/tmp/mut/idle'): time.sleep(3); continue
    n=nxt()
    if n>=len(L) or os.path.exists('/tmp/mut/stop'): break
    f,i,old,new,op=L[n]
    p='/repo/'+f; t=open(p).read(); ls=t.split('\n')
    if i>=len(ls) or ls[i]!=old:
        c=[k for k,x in enumerate(ls) if x==old]
        if len(c)!=1: continue
        i=c[0]
    ls[i]=new; open(p,'w').write('\n'.join(ls))
    t0=time.time(); res={'n':n,'file':f,'line':i+1,'old':old.strip(),'new':new.strip(),'op':op}
    try:
        rc,o=run('bash /opt/vp/test.sh /tmp/mut/o%s.json'%W,300)
        if rc==124: res['r']='test-timeout'
        elif 'could not compile' in o: res['r']='nocompile'
        else:
            try:
                a=json.load(open('/tmp/mut/o%s.json'%W)); ok=len(a.get('passed',[]))
            except Exception as e: ok=-1
            if ok!=55: res['r']='tests'
            else:
                res['r']='MISSED'; res['log']=[]
                for c in checks(f):
                    rc,o=run('cd /verif && timeout 900 ./check %s quick 2>&1'%c,1000)
                    v=o.count('VIOLATION property'); res['log'].append((c,rc,v,o.strip().split('\n')[-1][:120]))
                    if rc==1 and v: res['r']='caught'; break
                    if rc not in(0,1): res['r']='rc%d'%rc; 
                    
    finally:
        open(p,'w').write(t)
    res['t']=round(time.time()-t0)
    with open('/tmp/mut/results.jsonl','a') as g: g.write(json.dumps(res)+'\n')
