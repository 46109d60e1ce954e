import subprocess,sys,os,random,shutil,multiprocessing as mp,time,resource
MUT='/tmp/mutbin' # go build -o /tmp/mutbin in tools/mutate; BASE='/tmp/mut'
ENV=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local',GOWORK='off',GO111MODULE='on',CGO_ENABLED='0',GOSUMDB='off',GOMAXPROCS='2')
PROPS={'v1/buffer.go':'C01 C04 C02 C05 C03 C06 C08 C09','v1/utils.go':'C01 C07 C08','v1/minibuf.go':'C07 C11 C08 C09',
'v3/buffer.generated.go':'C10 C11 C09 C08','v3/minibuf.generated.go':'C10 C11 C09 C08'}
PROPS['v2/buffer.go']=PROPS['v1/buffer.go'];PROPS['v2/utils.go']=PROPS['v1/utils.go'];PROPS['v2/minibuf.go']=PROPS['v1/minibuf.go']
GEN={'generation/main.go','generation/complex.go'}
def dull(d,f):
    return d.startswith(('swap case','swap default')) or '→  ^' in d or d.startswith('swap data[') or d.startswith('swap out[') or d.startswith('0x00 → +1') or d.startswith('swap b.Lock() / defer') or 'tdata = []byte' in d
def lim():
    resource.setrlimit(resource.RLIMIT_AS,(6<<30,6<<30))
    os.setsid()
def run(cmd,cwd,to,env=ENV):
    p=subprocess.Popen(cmd,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,preexec_fn=lim,text=True,errors='replace')
    try:
        o,_=p.communicate(timeout=to); return p.returncode,o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.communicate(); return 124,'timeout'
def setup(w):
    d=f'{BASE}/w{w}'
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    subprocess.check_call(['cp','-a','/repo',d+'/repo']); subprocess.check_call(['cp','-a','/verif/sim',d+'/sim'])
    shutil.rmtree(d+'/sim/gen',ignore_errors=True)
    subprocess.check_call(['go','build','-o',d+'/instrument','./cmd/instrument'],cwd=d+'/sim',env=ENV)
    for v in ('v1','v2','v3'): inst(d,v)
    gdeps(d)
    os.makedirs(d+'/out',exist_ok=True)
    return d
def gdeps(d):
    os.makedirs(d+'/g')
    subprocess.check_call(['cp','-a',d+'/repo/generation',d+'/repo/v3',d+'/g/'])
    subprocess.check_call(['sh',d+'/sim/gendeps.sh',d+'/g/generation',d+'/sim'],env=ENV)
    os.makedirs(d+'/sim/gen/templates',exist_ok=True)
    subprocess.check_call(f'cp {d}/repo/v3/_*.go {d}/sim/gen/templates/',shell=True)
def inst(d,v):
    shutil.rmtree(f'{d}/sim/gen/{v}',ignore_errors=True)
    if v=='generation':
        rc,o=run([d+'/instrument','-proc','-dir',f'{d}/g/generation','-out',f'{d}/sim/gen/generation','-as','crunchsim/gen/generation','-base','900000'],d+'/sim',120)
    else:
        rc,o=run([d+'/instrument','-dir',f'{d}/repo/{v}','-out',f'{d}/sim/gen/{v}','-as','crunchsim/gen/'+v,'-base',v[1]+'00000'],d+'/sim',120)
    return rc,o
def work(w,q,out,scale):
    d=setup(w)
    while True:
        it=q.get()
        if it is None: return
        f,i=it
        v=f.split('/')[0]
        tgt=f'{d}/repo/{f}' if f not in GEN else f'{d}/g/{f}'
        orig=open(tgt).read()
        rc,desc=run([MUT,'-apply',str(i),tgt],d,20); desc=desc.strip().replace(tgt,f)
        res='?'
        try:
            cwd=os.path.dirname(tgt)
            rc,o=run(['go','build','-o','/dev/null','./...'] if v!='generation' else ['go','vet','-mod=mod','.'],cwd,120)
            if v!='generation' and rc==0: rc,o=run(['go','vet','-unreachable=false','-assign=false','-bools=false','.'],cwd,60) if 0 else (0,'')
            if rc!=0 and v!='generation': res='nobuild'; continue
            if v!='generation':
                rc,o=run(['go','test','-vet=off','-count=1','-timeout','40s','./...'],cwd,60)
                if rc!=0: res='tests'; continue
            rc,o=inst(d,v)
            if rc!=0: res='noinstr '+o[-300:].replace('\n',' '); continue
            b='gencheck' if v=='generation' else 'simcheck'
            rc,o=run(['go','build','-o',f'{d}/{b}','./cmd/'+b],d+'/sim',300)
            if rc!=0: res='nobuild' if v=='generation' else 'nobuild-instr '+o[-300:].replace('\n',' '); continue
            res='SURVIVED'
            props=PROPS[f].split() if v!='generation' else ['C12','C13','C14']
            for p in props:
                n=int((30000 if v!='generation' else 2500)*scale)
                cmd=[f'{d}/{b}']+(['-templates',d+'/sim/gen/templates'] if b=='gencheck' else [])+['-prop',p,'-runs',str(n),'-workers','1','-verif',d+'/out']
                t=time.time()
                rc,o=run(cmd,d+'/sim',240)
                if rc==1: res='killed '+p; break
                if rc!=0: res=f'NOANSWER {p} rc={rc} '+o[-300:].replace('\n',' '); break
        finally:
            open(tgt,'w').write(orig)
            with open(out,'a') as fo: fo.write(f'{f}\t{i}\t{res}\t{desc}\n')
if __name__=='__main__':
    out=sys.argv[1]; frac=float(sys.argv[2]); nw=int(sys.argv[3]); scale=float(sys.argv[4]); files=sys.argv[5:]
    done=set()
    if os.path.exists(out):
        for l in open(out): a=l.split('\t'); done.add((a[0],int(a[1])))
    items=[]
    for f in files:
        if ':' in f:
            a,b=f.split(':'); items.append((a,int(b))); continue
        ls=subprocess.check_output([MUT,'-list','/repo/'+f],text=True).splitlines()
        l=[i for i,x in enumerate(ls) if not dull(x.split('\t')[3],f)]; n=len(l); print(f,n)
        r=random.Random(f); r.shuffle(l); items+= [(f,i) for i in l[:int(n*frac)]]
    items=[x for x in items if x not in done]
    random.Random(1).shuffle(items)
    q=mp.Queue()
    for x in items: q.put(x)
    for _ in range(nw): q.put(None)
    ps=[mp.Process(target=work,args=(w,q,out,scale)) for w in range(nw)]
    for p in ps: p.start()
    for p in ps: p.join()
