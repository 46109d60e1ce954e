"""drive.py OUT [NAME...]: make refactored copies of /repo under OUT (behaviour unchanged)."""
import re,os,sys,shutil
OUT=sys.argv[1]; WANT=sys.argv[2:]
HERE=os.path.dirname(os.path.abspath(__file__))
def sub(s,old,new,n=None):
    c=s.count(old); assert c>0 and (n is None or c==n),(c,old[:80]); return s.replace(old,new)
def func(s,name,body):
    "replace a whole function; name like '(b *Buffer) write('"
    m=re.search(r'(?m)^func '+re.escape(name)+r'.*?^}\n',s,re.S); assert m,name
    return s[:m.start()]+body.strip('\n')+'\n'+s[m.end():]
RF={}
def rf(f): RF[f.__name__]=f; return f
def edit(r,f,g):
    p=f'{r}/{f}'; s=open(p).read(); t=g(s); assert s!=t,(f); open(p,'w').write(t)
MAIN='generation/main.go'; CX='generation/complex.go'
def readpart(s,new,imports=()):
    a=s.index('	files := map[string][]byte{}\n'); b=s.index('	var generated map[string][]byte')
    return s[:a]+new+s[b:]
def writepart(s,new):
    a=s.index('	for name, contents := range generated {'); b=s.index('	if failed {\n		os.Exit(1)')
    return s[:a]+new+s[b:]
def imp(s,*names):
    return s.replace('import (\n','import (\n'+''.join('\t"%s"\n'%n for n in names),1)
def noimp(s,n): return sub(s,'\t"%s"\n'%n,'',1)
for f in sorted(os.listdir(HERE)):
    if f.startswith('rf') and f.endswith('.py'): exec(open(f'{HERE}/{f}').read())
for n,f in RF.items():
    if WANT and n not in WANT: continue
    d=f'{OUT}/{n}'
    shutil.rmtree(d,ignore_errors=True); shutil.copytree('/repo',d,symlinks=True)
    try: f(d)
    except AssertionError as e: print(n,'ASSERT',e); shutil.rmtree(d)
