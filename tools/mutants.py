"""One-token mutants of functions of the code, against checks run in the scratch copy that tools/scratch.sh makes.
usage: mutants.py FILE fn,fn CHECK,CHECK [LOG]   (without LOG: only counts)"""
import re,subprocess,sys,os,time
R='/tmp/vtrepo'
def ranges(f,names):
    L=open(f'/repo/src/{f}').read().split('\n'); out=[]
    for n in names:
        i=next(k for k,l in enumerate(L) if re.search(rf'fn {n}\(',l))
        j=next(k for k in range(i+1,len(L)) if L[k]=='    }')
        out+=range(i+1,j)
    return L,out
OPS=[(r' < ',' > '),(r' <= ',' > '),(r' > ',' < '),(r' \|\| ',' && '),(r' && ',' || '),(r' == ',' != '),(r' \+ ',' - '),(r' - ',' + '),(r' \* ',' / '),(r' / ',' * '),(r' \+= ',' -= '),(r' -= ',' += '),(r' /= ',' *= '),(r'\.abs\(\)',''),(r'\.ln\(\)',''),(r'Ok\(\(\)\)','Err(DensityError::IterationFail)'),(r'Err\(DensityError::IterationFail\)','Ok(())')]
def gen(f,names):
    L,rg=ranges(f,names); ms=[]
    for k in rg:
        l=L[k]; code=l.split('//')[0]
        if not code.strip(): continue
        for o,n in OPS:
            for m in re.finditer(o,code):
                ms.append((f,k,code[:m.start()]+n+code[m.end():]))
        for m in re.finditer(r'(?<![\w.])\d+(\.[\d_]+)?(?![\w.])',code):
            v=m[0]
            if 'TOLR' in code: nv='0.001'
            elif '.' in v: nv=repr(float(v.replace('_',''))*1.5)
            else: nv=str(int(v)+1)
            if 'RGERG' in code or 'pow' in code: pass
            ms.append((f,k,code[:m.start()]+nv+code[m.end():]))
        s=code.strip()
        if s.endswith(';') and not s.startswith('let') and not s.startswith('const') and not s.startswith('return') and ('=' in s or '(' in s):
            ms.append((f,k,'/* deleted */'))
    return L,ms
def run(f,L,k,new,checks,log):
    M=L[:]; M[k]=new
    open(f'{R}/src/{f}','w').write('\n'.join(M))
    desc=f'{f}:{k+1}: {L[k].strip()}  =>  {new.strip()}'
    t=time.time()
    for c in checks:
        r=subprocess.run(['./check',c,'quick'],cwd='/tmp/vt',stdout=open('/tmp/mut.out','w'),stderr=open('/tmp/mut.err','w')).returncode
        if r==2:
            e=open('/tmp/mut.err').read()
            if 'error' in e and 'could not compile' in e: log(f'NOBUILD {desc}'); return
            log(f'EXIT2 {c} {desc}'); return
        if r==1: log(f'killed {c} {time.time()-t:.0f}s {desc}'); return
        if r!=0: log(f'EXIT{r} {c} {desc}'); return
    log(f'SURVIVED {time.time()-t:.0f}s {desc}')
if __name__=='__main__':
    f=sys.argv[1]; names=sys.argv[2].split(','); checks=sys.argv[3].split(',')
    L,ms=gen(f,names)
    if len(sys.argv)<=4: print(len(ms)); sys.exit()
    lf=open(sys.argv[4],'a')
    def log(s): lf.write(s+'\n'); lf.flush()
    for (f,k,new) in ms: run(f,L,k,new,checks,log)
    open(f'{R}/src/{f}','w').write('\n'.join(L)); log('done')
