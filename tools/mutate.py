#!/usr/bin/env python3
"""Development aid: first-order mutation campaign against scratch copies of /repo under /tmp/mut.
usage: mutate.py list | run <worker> <nworkers> [file-regex]
Every mutant is built with an incremental scratch harness; the checks of the properties anchored in the file are run
until one fails. Survivors are appended to /tmp/mut/survivors.<worker>."""
import re,sys,os,subprocess,shutil,time
BASE=os.environ.get('MUTSRC','/repo'); SRC=BASE+'/src'
def strip_tests(t):
    i=t.find('#[cfg(test)]')
    return t if i<0 else t[:i]
def sites(path):
    t=open(path).read()
    lines=t.split('\n'); out=[]; intest=False; depth=0
    for ln,l in enumerate(lines):
        if '#[cfg(test)]' in l or '#[cfg(feature = "rand")]' in l: intest=True; depth=0; started=False; continue
        if intest:
            depth+=l.count('{')-l.count('}')
            if '{' in l: started=True
            if started and depth<=0: intest=False
            elif not started and l.rstrip().endswith(';'): intest=False
            continue
        s=l.strip()
        if s.startswith('//') or s.startswith('#[') or s.startswith('use ') or s.startswith('mod ') or s.startswith('pub use') or not s: continue
        code=l.split('//')[0]
        if len(re.findall(r'\b\d+',code))>4 or len(re.findall(r'\d{6,}',code))>=2 or re.fullmatch(r'[\s\d_,x]+',code): # tables: one mutant per 8 lines
            if ln%8==0:
                m=re.search(r'(?<![\w])\d{3,}(?!\w)',code)
                if m: out.append((ln,m.start(),m.end(),str(int(m.group())+1 if int(m.group())<4294967295 else 5)))
            continue
        if re.match(r'\s*\(0x',code) and ln%10: continue
        def add(m,new): out.append((ln,m.start(),m.end(),new))
        if 'fn ' not in code and 'impl' not in code:
            for pat,new in [(r' < ',' <= '),(r' <= ',' < '),(r' > ',' >= '),(r' >= ',' > '),(r' == ',' != '),(r' != ',' == '),(r' \+ ',' - '),(r' - ',' + '),(r' \* ',' + '),(r' / ',' * '),(r' % ',' / '),(r' << ',' >> '),(r' >> ',' << '),(r' && ',' || '),(r' \|\| ',' && '),(r' & ',' | '),(r' \^ ',' & '),(r' \+= ',' -= '),(r' -= ',' += '),(r' /= ',' *= '),(r' %= ',' /= '),(r' <<= ',' >>= '),(r' >>= ',' <<= '),(r' \*= ',' += '),
                (r'\.lt\(','.leq('),(r'\.leq\(','.lt('),(r'\.gt\(','.geq('),(r'\.geq\(','.gt('),(r'\.add\(','.sub('),(r'\.sub\(','.add('),(r'\.add_mut\(','.sub_mut('),(r'\.sub_mut\(','.add_mut('),(r'\.is_zero\(','.is_one('),(r'\.is_one\(','.is_zero('),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'(?<![\w!&|])!(?=[\w(])',''),(r'\.neg_mut\(\);','.clone();'),(r'\.neg\(\)','.clone()')]:
                for m in re.finditer(pat,code): add(m,new)
            for m in re.finditer(r'(?<![\w.\[\]])(\d[\d_]*)(?![\w.]*[xob"])(?!\w)',code):
                v=int(m.group(1).replace('_',''))
                add(m,str(v+1))
                if v>0: add(m,str(v-1))
            for m in re.finditer(r'\b0x([0-9a-fA-F_]+)\b',code):
                v=int(m.group(1).replace('_',''),16); add(m,hex(v+1)); add(m,hex(v>>1))
            if s.endswith(';') and not s.startswith(('let ','return','break','continue','use ','pub ','const ','static ')) and s!='};' and code.count('(')==code.count(')') and code.count('{')==code.count('}'):
                st=len(code)-len(code.lstrip()); out.append((ln,st,len(code.rstrip()),';'))
            m=re.match(r'(\s*(?:\} )?(?:else )?if )(?!let)(.*)( \{)\s*$',code)
            if m:
                out.append((ln,m.start(2),m.end(2),'false && ('+m.group(2)+')')); out.append((ln,m.start(2),m.end(2),'true || ('+m.group(2)+')'))
    return t,lines,out
REL=[('ubigint/arith/(add|sub|mul)','C01 C04 C03'),('ubigint/arith/(div|rem)','C02 C04 C26 C03'),('ubigint/arith/pow','C16 C04'),('ubigint/arith.rs','C01'),('ubigint/funcs.rs','C16 C17'),('ubigint/funcs/','C16 C04'),('ubigint/comp','C06 C04'),('ubigint/conv','C07 C08 C09 C13 C03'),('ubigint.rs','C03 C01 C07'),
('bigint/arith','C05 C04 C26'),('bigint/comp','C06 C04'),('bigint/conv','C07 C08 C09 C13 C05'),('bigint/funcs','C05 C04 C16 C17'),('bigint.rs','C03 C05'),
('ratio/arith','C10 C04 C26'),('ratio/comp','C06 C04'),('ratio/convert/ieee','C14 C15'),('ratio/convert','C12 C13 C09 C10 C11'),('ratio/funcs.rs','C11 C10 C18 C04 C13'),('ratio/funcs/(trigo|atrigo)','C19'),('ratio/funcs','C18'),('ratio/(e|ln2|pi)','C18 C19'),('ratio.rs','C03 C10'),
('complex','C10 C04'),('matrix','C20 C04'),('poly','C21 C04'),('fp192/arith','C22'),('fp192/comp','C06'),('fp192/convert/string','C24'),('fp192/convert','C23 C14 C15 C24'),('fp192/funcs.rs','C23 C25 C22'),('fp192/funcs','C25'),('fp192/consts','C25 C22 C24'),('fp192.rs','C22 C23 C24'),('consts','C20 C18'),('utils','C01 C02 C16 C07'),('impl_macros','C09 C04')]
def rel(f):
    for p,c in REL:
        if re.match(p,f): return c.split()
    return ['C03']
def all_mutants(rx):
    o=[]
    for d,_,fs in os.walk(SRC):
        for f in sorted(fs):
            p=os.path.join(d,f); r=os.path.relpath(p,SRC)
            if not f.endswith('.rs') or 'testbench' in r or not re.search(rx,r): continue
            t,lines,s=sites(p)
            for x in s: o.append((r,)+x)
    o.sort(key=lambda m:hash_(m))
    return o
def hash_(m):
    import hashlib
    return hashlib.md5(repr(m).encode()).hexdigest()
def run(w,n,rx):
    W=f'/tmp/mut/w{w}'
    if not os.path.isdir(W):
        os.makedirs(W); shutil.copytree(BASE,W+'/repo',ignore=shutil.ignore_patterns('target','.git')); shutil.copytree('/verif/harness',W+'/harness',ignore=shutil.ignore_patterns('target'))
        c=open(W+'/harness/Cargo.toml').read().replace('/repo',W+'/repo').replace('opt-level = 3','opt-level = 1').replace('codegen-units = 16','codegen-units = 256').replace('incremental = false','incremental = true')
        c+='\n[profile.release.package.hmath]\nopt-level = 2\n'
        open(W+'/harness/Cargo.toml','w').write(c)
    env=dict(os.environ,CARGO_INCREMENTAL='1',RUSTUP_TOOLCHAIN='stable',CARGO_NET_OFFLINE='true',VERIF_STOP1='1',VERIF_HANG_MS='15000',VERIF_THREADS=os.environ.get('MT','4'),CARGO_TARGET_DIR=W+'/target')
    done=set()
    donef=f'/tmp/mut/done.{w}'
    for g in os.listdir('/tmp/mut'):
        if g.startswith('done.'): done|=set(x.split('\t')[0] for x in open('/tmp/mut/'+g))
    for k,m in enumerate(all_mutants(rx)):
        if k%n!=w: continue
        key=hash_(m)
        if key in done: continue
        r,ln,a,b,new=m
        t,lines,_=sites(f'{SRC}/{r}')
        l=lines[ln]; nl=l[:a]+new+l[b:]
        ls=list(lines); ls[ln]=nl
        tgt=f'{W}/repo/src/{r}'
        open(tgt,'w').write('\n'.join(ls))
        t0=time.time()
        try:
            p=subprocess.run(['cargo','build','--release','--offline','--manifest-path',W+'/harness/Cargo.toml'],env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=400)
            res=None
            if p.returncode: res='nobuild'
            else:
                for c in rel(r):
                    try:
                        q=subprocess.run([W+'/target/release/harness','work',c,'quick',W+'/slots'],env=env,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,timeout=600)
                        if q.returncode or b'DONE' not in q.stdout: res='killed '+c; break
                    except subprocess.TimeoutExpired: res='timeout '+c; break
                else: res='SURVIVED'
        finally: open(tgt,'w').write(t)
        with open(donef,'a') as f: f.write(f'{key}\t{r}:{ln+1}\t{res}\t{time.time()-t0:.1f}\n')
        if res=='SURVIVED' or res.startswith('timeout'):
            with open(f'/tmp/mut/survivors.{w}','a') as f: f.write(f'{res} {r}:{ln+1}\n  - {l.strip()}\n  + {nl.strip()}\n')
if sys.argv[1]=='list':
    from collections import Counter
    a=all_mutants('.'); c=Counter(m[0] for m in a); print(len(a)); [print(v,k) for k,v in sorted(c.items())]
else: run(int(sys.argv[2]),int(sys.argv[3]),sys.argv[4] if len(sys.argv)>4 else '.')
