#!/usr/bin/env python3
"""Development aid: hand-written trial bugs. usage: trial.py <trials.py> [ids...]; the file defines T=[(id, file, old, new, 'C01 C02'), ...].
Each is applied to a scratch copy, the scratch harness is built against it and the named checks are run until one fails."""
import sys,os,shutil,subprocess,time
BASE=os.environ.get('MUTSRC','/repo'); W=os.environ.get('W','/tmp/trial/w')
ns={}; exec(open(sys.argv[1]).read(),ns); T=ns['T']
if len(sys.argv)>2: T=[t for t in T if t[0] in sys.argv[2:]]
os.makedirs(W,exist_ok=True)
shutil.rmtree(W+'/harness',ignore_errors=True); shutil.rmtree(W+'/repo',ignore_errors=True)
shutil.copytree(BASE,W+'/repo',ignore=shutil.ignore_patterns('target','.git')); shutil.copytree('/verif/harness',W+'/harness',ignore=shutil.ignore_patterns('target'))
c=open(W+'/harness/Cargo.toml').read().replace('/repo',W+'/repo').replace('opt-level = 3','opt-level = 1').replace('codegen-units = 16','codegen-units = 256').replace('incremental = false','incremental = true')+'\n[profile.release.package.hmath]\nopt-level = 2\n'
open(W+'/harness/Cargo.toml','w').write(c)
env=dict(os.environ,CARGO_INCREMENTAL='1',CARGO_NET_OFFLINE='true',VERIF_STOP1='1',VERIF_HANG_MS='30000',CARGO_TARGET_DIR=W+'/target')
for id,f,old,new,checks in T:
    p=f'{W}/repo/src/{f}'; t=open(p).read()
    if t.count(old)<1: print(id,'NOMATCH'); continue
    if t.count(old)>1: print(id,'note: several matches, first used')
    open(p,'w').write(t.replace(old,new,1))
    b=subprocess.run(['cargo','build','--release','--offline','--manifest-path',W+'/harness/Cargo.toml'],env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
    if b.returncode: print(id,'NOBUILD',b.stdout.decode()[-600:])
    else:
        res='SURVIVED'
        for c in checks.split():
            s=time.time(); os.path.exists(W+'/slots') and os.remove(W+'/slots')
            try: q=subprocess.run([W+'/target/release/harness','work',c,'quick',W+'/slots'],env=env,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,timeout=900)
            except subprocess.TimeoutExpired: res='timeout '+c; break
            if q.returncode or b'DONE' not in q.stdout:
                v=[l for l in q.stdout.decode(errors='replace').split('\n') if l.startswith(('FAIL','HANG','VIOL'))][:1]
                res=f'killed {c} {time.time()-s:.0f}s {v[0][:140] if v else ""}'; break
        print(id,res,flush=True)
    open(p,'w').write(t)
