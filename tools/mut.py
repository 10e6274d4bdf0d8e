#!/usr/bin/env python3
"""mut.py CHECKS cfgs file 'old' 'new' [file old new ...]   or  mut.py CHECKS cfgs --patch P"""
import sys,os,subprocess,shutil
checks=sys.argv[1].split(','); cfgs=sys.argv[2].split(','); rest=sys.argv[3:]
R='/tmp/mrepo'
subprocess.run(['rsync','-a','--delete','--exclude','target','--exclude','.git','/repo/',R],check=True) if shutil.which('rsync') else (subprocess.run(f'mkdir -p {R}; cd /repo && git ls-files -z | cpio -0pdmu {R} 2>/dev/null',shell=True))
if rest and rest[0]=='--patch':
    subprocess.run(['patch','-p1','-s','-i',rest[1]],cwd=R,check=True)
else:
    for i in range(0,len(rest),3):
        p=f'{R}/{rest[i]}'; s=open(p).read(); assert rest[i+1] in s,('missing',rest[i],rest[i+1][:60]); open(p,'w').write(s.replace(rest[i+1],rest[i+2],1))
env=dict(os.environ,REPO_DIR=R,FACTS_TARGET='/tmp/mtarget')
r=subprocess.run(['/verif/tools/extract.sh','/tmp/mfacts',*cfgs],env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
if r.returncode: print('EXTRACT FAIL',r.stdout[-1500:]); sys.exit(1)
for k in 'ABC':
    if k not in cfgs:
        for c in('core','editor','renderer'):
            for d in('/verif/.cache/facts',):
                a=f'{d}/ass_{c}.{k}.jsonl'
                if os.path.exists(a): shutil.copy(a,'/tmp/mfacts/')
for c in checks:
    r=subprocess.run([sys.executable,'/verif/check.py',c],env=dict(os.environ,FACTS_REUSE='/tmp/mfacts'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    print('==',c,'exit',r.returncode); print('\n'.join(l[:260] for l in r.stdout.splitlines() if not l.startswith(c+':'))[:1500])
