"""mkseed.py ID PROP FILE  <<< sections separated by lines: ---old ---new (repeat, optionally ---file path) ---needs ---breaks ---demo"""
import sys,os,subprocess,shutil,json,re
sid,prop,fn=sys.argv[1:4]
txt=sys.stdin.read()
parts=re.split(r'^---(\w+)(?: (\S+))?\n',txt,flags=re.M)[1:]
secs=[(parts[i],parts[i+1],parts[i+2]) for i in range(0,len(parts),3)]
S='/tmp/seedw/%s'%sid
shutil.rmtree(S,ignore_errors=True); os.makedirs(S)
subprocess.run('cd /repo && git archive HEAD | tar x -C %s'%S,shell=True,check=True)
subprocess.run('cd %s && git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm b'%S,shell=True,check=True)
cur=fn; old=None; meta={"property":prop}; demo=None
for k,a,b in secs:
    if k=='file': cur=a
    elif k=='old': old=b
    elif k=='new':
        p=os.path.join(S,cur); s=open(p).read()
        assert s.count(old)==1,(cur,s.count(old),old)
        open(p,'w').write(s.replace(old,b))
    elif k=='needs': meta['needs']=' '.join(b.split())
    elif k=='breaks': meta['what_it_breaks']=' '.join(b.split())
    elif k=='demo': demo=b
D='/verif/seeded/%s'%sid
shutil.rmtree(D,ignore_errors=True); os.makedirs(D)
d=subprocess.run('cd %s && git diff'%S,shell=True,capture_output=True,text=True).stdout
open(D+'/patch.diff','w').write(d)
json.dump(meta,open(D+'/meta.json','w'),indent=1)
open(D+'/demo.py','w').write(demo)
open(D+'/demo.sh','w').write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 TQDM_DISABLE=1 CUDA_VISIBLE_DEVICES= HF_HUB_OFFLINE=1 HF_DATASETS_OFFLINE=1\nexec timeout 250 /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
os.chmod(D+'/demo.sh',0o755)
def demo_rc(cwd):
    r=subprocess.run(['bash',D+'/demo.sh'],cwd=cwd,capture_output=True,text=True)
    return r.returncode,(r.stdout+r.stderr)[-300:]
a=demo_rc('/repo'); b=demo_rc(S)
print(sid,'demo clean',a[0],'' if a[0]==0 else a[1],'| patched',b[0],b[1][-160:].replace('\n',' / '))
if '-nocheck' not in sys.argv:
    r=subprocess.run('cd /verif && VERIF_REPO=%s timeout 880 python3-vt check.py %s'%(S,prop),shell=True,capture_output=True,text=True)
    print('   check rc',r.returncode,[l[:220] for l in r.stdout.splitlines() if l.startswith(('VIOL','P'))][-2:])
    und=[l[:150] for l in r.stdout.splitlines() if 'undischarged' in l]
    print('   und',len(und),und[:1])
    print('   ',[l[:150] for l in r.stdout.splitlines() if 'runtime' in l.lower() and 'fail' in l.lower()][:2])
