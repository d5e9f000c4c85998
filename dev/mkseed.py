"""mkseed.py NAME: reads /tmp/seedwork/NAME.py (defines PROP, FILE edits, NEEDS, BREAKS, DEMO) ; builds seeded dir and verifies."""
import sys, os, subprocess, json, shutil, runpy
name=sys.argv[1]
d=runpy.run_path(f'/tmp/seedwork/{name}.py')
wt=f'/tmp/wt_{name}'
if os.path.exists(wt): shutil.rmtree(wt)
subprocess.run(['cp','-a','/repo',wt],check=True)
subprocess.run(['git','-C',wt,'checkout','-q','--','.'],check=True)
for f,old,new in d['EDITS']:
    p=os.path.join(wt,f); s=open(p).read()
    assert s.count(old)==1,(f,s.count(old),old)
    open(p,'w').write(s.replace(old,new))
diff=subprocess.run(['git','-C',wt,'diff'],capture_output=True,text=True).stdout
assert diff
out=f'/verif/seeded/{name}'
os.makedirs(out,exist_ok=True)
open(out+'/patch.diff','w').write(diff)
open(out+'/demo.py','w').write(d['DEMO'].lstrip('\n'))
open(out+'/demo.sh','w').write('''#!/bin/bash
# exit 0 if the property holds for this example
DIR=$(cd "$(dirname "$0")" && pwd)
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
export PYTHONPATH="$PWD" SCRATCH="$W"
cd "$W" && timeout 200 /opt/venv/bin/python "$DIR/demo.py"
''')
os.chmod(out+'/demo.sh',0o755)
json.dump({'property':d['PROP'],'needs':d['NEEDS'],'what_it_breaks':d['BREAKS']},open(out+'/meta.json','w'),indent=1)
def demo(cwd):
    r=subprocess.run(['bash',out+'/demo.sh'],cwd=cwd,capture_output=True,text=True)
    return r.returncode,(r.stdout+r.stderr)[-600:]
a=demo('/repo'); b=demo(wt)
t=subprocess.run(['/opt/venv/bin/python','-m','pytest','-q','-n','8','-p','no:cacheprovider','--timeout=300','--randomly-seed=0','--randomly-dont-reorganize','tests'],cwd=wt,capture_output=True,text=True,env=dict(os.environ,PYTHONPATH=wt,PYTHONDONTWRITEBYTECODE='1',PYTHONHASHSEED='0',OPENBLAS_NUM_THREADS='1',OMP_NUM_THREADS='1'))
print(name,'unpatched',a[0],'patched',b[0],t.stdout.strip().splitlines()[-1])
if a[0]!=0: print(a[1])
if b[0]==0: print('NOT DETECTED BY DEMO',b[1])
elif '-v' in sys.argv: print(b[1])
if t.returncode: print(t.stdout[-1500:])
c=subprocess.run(['python3','/verif/check.py',d['PROP'],f'--repo={wt}'],capture_output=True,text=True)
print(name, d['PROP'],'check rc',c.returncode); print((c.stdout+c.stderr)[-1800 if '-v' in sys.argv else -500:])
if '-k' not in sys.argv: shutil.rmtree(wt)
