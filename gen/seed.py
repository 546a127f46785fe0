# seed.py: helper to write a planted bug.  seed(id, prop, needs, breaks, edits, main)
import sys,subprocess,os,textwrap
sys.path.insert(0,'/verif/gen')
from sededit import edit
def seed(id,prop,needs,breaks,edits,main,tryit=True):
    subprocess.run(['git','-C','/tmp/seedrepo','checkout','-q','--','.'],check=True)
    for f,e in edits.items(): edit(f,e)
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    open(d+'/main.go','w').write(textwrap.dedent(main).lstrip())
    subprocess.run(['gofmt','-w',d+'/main.go'],env=dict(os.environ,PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH']))
    # at least one removed line must be original
    diff=subprocess.run(['git','-C','/tmp/seedrepo','diff','-U0'],capture_output=True,text=True).stdout
    import re
    f=None; orig=0; mine=0
    base=subprocess.run('git -C /repo log --format=%H | tail -1',shell=True,capture_output=True,text=True).stdout.strip()
    for l in diff.split('\n'):
        if l.startswith('--- a/'): f=l[6:].strip()
        m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
        if m:
            a=int(m[1]); n=int(m[2]) if m[2] else 1
            for k in range(a,a+n):
                b=subprocess.run(['git','-C','/repo','blame','-s','-L',f'{k},{k}','--',f],capture_output=True,text=True).stdout
                if b.startswith('^'): orig+=1
                else: mine+=1
    print(id,'original lines changed',orig,'mine',mine,flush=True)
    if not orig: print('  NO ORIGINAL LINE'); return
    r=subprocess.run(['/verif/gen/mkseed.sh',id,prop,needs,breaks],capture_output=True,text=True)
    print(r.stdout[-600:],r.stderr[-600:],flush=True)
    if r.returncode: print('  FAILED'); subprocess.run(['rm','-rf',d]); return
    if tryit:
        r=subprocess.run(['/verif/gen/tryseed.sh',id],capture_output=True,text=True); print(r.stdout[-300:],r.stderr[-300:],flush=True)
