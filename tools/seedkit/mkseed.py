#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)...], DEMO (rust main body file text).
Creates /verif/seeded/ID and confirms it in a scratch copy: builds, stable tests pass, demo 0 / nonzero."""
import sys, json, os, subprocess, shutil
spec={}; exec(open(sys.argv[1]).read(), spec)
ID=spec['ID']; d='/verif/seeded/'+ID
kit='/verif/tools/seedkit'
os.makedirs(d,exist_ok=True)
W='/tmp/seedwt/repo'
os.makedirs('/tmp/seedwt',exist_ok=True)
if not os.path.exists(W): subprocess.check_call(['cp','-a','/repo',W])
subprocess.check_call('git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD'%(W,W),shell=True)
for f,a,b in spec['EDITS']:
    p=W+'/'+f; s=open(p).read()
    # a planted bug has to change lines of the original repository, not of a later fix
    l0=s[:s.find(a)].count('\n')+1; l1=l0+a.rstrip('\n').count('\n')
    bl=subprocess.check_output(['git','-C',W,'blame','-s','-L%d,%d'%(l0,l1),f],text=True).splitlines()
    for x in bl:
        if not x.startswith('^'): print("NOTE not an original line:",x[:140])
    if s.count(a)!=1: sys.exit("edit does not match once (%d): %s"%(s.count(a),a[:80]))
    open(p,'w').write(s.replace(a,b))
diff=subprocess.check_output(['git','-C',W,'diff'],text=True)
open(d+'/patch.diff','w').write(diff)
for f in ('eng.rs','Cargo.lock','demo.sh'): shutil.copy(kit+'/'+f,d+'/'+f)
open(d+'/main.rs','w').write("mod eng;\nuse eng::*;\nuse hexodsp::*;\n"+spec['DEMO'])
json.dump({"property":spec['PROP'],"needs":spec['NEEDS'],"what_it_breaks":spec['BREAKS']},open(d+'/meta.json','w'),indent=1)
def demo(cwd):
    r=subprocess.run(['bash',d+'/demo.sh'],cwd=cwd,capture_output=True,text=True); return r.returncode,(r.stdout+r.stderr)[-600:]
rc,o=demo('/repo'); print("unpatched demo",rc, o if rc else "")
rc2,o2=demo(W); print("patched demo",rc2,o2[-300:])
ok = rc==0 and rc2!=0 and rc2!=9
if '--notest' not in sys.argv:
    env=dict(os.environ)
    # the test scripts work on /repo: apply there, undo afterwards
    subprocess.check_call(['git','-C','/repo','apply',d+'/patch.diff'])
    try:
        b=subprocess.run('bash /opt/vp/build.sh',shell=True,capture_output=True,text=True)
        t=subprocess.run('bash /opt/vp/test.sh /tmp/t.json',shell=True,capture_output=True,text=True)
        c=subprocess.run('python3 /tmp/cmp.py',shell=True,capture_output=True,text=True).stdout
        print("build",b.returncode,"tests",c[-300:])
        chk=subprocess.run('/verif/check.sh %s'%spec['PROP'],shell=True,capture_output=True,text=True)
        print("check",chk.returncode,"\n".join(l[:200] for l in chk.stdout.splitlines()[:4]))
        ok = ok and 'missing []' in c and b.returncode==0
        print("CAUGHT" if chk.returncode==1 and 'VIOLATION property='+spec['PROP'] in chk.stdout else "MISSED", ID)
    finally:
        subprocess.check_call(['git','-C','/repo','checkout','--','.'])
print("SEED-OK" if ok else "SEED-BAD",ID)
if not ok: sys.exit(1)
