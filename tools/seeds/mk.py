#!/usr/bin/env python3
"""mk.py ID...: makes /verif/seeded/ID from tools/seeds/ID.txt and confirms it in a scratch copy.
Format of ID.txt: lines 'property:', 'needs:', 'breaks:', then blocks
'@@ file' + old + '==' + new, and '## demo' + the body of main."""
import sys,os,re,subprocess,json,shutil
V='/verif'; S='/tmp/seedwork'
ENV=dict(os.environ,RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',CARGO_NET_OFFLINE='true',CARGO_INCREMENTAL='1',CARGO_PROFILE_DEV_DEBUG='line-tables-only')
def sh(c,cwd=None):
    p=subprocess.run(c,shell=True,cwd=cwd,env=ENV,capture_output=True,text=True); return p.returncode,p.stdout+p.stderr
def original(f,patch):
    """Every removed line must come from the first commit."""
    rc,blame=sh('git blame -s HEAD -- '+f,cwd='/repo')
    base=sh('git rev-list --max-parents=0 HEAD',cwd='/repo')[1].strip()[:7]
    lines=blame.split('\n')
    bad=[]; n=0; any_=False
    for l in patch.split('\n'):
        m=re.match(r'@@ -(\d+)',l)
        if m: n=int(m.group(1)); continue
        if l.startswith('---') or l.startswith('+++') or l.startswith('diff') or l.startswith('index'): continue
        if l.startswith('-'):
            any_=True
            if not lines[n-1].startswith('^'+base) : bad.append(lines[n-1])
            n+=1
        elif l.startswith(' '): n+=1
    return bad,any_
def make(i):
    t=open(V+'/tools/seeds/%s.txt'%i).read()
    head,demo=t.split('## demo\n'); 
    meta={}
    for k,key in (('property','property'),('needs','needs'),('breaks','what_it_breaks')):
        meta[key]=re.search(r'^%s: (.*)$'%k,head,re.M).group(1)
    if not os.path.isdir(S): subprocess.check_call(['cp','-a','/repo',S])
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD',cwd=S)
    blocks=re.split(r'^@@ (.*)\n',head,flags=re.M)[1:]
    for f,b in zip(blocks[::2],blocks[1::2]):
        old,new=b.split('\n==\n'); old=old.rstrip('\n'); new=new.rstrip('\n')
        s=open(S+'/'+f).read()
        if s.count(old)!=1: print(i,'FAIL: %d matches in %s'%(s.count(old),f)); return False
        open(S+'/'+f,'w').write(s.replace(old,new))
    patch=sh('git diff',cwd=S)[1]
    for f in blocks[::2]:
        p=sh('git diff -- '+f,cwd=S)[1]
        bad,any_=original(f,p)
        if bad: print(i,'WARNING not original:',bad)
        if not any_: print(i,'WARNING: only additions in',f)
    d=V+'/seeded/'+i; os.makedirs(d,exist_ok=True)
    shutil.copy(V+'/tools/seeds/vol.rs',d); shutil.copy(V+'/tools/seeds/demo.sh',d); os.chmod(d+'/demo.sh',0o755)
    open(d+'/main.rs','w').write('mod vol;\n#[allow(unused_imports)]\nuse vol::*;\n\n'+demo)
    open(d+'/patch.diff','w').write(patch); json.dump(meta,open(d+'/meta.json','w'),indent=1)
    rc,o=sh('cargo build --offline --no-default-features && cargo test --workspace --all-features --offline 2>&1',cwd=S)
    ok=rc==0
    if not ok: print(o[-2500:])
    rp,op=sh('bash %s/demo.sh'%d,cwd=S)
    rc,oc=sh('bash %s/demo.sh'%d,cwd='/repo')
    good=ok and rp==101 and rc==0
    print(i,'OK' if good else 'FAIL','tests',ok,'patched',rp,'clean',rc)
    print('   ',[l for l in op.split('\n') if 'panicked' in l or 'left' in l or 'right' in l or 'error' in l][:4])
    if rc: print(oc[-2500:])
    if rp==3: print(op[-2500:])
    sh('git checkout -q -- .',cwd=S)
    return good
r=[make(i) for i in sys.argv[1:]]
sys.exit(0 if all(r) else 1)
