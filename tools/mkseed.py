"""seed.py ID PROP 'needs' 'breaks' EDITS.py DEMO.rs : make a seeded bug.
EDITS: python file with list E=[(file, old, new)].  DEMO.rs: main.rs of a demo program using cmacro."""
import sys,os,subprocess,json,shutil
sid,prop,needs,breaks,edits,demo=sys.argv[1:7]
W='/repo'
sh=lambda c: subprocess.check_output(c,shell=True,text=True)
assert sh('git -C /repo status --porcelain')=='' , 'repo dirty'
g={}; exec(open(edits).read(),g)
try:
  for f,o,n in g['E']:
    p=os.path.join(W,f); s=open(p).read()
    assert s.count(o)==1,(f,o,s.count(o))
    open(p,'w').write(s.replace(o,n))
  d=sh('cd %s && git diff'%W)
finally:
  sh('git -C /repo checkout -- .')
D='/verif/seeded/'+sid
os.makedirs(D,exist_ok=True)
open(D+'/patch.diff','w').write(d)
shutil.copy(demo,D+'/demo.rs')
open(D+'/demo.sh','w').write('''#!/bin/bash
# usage: run with cwd = the repository, after its build.  Exit 0: behaviour intact.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$here/Cargo.lock.demo" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
cmacro = { path = "$PWD" }
proc-macro2 = "1"
quote = "1"
syn = "2"
[workspace]
EOF
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true
cargo run --offline --quiet --manifest-path "$work/Cargo.toml"
''')
open(D+'/Cargo.lock.demo','w').write(open('/verif/harness/Cargo.lock').read().replace('vharness','demo'))
os.chmod(D+'/demo.sh',0o755)
json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(D+'/meta.json','w'),indent=1)
r0=subprocess.run(['bash',D+'/demo.sh'],cwd=W,capture_output=True,text=True)
try:
  sh('git -C /repo apply '+D+'/patch.diff')
  t=subprocess.run('bash /tmp/t.sh 2>&1 | tail -1',shell=True,capture_output=True,text=True).stdout.strip()
  r1=subprocess.run(['bash',D+'/demo.sh'],cwd=W,capture_output=True,text=True)
  res=[]
  for c in [prop]+sys.argv[7:]:
    rc=subprocess.run(['python3','/verif/tools/check.py',c],cwd='/verif',capture_output=True,text=True)
    res.append((c,rc.returncode,[l[:300] for l in rc.stdout.split('\n') if l.startswith('VIOLATION') or 'violation:' in l or 'ERROR' in l][:2]))
finally:
  sh('git -C /repo checkout -- .')
print('tests',t)
print('patched rc',r1.returncode,(r1.stdout+r1.stderr)[-200:],'| clean rc',r0.returncode,(r0.stdout+r0.stderr)[-500:] if r0.returncode else '')
for x in res: print(x)
print('SEED', sid, 'OK' if r1.returncode!=0 and r0.returncode==0 and "'passed': 97" in t else 'NOT OK', 'CAUGHT' if res[0][1]==1 else 'MISSED')
