#!/bin/bash
# seedcheck.sh ID [PROP...]: confirm planted bug /verif/seeded/ID in a scratch copy of /repo that is
# bind-mounted over /repo in a private mount namespace; with PROPs, also run those checks on it.
id=$1; shift
d=/verif/seeded/$id
s=/tmp/seedcopy-$id-$$
rm -rf "$s"; mkdir -p "$s"; cp -a /repo "$s/repo"; cp -a "$d" "$s/seed"; rm -f "$s"/seed/*.diff "$s/seed/meta.json"
cat > $s/in.sh <<X
mount --bind $s/repo /repo || exit 9
cd /repo
mkdir -p $s/t; export TMPDIR=$s/t
bash $s/seed/demo.sh >$s/demo0.log 2>&1; echo "demo unchanged: \$?"
git apply $d/patch.diff || { echo "patch does not apply"; exit 1; }
# which commits do the changed lines come from?
root=\$(git rev-list --max-parents=0 HEAD)
python3 - <<'P'
import subprocess,re
o=subprocess.run(['git','diff','-U0'],capture_output=True,text=True,errors='replace').stdout
root=subprocess.run(['git','rev-list','--max-parents=0','HEAD'],capture_output=True,text=True).stdout.strip()
f=None;n=0;own=0
for l in o.split('\n'):
    m=re.match(r'--- a/(.*)',l)
    if m: f=m.group(1)
    m=re.match(r'@@ -(\d+)(?:,(\d+))?',l)
    if m and f:
        a=int(m.group(1));c=int(m.group(2) or 1)
        for k in range(a,a+c):
            b=subprocess.run(['git','blame','-l','-L','%d,%d'%(k,k),'HEAD','--',f],capture_output=True,text=True,errors='replace').stdout
            n+=1
            if not b.lstrip('^').startswith(root[:30]): own+=1
print('changed lines:',n,'of which not original:',own)
P
bash /opt/vp/test.sh $s/out.json >$s/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('$s/out.json'))
m=set(b['stable'])-set(o['passed'])
print('tests:',len(o['passed']),'passed; stable missing:',sorted(m)[:5])
P
bash $s/seed/demo.sh >$s/demo1.log 2>&1; echo "demo patched: \$?"
tail -3 $s/demo1.log
for p in $*; do
 ( cd /verif; VERIF_BUILD=$s/build timeout 900 python3 run.py \$p quick 2>&1 | cut -c1-400 | tail -7; echo "check \$p: \${PIPESTATUS[0]}" )
done
X
unshare -Urm bash $s/in.sh
rm -rf "$s"
