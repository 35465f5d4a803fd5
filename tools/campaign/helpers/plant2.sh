#!/bin/bash
# like plant.sh, but out of /verif
id=$1; d=/tmp/planted/$id
sed -e "s#d=\$V/seeded/\$id#d=/tmp/planted/\$id#" /verif/tools/plant.sh > /tmp/plant_tmp.sh
git -C /tmp/seed diff -U0 > /tmp/planted/$id.u0
cd /tmp/seed; python3 - <<'P'
import re,subprocess
f=None
for l in open('/tmp/planted/%s.u0'%__import__('os').environ.get('PID','x') ) if False else []: pass
P
bash /tmp/plant_tmp.sh $id
python3 - $id <<'P'
import re,subprocess,sys
f=None; bad=0
for l in open(f'/tmp/planted/{sys.argv[1]}.u0'):
    if l.startswith('--- a/'): f=l[6:].strip()
    m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
    if m:
        a=int(m[1]); n=int(m[2] or 1)
        if n==0: print('pure insertion at',f,a); continue
        o=subprocess.run(['git','blame','-s','-L',f'{a},{a+n-1}','HEAD','--',f],cwd='/tmp/seed',capture_output=True,text=True).stdout
        for r in o.splitlines():
            c=r.split()[0]
            ok=c.startswith('^')
            if not ok: bad+=1; print('NOT ORIGINAL',r)
print('original' if not bad else 'BAD')
P
