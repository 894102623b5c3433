#!/bin/bash
# seedcheck.sh ID...: confirms planted bugs in a scratch copy: applies, builds, passes the stable tests, demo 0 without and nonzero with.
. /opt/vp/env.sh
for ID in "$@"; do
S=/verif/seeded/$ID
W=$(mktemp -d /tmp/seedwt.XXXX)
git -C /repo archive HEAD | tar -x -C $W
cp -a $S $W.demo; rm -f $W.demo/*.diff $W.demo/meta.json
# the demo runs with cwd = the copy
sed -i "s#/repo#$W#g" $W.demo/demo.sh
(cd $W && bash $W.demo/demo.sh >$W.o1 2>&1); a=$?
(cd $W && git init -q . 2>/dev/null; git apply --whitespace=nowarn $S/patch.diff) || echo "$ID: patch does not apply"
(cd $W && go build ./pkg/... ) || echo "$ID: does not build"
(cd $W && bash $W.demo/demo.sh >$W.o2 2>&1); b=$?
t=skipped
if [ -z "$NOTEST" ]; then
python3 - $W > $W.t 2>&1 <<'P'
import json,subprocess,sys,os
w=sys.argv[1]
names=json.load(open('/opt/vp/BASELINE.json'))['stable']
env=dict(os.environ); env['TMPDIR']=w+'.tmp'; os.makedirs(env['TMPDIR'],exist_ok=True)
clean=lambda: subprocess.run('rm -rf /tmp/badger /tmp/badger[0-9] /tmp/badger[0-9][0-9]',shell=True)
clean()
p=subprocess.run(['go','test','-json','-vet=off','-count=1','./pkg/...'],cwd=w,capture_output=True,text=True,env=env)
clean(); subprocess.run(['rm','-rf',env['TMPDIR']])
ok=set()
for l in p.stdout.splitlines():
    try: d=json.loads(l)
    except Exception: continue
    if d.get('Action')=='pass' and d.get('Test'): ok.add(d['Package']+'/'+d['Test'])
miss=[n for n in names if n not in ok]
print(len(names),'stable,',len(miss),'missing',miss[:5])
P
t=$(cat $W.t)
fi
echo "$ID: demo unchanged=$a patched=$b tests: $t"
[ $a != 0 ] && tail -5 $W.o1
[ -n "$VERBOSE" ] && tail -15 $W.o2
rm -rf $W $W.demo $W.o1 $W.o2 $W.t
done
