#!/bin/bash
# confirm.sh ID...: a planted bug builds, passes the stable tests, and its demo
# passes without and fails with the patch (in a scratch copy used as /repo).
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
for id in "$@"; do
  S=/verif/seeded/$id W=$(mktemp -d /tmp/confirm.XXXX)
  cp -a /repo $W/repo; mkdir $W/d; cp $S/* $W/d/; rm -f $W/d/patch.diff $W/d/meta.json
  cd $W/repo
  bash $W/d/demo.sh >$W/o1 2>&1; a=$?
  if ! git apply $S/patch.diff; then echo "$id: DOES NOT APPLY"; continue; fi
  go build ./... || { echo "$id: DOES NOT BUILD"; }
  go test -json -vet=off -count=1 ./... > $W/log 2>&1
  python3 - $W/log <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))
def names(o):
    if isinstance(o,dict):
        for k,v in o.items():
            yield from names(v)
    elif isinstance(o,list):
        for v in o:
            if isinstance(v,str): yield v
            else: yield from names(v)
fails=set()
for l in open(sys.argv[1]):
    try: d=json.loads(l)
    except: continue
    if d.get('Action')=='fail' and d.get('Test'): fails.add(d['Test'])
bl=' '.join(names(b))
bad=[f for f in fails if f in bl]
if bad: print('STABLE TESTS FAIL',bad)
P
  bash $W/d/demo.sh >$W/o2 2>&1; b=$?
  echo "$id: clean=$a patched=$b $([ $a = 0 ] && [ $b != 0 ] && echo OK || { echo BAD; tail -5 $W/o1 $W/o2; })"
  rm -rf "$W"
done
