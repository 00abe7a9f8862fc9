#!/bin/bash
# usage: scratch_test.sh DIR  -- runs the repository's tests in a scratch copy DIR, prints stable tests that fail
D=$(realpath "$1"); M=/verif/.work/go/fizzbee.mod
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=
R=$(mktemp -d); mkdir -p $R/rf; ln -sfn $D $R/rf/_main; export RUNFILES_DIR=$R/rf TMPDIR=$R
cd $D && go build -modfile=$M ./... || { echo BUILD FAILED; exit 3; }
go test -modfile=$M -json -vet=off -count=1 -timeout 10m ./... > $R/log 2>/dev/null
python3 - $R/log <<'P'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json'))
st=base['stable']; res={}; out={}
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Test') and e.get('Action') in('pass','fail','skip'):
        res[e['Package']+'::'+e['Test']]=e['Action']
    if e.get('Test') and e.get('Action')=='output': out.setdefault(e['Package']+'::'+e['Test'],[]).append(e['Output'])
bad=[t for t in st if not any((k==t or k.replace('::','/')==t or k.endswith(t)) and v=='pass' for k,v in res.items())]
print(len(st),'stable;',len(bad),'not passing'); 
for b in bad: print('  ',b)
P
rc=$?; rm -rf "$R"; exit $rc
