#!/bin/bash
# one.sh ENTRY PARAMS [engine options]: run one entry by hand (IR must be built: irbuild.py ll work/dev.ll ENTRIES)
cd /verif; e=$1; p=$2; shift 2
engine/target/release/symx work/dev.ll $e --params $p --out work/dev.json "$@"; echo "exit $?"
python3 - <<'P'
import json;j=json.load(open('/verif/work/dev.json'));j['nf']=len(j.pop('functions'))
for s in j.pop('samples')[:3]: print('SAMPLE',[ (a,bytes.fromhex(h)) for a,k,h in s['inputs']], s['reach'])
vs=j.pop('violations')
seen={}
for v in vs:
    n=seen.get(v['sig'],0); seen[v['sig']]=n+1
    if n<3: print('VIOL',v['sig'],v['count'],[ (a,bytes.fromhex(h)) for a,k,h in v['inputs']], v['detail'][:160])
print({k:v for k,v in j.items() if k not in('errors',)})
for e in j['errors'][:3]: print('ERR',e[:1500])
P
