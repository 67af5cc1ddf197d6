#!/bin/bash
# q.sh ENTRY PARAMS [opts]: one-line result of a run by hand
cd /verif; e=$1; p=$2; shift 2
timeout 1000 tools/one.sh $e $p "$@" > /tmp/q.$$; python3 - "$e $p" /tmp/q.$$ <<'P'
import sys,re
t=open(sys.argv[2]).read()
w=re.search(r"'wall_s': ([\d.]+)",t);p=re.search(r"'paths': (\d+)",t);r=re.search(r"'reach': ({.*?})",t);c=re.search(r"'checks': (\d+).*?'checks_smt': (\d+)",t);s=re.search(r"'solver_s': ([\d.]+)",t)
print(sys.argv[1],'wall',w and w[1],'paths',p and p[1],'checks',c and c.groups(),'solver',s and s[1],r and r[1],re.findall(r'exit \d',t))
for l in [l[:500] for l in t.splitlines() if l.startswith(('VIOL','ERR'))][:6]: print('   ',l)
P
rm -f /tmp/q.$$
