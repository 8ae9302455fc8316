"""Development aid: functions of the expanded source that no contract table names."""
import sys, re, glob, json, subprocess, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prove
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fs = sorted(glob.glob(V + '/build/exp/*.rs'), key=os.path.getmtime)
pick = [[f for f in fs if os.path.basename(f).startswith(p + '-')][-1] for p in ('prima_undine', 'prima_undine_contrib', 'derive')]
open('/tmp/list.json', 'w').write('{"list":1}')
vx = glob.glob(V + '/build/vx/*/vx')[0]
keys = set(e['key'].replace('mem|', '').split('#')[0] for e in prove.FNS.values() if e['key'])
for l in subprocess.run([vx, '/tmp/list.json'] + pick, capture_output=True, text=True).stdout.splitlines():
    k, _, k2 = l.strip().partition('  ')
    if k not in keys and k2 not in keys: print(k, '|', k2)
