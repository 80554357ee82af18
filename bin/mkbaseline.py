#!/usr/bin/env python3
"""Writes units/baseline.tsv: names, loop kinds and loop directions of every function under contract, at the commit the contracts were written for."""
import json, subprocess, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
b = {}
for p in sorted(glob.glob(f'{V}/units/*.vu')):
    u = os.path.basename(p)[:-3]
    subprocess.run([f'{V}/target/vx/debug/vx', 'gen', '--unit', u, '--units', f'{V}/units', '--out', '/dev/null', '--meta', '/tmp/vxmeta.json'], check=True)
    for f in json.load(open('/tmp/vxmeta.json'))['fns']:
        if f['degraded']: print('degraded', u, f['id'], f['degraded'])
        b[f['id']] = (f['binders'], f['loops'], f['returns'], f['dirs'])
os.remove('/tmp/vxmeta.json')
open(f'{V}/units/baseline.tsv', 'w').write(''.join(f"{k}\t{' '.join(v[0])}\t{' '.join(v[1])}\t{v[2]}\t{' '.join(v[3])}\n" for k, v in sorted(b.items())))
print(len(b), 'functions')
