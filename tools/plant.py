#!/usr/bin/env python3
"""Confirms planted bugs: plant.py ID... [--checks C01,C02] [--all]
For each seeded/<id>: applies patch.diff to /repo, builds, runs the stable tests, runs demo.sh (must fail; must pass
without the patch), runs the check of its property (or the given ones) in quick tier, and undoes the patch."""
import sys, subprocess, json, os
V='/verif'
sh=lambda c,**k: subprocess.run(c,shell=True,capture_output=True,text=True,**k)
args=[a for a in sys.argv[1:] if not a.startswith('--')]
checks=None
for a in sys.argv[1:]:
    if a.startswith('--checks='): checks=a[9:].split(',')
man={c['property']:c for c in json.load(open(V+'/MANIFEST.json'))['checks']}
if '--all' in sys.argv: checks=list(man)
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
assert len(base)>100
def tests():
    sh('bash /opt/vp/test.sh /tmp/plant.json',cwd='/repo')
    r=json.load(open('/tmp/plant.json'))
    return r
for i in args:
    d=f'{V}/seeded/{i}'
    assert not sh('git status --porcelain',cwd='/repo').stdout.strip(),'repo dirty'
    prop=json.load(open(d+'/meta.json'))['property']
    nodemo='--nodemo' in sys.argv
    ok0=None if nodemo else sh(f'bash {d}/demo.sh',cwd='/repo').returncode
    r=sh(f'git apply {d}/patch.diff',cwd='/repo')
    if r.returncode: print(i,'PATCH DOES NOT APPLY',r.stderr); continue
    try:
        line=[i,prop,f'demo clean={ok0}']
        if '--notest' not in sys.argv:
            b=sh('bash /opt/vp/build.sh',cwd='/repo')
            line.append('build='+('ok' if b.returncode==0 else 'FAILED '+b.stderr[-800:]))
            r=tests()
            passed=set(r.get('passed',[])); failed=r.get('failed',[])
            missing=[t for t in base if t not in passed]
            line.append(f'tests missing={len(missing)} {missing[:3]}')
        if not nodemo:
            x=sh(f'bash {d}/demo.sh',cwd='/repo'); line.append(f'demo patched={x.returncode} [{(x.stderr.strip().splitlines() or [""])[-1][:150]}]')
        for c in checks or ([prop] if prop in man else []):
            x=sh(man[c]['quick_cmd'],cwd=V)
            vs=[l for l in x.stdout.splitlines() if l.startswith('VIOLATION')]
            if x.returncode or checks is None or prop==c: line.append(f'{c}: exit {x.returncode} violations {len(vs)} {vs[:1]}')
        print(' | '.join(line),flush=True)
    finally:
        sh('git checkout -- .',cwd='/repo')
