#!/usr/bin/env python3
"""Plant a bug: spec file -> /verif/seeded/<id>/, then confirm it.

usage: plant.py SPEC.py [--notest] [--check Cxx,...]
A spec defines ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO.
The patch is applied to /repo, the stable tests, the demonstration and the
property's quick check are run, and the patch is undone again.
"""
import json, os, pathlib, subprocess, sys, time, shutil
spec = {}
exec(open(sys.argv[1]).read(), spec)
notest = '--notest' in sys.argv
checks = [spec['PROP']]
if '--check' in sys.argv:
    checks = sys.argv[sys.argv.index('--check') + 1].split(',')
ID = spec['ID']
d = pathlib.Path('/verif/seeded') / ID
d.mkdir(parents=True, exist_ok=True)
R = '/repo'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


assert sh('git -C /repo status --porcelain').stdout == '', 'dirty /repo'
texts = {}
for f, old, new in spec['EDITS']:
    p = pathlib.Path(R) / 'OpenNTN' / f
    t = texts.get(p, p.read_text())
    assert t.count(old) == 1, (f, t.count(old), old)
    texts[p] = t.replace(old, new)
(d / 'demo.py').write_text(spec['DEMO'].lstrip())
(d / 'demo.sh').write_text('#!/bin/bash\n# exit 0: the property holds; nonzero: broken\n'
    'export TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES=-1\n'
    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
os.chmod(d / 'demo.sh', 0o755)
(d / 'meta.json').write_text(json.dumps(dict(property=spec['PROP'], needs=spec['NEEDS'],
    what_it_breaks=spec['BREAKS']), indent=1) + '\n')
res = {'id': ID}
r = sh(f'cd /repo && timeout 300 bash {d}/demo.sh')
res['demo_clean'] = r.returncode
if r.returncode:
    print(r.stdout[-1500:], r.stderr[-1500:])
try:
    for p, t in texts.items():
        p.write_text(t)
    (d / 'patch.diff').write_text(sh('git -C /repo diff').stdout)
    tp = None
    if not notest:
        out = f'/tmp/x/plant_{ID}.json'
        tp = subprocess.Popen(f'bash /opt/vp/test.sh {out} > /tmp/x/plant_{ID}.log 2>&1', shell=True)
    r = sh(f'cd /repo && timeout 300 bash {d}/demo.sh')
    res['demo_bug'] = r.returncode
    res['demo_msg'] = (r.stdout + r.stderr).strip().splitlines()[-1:] 
    for c in checks:
        t0 = time.time()
        r = sh(f'cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 /opt/venv/bin/python run.py {c} quick')
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        res['check_' + c] = (r.returncode, v[:1], round(time.time() - t0))
        if r.returncode not in (0, 1):
            print(r.stdout[-1500:], r.stderr[-1500:])
    if tp:
        tp.wait()
        base = json.load(open('/opt/vp/BASELINE.json'))
        got = json.load(open(out))
        b = base.get('passed', base.get('stable', base)) if isinstance(base, dict) else base
        g = set(got['passed'] if isinstance(got, dict) and 'passed' in got else [k for k, v in got.items() if v in ('passed', True, 'pass')])
        res['tests_broken'] = sorted(set(b) - g)[:5]
finally:
    sh('git -C /repo checkout -- .')
print(json.dumps(res))
open('/tmp/x/plant_results.jsonl', 'a').write(json.dumps(res) + '\n')
