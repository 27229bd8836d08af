#!/usr/bin/env python3
"""Run the registered quick check of each planted bug's property against the bug. usage: trial.py [id ...] [--all PROP..] """
import json, os, subprocess, sys, shutil, tempfile
def sh(c, **k): return subprocess.run(['bash', '-c', c], capture_output=True, text=True, **k)
ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir('/verif/seeded'))
d = tempfile.mkdtemp(prefix='trial_', dir='/tmp')
try:
    sh(f'cp -a /repo {d}/r; mkdir {d}/v; cd /verif; git ls-files -z | grep -zv "^seeded/" | xargs -0 cp -a --parents -t {d}/v'); res = {}
    for i in ids:
        m = json.load(open(f'/verif/seeded/{i}/meta.json')); p = m['property']
        a = sh(f'git -C {d}/r checkout -q -- . ; git -C {d}/r apply /verif/seeded/{i}/patch.diff')
        if a.returncode: print(i, 'PATCH FAILS', a.stderr[:200], flush=True); continue
        r = sh(f"unshare -m bash -c 'mount --bind {d}/r /repo && mount --bind {d}/v /verif && cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 check.py {p} --tier quick'")
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        print(i, p, 'CAUGHT' if r.returncode == 1 and v else f'MISSED rc={r.returncode}', (r.stdout.strip().splitlines() or [''])[-1][:150], flush=True)
finally: shutil.rmtree(d, ignore_errors=True)
