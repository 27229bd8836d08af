#!/usr/bin/env python3
"""Confirm planted bugs and keep them under /verif/seeded.

usage: seed.py SEEDS.py [id ...]    SEEDS.py defines SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=C source, sh=optional)]
Each is built and tested in a private copy bound over /repo in its own mount namespace.
"""
import json, os, subprocess, sys, runpy, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
OUT = '/verif/seeded'; H = os.path.dirname(os.path.abspath(sys.argv[1]))
def sh(c, **k): return subprocess.run(['bash', '-c', c], capture_output=True, text=True, **k)
def one(s):
    d = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    try:
        sh(f'git -C /repo archive HEAD | tar -x -C {d} --one-top-level=r; cp -a /repo/.git {d}/r/; for x in configure Makefile.in src/Makefile.in test/Makefile.in aclocal.m4 build-aux _build autom4te.cache; do [ -e /repo/$x ] && cp -a /repo/$x {d}/r/$x; done; cp -a /repo/. {d}/r/')
        r = d + '/r'; sh(f'git -C {r} checkout -q -- .; git -C {r} status --short')
        dd = d + '/demo'; os.mkdir(dd)
        if s.get('sh'): open(dd + '/demo.sh', 'w').write(s['sh'])
        else: shutil.copy(H + '/demo.sh', dd)
        if s.get('demo'): shutil.copy(H + '/demo.h', dd); open(dd + '/demo.c', 'w').write('#include "demo.h"\n' + s['demo'].strip() + '\n')
        for k, v in s.get('files', {}).items(): open(dd + '/' + k, 'w').write(v)
        os.chmod(dd + '/demo.sh', 0o755)
        ns = lambda c: sh(f"unshare -m bash -c 'mount --bind {r} /repo && cd /repo && {c}'", timeout=900)
        a = ns(f'bash {dd}/demo.sh')
        if a.returncode: return s['id'], 'demo fails on the unchanged tree: ' + (a.stdout + a.stderr)[-600:]
        for f, old, new in s['edits']:
            p = f'{r}/{f}'; t = open(p).read()
            if t.count(old) != 1: return s['id'], f'{f}: {t.count(old)} matches for {old[:60]!r}'
            open(p, 'w').write(t.replace(old, new))
        diff = sh(f'git -C {r} diff').stdout; open(dd + '/patch.diff', 'w').write(diff)
        b = ns(f'bash /opt/vp/build.sh >{d}/b.log 2>&1 && bash /opt/vp/test.sh {d}/t.json >/dev/null 2>&1; true')
        try: t = json.load(open(d + '/t.json'))
        except Exception: return s['id'], 'no build: ' + open(d + '/b.log').read()[-800:]
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); miss = sorted(base - set(t['passed']))
        if miss: return s['id'], f'{len(miss)} tests fail: {miss[:6]}'
        a = ns(f'bash {dd}/demo.sh')
        if not a.returncode: return s['id'], 'demo passes with the change'
        if a.returncode == 3: return s['id'], 'demo does not build: ' + a.stderr[-500:]
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(dd + '/meta.json', 'w'), indent=1)
        o = f"{OUT}/{s['id']}"; shutil.rmtree(o, ignore_errors=True); shutil.copytree(dd, o)
        return s['id'], 'ok: ' + (a.stdout + a.stderr).strip().replace('\n', ' | ')[-160:]
    except Exception as e: return s['id'], 'exception ' + repr(e)
    finally: shutil.rmtree(d, ignore_errors=True)
S = runpy.run_path(sys.argv[1])['SEEDS']
if len(sys.argv) > 2: S = [s for s in S if s['id'] in sys.argv[2:]]
os.makedirs(OUT, exist_ok=True)
with ThreadPoolExecutor(3) as ex:
    for i, m in ex.map(one, S): print(i, m, flush=True)
