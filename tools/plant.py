#!/usr/bin/env python3
"""plant.py SPEC...: makes /verif/seeded/<id>/ from specification files, after confirming in scratch copies that the
change builds, passes the tests, and that the demonstration tells it from the unchanged tree.

A specification is a Python file that sets PROP, FILE, EDITS [(old, new)] (or MORE {file: edits}), NEEDS, BREAKS, DEMO
and ZKP (whether the demonstration needs the stand-in for secp256k1-zkp); its name is the id."""
import json
import os
import shutil
import subprocess
import sys

V = '/verif'
PY = '/opt/venv/bin/python'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def plant(spec):
    pid = os.path.splitext(os.path.basename(spec))[0]
    ns = {}
    exec(open(spec).read(), ns)
    work = '/tmp/pb/%s' % pid
    shutil.rmtree(work, True)
    for d in ('a', 'b'):
        os.makedirs('%s/%s' % (work, d))
        sh('git -C /repo archive HEAD | tar x -C %s/%s' % (work, d))
    edits = dict(ns.get('MORE', {}))
    if 'FILE' in ns:
        edits[ns['FILE']] = ns['EDITS']
    for f, es in edits.items():
        p = '%s/b/%s' % (work, f)
        s = open(p).read()
        for old, new in es:
            assert s.count(old) == 1, '%s: %d matches of %r' % (pid, s.count(old), old)
            s = s.replace(old, new)
        open(p, 'w').write(s)
    dst = '%s/seeded/%s' % (V, pid)
    shutil.rmtree(dst, True)
    os.makedirs(dst)
    open(dst + '/demo.py', 'w').write(ns['DEMO'].lstrip('\n'))
    open(dst + '/demo.sh', 'w').write('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nPYTHONDONTWRITEBYTECODE=1 exec %s "$d/demo.py"\n' % PY)
    os.chmod(dst + '/demo.sh', 0o755)
    if ns.get('ZKP', True):
        shutil.copy(os.path.dirname(spec) + '/demolib.py', dst)
        shutil.copy(V + '/native/simzkp.c', dst)
    json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
              open(dst + '/meta.json', 'w'), indent=1)
    patch = sh('cd %s && git diff --no-index --no-color a b' % work).stdout
    open(dst + '/patch.diff', 'w').write(patch.replace('a/a/', 'a/').replace('b/b/', 'b/'))
    r = sh('git -C /repo apply --check %s/patch.diff' % dst)
    assert r.returncode == 0, r.stdout
    for lib in ('', 'ELEMENTSTX_TESTS_SECP256K1_PATH=/verif/build/libsimzkp.so '):
        r = sh('cd %s/b && %sPYTHONPATH=. PYTHONDONTWRITEBYTECODE=1 %s -m pytest -q -p no:cacheprovider elementstx 2>&1 | tail -1' % (work, lib, PY))
        if not lib and 'failed' in r.stdout:
            shutil.rmtree(dst)
            print('%s BREAKS TESTS' % pid)
            return
        print('  tests%s: %s' % (' (zkp)' if lib else '', r.stdout.strip()[-90:]))
    res = []
    for d in ('a', 'b'):
        r = sh('cd %s/%s && bash %s/demo.sh' % (work, d, dst))
        res.append(r.returncode)
        print('  demo %s: %d %s' % (d, r.returncode, r.stdout.strip()[-200:]))
    good = res[0] == 0 and res[1] != 0
    checks = ns.get('CHECKS', [ns['PROP']])
    for c in checks:
        r = sh('VERIF_REPO=%s/b VERIF_SCALE=%s %s/run_check.py %s quick 2>&1 | cut -c1-220 | tail -4' % (work, os.environ.get('SCALE', '1'), V, c))
        o = r.stdout.strip()
        print('  %s: %s' % (c, 'CAUGHT ' + [x for x in o.splitlines()][0] if 'VIOLATION' in o else 'MISSED ' + o[-200:]))
    print('%s %s' % (pid, 'ok' if good else 'BAD DEMO'))
    if not good:
        shutil.rmtree(dst, True)
    shutil.rmtree(work, True)


for s in sys.argv[1:]:
    print(os.path.basename(s))
    try:
        plant(os.path.abspath(s))
    except AssertionError as e:
        print('  ERROR', e)
