#!/usr/bin/env python3
"""run_check.py <property id> quick|thorough
   run_check.py replay <file>
   run_check.py probe <property id> <scale>    until the first violation
   run_check.py determinism <property id> [n]
   run_check.py seed <property id> <seed>      one run, with its trace
   run_check.py setup"""

import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
if not os.path.exists(PY):
    PY = sys.executable


def reexec():
    repo = os.environ.get('VERIF_REPO', '/repo')
    env = dict(os.environ)
    env['VERIF_REPO'] = repo
    env['PYTHONPATH'] = repo + os.pathsep + ROOT
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONHASHSEED'] = os.environ.get('VERIF_HASHSEED', '0')
    env['VERIF_INNER'] = '1'
    env.pop('ELEMENTSTX_TESTS_SECP256K1_PATH', None)
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)


def main():
    if os.environ.get('VERIF_INNER') != '1':
        reexec()
    os.environ.pop('VERIF_INNER')
    sys.path.insert(0, ROOT)
    from sim import native
    native.build()
    if sys.argv[1:] == ['setup']:
        return 0
    from sim import engine
    engine.install_seams()
    import importlib

    def load(pid):
        try:
            engine.import_target()
            mod = importlib.import_module('props.' + pid.lower())
            if hasattr(mod, 'warmup'):
                mod.warmup()
        except engine.HarnessError:
            raise
        return mod

    cmd = sys.argv[1]
    if cmd == 'replay':
        return engine.replay(sys.argv[2], load)
    if cmd == 'seed':
        prop = load(sys.argv[2])
        r = engine.run_child(prop, int(sys.argv[3]), want_tape=True)
        for line in r.get('trace', []):
            print(line)
        print({k: v for k, v in r.items() if k not in ('trace', 'tape', 'labels', 'states')})
        return {'ok': 0, 'violation': 1}.get(r['status'], 2)
    if cmd == 'probe':
        # a few runs in one worker, until the first violation
        prop = load(sys.argv[2])
        base = int(sys.argv[2][1:]) * 100_000_000_000 + 10_000_000
        n = max(8, int(prop.RUNS['quick'] * float(sys.argv[3])))
        for r in engine.run_batch(prop, list(range(base, base + n)), 1, 240.0):
            if r['status'] != 'ok':
                print(r['status'], r['seed'], r.get('cls'), (r.get('msg') or '')[-300:].replace('\n', ' '))
                return 1 if r['status'] == 'violation' else 2
        return 0
    if cmd == 'determinism':
        prop = load(sys.argv[2])
        n = int(sys.argv[3]) if len(sys.argv) > 3 else 100
        for s in range(n):
            r = engine.run_child(prop, 777000 + s)
            print(s, r['status'], r['hash'])
        return 0
    return engine.check(load(cmd), sys.argv[2] if len(sys.argv) > 2 else 'quick')


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:      # noqa
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
