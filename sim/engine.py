"""Runs a property: many seeded executions, each in its own forked process."""

import hashlib
import json
import os
import random
import resource
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

from sim.tape import Sim, TapeSource, HarnessError, Violation

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CPU_LIMIT = 40          # seconds of CPU of one run (typical: well below 0.5)
WALL_LIMIT = 300        # a run that does not use CPU and does not end

_urandom_sim = [None]   # current run's entropy source
_real_urandom = os.urandom


class SimEntropy:
    """Stands for the operating system's random number generator"""

    def __init__(self, seed):
        self.seed = seed
        self.n = 0
        self.calls = []
        self.values = []
        self.hook = None

    def __call__(self, n):
        self.n += 1
        if self.hook is not None:
            r = self.hook(n)
            if r is not None:
                return r
        out = b''
        c = 0
        while len(out) < n:
            out += hashlib.sha256(b'os%d/%d/%d' % (self.seed, self.n, c)).digest()
            c += 1
        self.calls.append(n)
        self.values.append(out[:n])
        return out[:n]


def _urandom(n):
    s = _urandom_sim[0]
    if s is None:
        return _real_urandom(n)
    return s(n)


def install_seams():
    """Must run before elementstx / bitcointx are imported"""
    os.urandom = _urandom
    random._urandom = _urandom          # secrets, random.SystemRandom
    if hasattr(os, 'getrandom'):
        os.getrandom = lambda n, flags=0: _urandom(n)
    from sim import sched
    sched.install()
    if 'elementstx' in sys.modules:
        raise HarnessError('elementstx imported too early')


def import_target():
    import elementstx
    want = os.path.realpath(os.path.join(REPO, 'elementstx'))
    got = os.path.realpath(os.path.dirname(elementstx.__file__))
    if want != got:
        raise HarnessError('elementstx is imported from %s' % got)
    # everything a run may import lazily
    import elementstx.core.script, elementstx.wallet, elementstx.blech32  # noqa
    import elementstx.liquid_addr, elementstx.core.secp256k1              # noqa
    import bitcointx.wallet, bitcointx.core.psbt, bitcointx.core.key      # noqa
    import decimal, encodings.idna                                        # noqa


def tree_id():
    h = hashlib.sha256()
    for part in ('elementstx', 'examples'):
        base = os.path.join(REPO, part)
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, base).encode() + b'\0')
                    with open(p, 'rb') as fd:
                        h.update(fd.read())
    return h.hexdigest()[:16]


# ------------------------------------------------------------------ one run

def _in_target(tb):
    base = os.path.realpath(os.path.join(REPO, 'elementstx')) + os.sep
    hit = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(base) or '/bitcointx/' in fn:
            hit = '%s:%s' % (os.path.basename(fn), tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return hit


def classify_exception(e):
    """-> (status, cls, msg)"""
    if isinstance(e, Violation):
        return 'violation', e.cls, e.msg
    if isinstance(e, HarnessError):
        return 'harness', 'harness', ''.join(traceback.format_exception(e))[-3000:]
    where = _in_target(e.__traceback__)
    if where is not None:
        return ('violation', 'unexpected-%s' % type(e).__name__,
                'unexpected %s: %s (raised in %s)\n%s' % (
                    type(e).__name__, str(e)[:300], where,
                    ''.join(traceback.format_exception(e))[-1500:]))
    return 'harness', 'harness', ''.join(traceback.format_exception(e))[-3000:]


def execute(prop, seed, values=None, want_tape=False):
    """Runs inside of the forked child; returns a JSON-able result"""
    src = TapeSource(seed=seed if values is None else None, values=values)
    sim = Sim(src)
    ent = SimEntropy(1 if values is not None else 1)
    _urandom_sim[0] = ent
    sim.entropy = ent
    res = {'seed': seed}
    try:
        prop.run(sim)
        res['status'] = 'ok'
    except BaseException as e:       # noqa
        st, cls, msg = classify_exception(e)
        if st == 'violation' and not isinstance(e, Violation):
            sim.log('VIOLATION', cls)
        res['status'] = st
        res['cls'] = cls
        res['msg'] = msg
    finally:
        _urandom_sim[0] = None
    res['hash'] = sim.trace_hash()
    res['nev'] = sim.nevents
    res['ops'] = sim.ops
    res['steps'] = sim.steps
    res['now'] = sim.now
    res['faults'] = sim.faults
    res['probes'] = sim.probes
    res['states'] = sorted(sim.states)
    res['nontrivial'] = bool(sim.nontrivial)
    res['draws'] = len(src.rec)
    if res['status'] != 'ok' or want_tape:
        res['tape'] = src.rec
        res['labels'] = src.labels
        res['trace'] = sim.trace
    return res


def run_child(prop, seed, values=None, want_tape=False):
    """Fork, execute, collect"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
            signal.signal(signal.SIGXCPU, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            res = execute(prop, seed, values, want_tape)
            data = json.dumps(res).encode()
            mv = memoryview(data)
            while mv:
                n = os.write(w, mv)
                mv = mv[n:]
        except BrokenPipeError:         # the search has stopped
            code = 3
        except BaseException:      # noqa
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + WALL_LIMIT
    stalled = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            stalled = True
            os.kill(pid, signal.SIGKILL)
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            continue
        c = os.read(r, 1 << 20)
        if not c:
            break
        chunks.append(c)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    blank = {'seed': seed, 'hash': '', 'nev': 0, 'ops': 0, 'steps': 0, 'now': 0,
             'faults': {}, 'probes': {}, 'states': [], 'nontrivial': False,
             'draws': 0, 'tape': values, 'labels': [], 'trace': []}
    if stalled:
        return dict(blank, status='stall', cls='stall', msg='run did not end')
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        if sig == signal.SIGXCPU or sig == signal.SIGKILL:
            return dict(blank, status='violation', cls='no-progress',
                        msg='run used more than %d s of CPU' % CPU_LIMIT)
        return dict(blank, status='violation', cls='crash-signal-%d' % sig,
                    msg='the process died of signal %d inside of a run' % sig)
    if os.WEXITSTATUS(st):
        return dict(blank, status='harness', cls='harness',
                    msg='child exit status %d' % os.WEXITSTATUS(st))
    try:
        return json.loads(b''.join(chunks))
    except ValueError:
        return dict(blank, status='harness', cls='harness', msg='bad child output')


# --------------------------------------------------------------- batches

def run_batch(prop, seeds, nworkers, budget):
    """Yields results; seeds are spread over the workers deterministically"""
    pipes = {}
    t0 = time.monotonic()
    for k in range(nworkers):
        mine = seeds[k::nworkers]
        if not mine:
            continue
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for rr in pipes:
                    os.close(rr)
                out = os.fdopen(w, 'wb')
                for s in mine:
                    if time.monotonic() - t0 > budget:
                        break
                    res = run_child(prop, s)
                    data = json.dumps(res).encode()
                    out.write(struct.pack('<I', len(data)) + data)
                    out.flush()
                out.close()
            except BaseException:    # noqa
                traceback.print_exc()
                os._exit(3)
            os._exit(0)
        os.close(w)
        pipes[r] = [pid, b'']
    try:
        yield from _collect(pipes)
    finally:
        for pid, _ in pipes.values():
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)


def _collect(pipes):
    failed = []
    while pipes:
        rd, _, _ = select.select(list(pipes), [], [])
        for r in rd:
            c = os.read(r, 1 << 20)
            ent = pipes[r]
            if not c:
                os.close(r)
                _, st = os.waitpid(ent[0], 0)
                if st:
                    failed.append(st)
                del pipes[r]
                continue
            buf = ent[1] + c
            while len(buf) >= 4:
                (n,) = struct.unpack('<I', buf[:4])
                if len(buf) < 4 + n:
                    break
                yield json.loads(buf[4:4 + n])
                buf = buf[4 + n:]
            ent[1] = buf
    if failed:
        raise HarnessError('worker failed: %r' % failed)


# --------------------------------------------------------------- shrinking

def shrink(prop, res, budget=45.0, max_runs=600):
    """Minimise the tape while the same violation class persists"""
    cls = res['cls']
    best = list(res['tape'] or [])
    bestres = res
    t0 = time.monotonic()
    runs = [0]

    def attempt(vals):
        if runs[0] >= max_runs or time.monotonic() - t0 > budget:
            return None
        runs[0] += 1
        r = run_child(prop, res['seed'], values=vals)
        if r['status'] == 'violation' and r['cls'] == cls:
            return r
        return None

    def strip(v):
        v = list(v)
        while v and v[-1] == 0:
            v.pop()
        return v

    def size(v):
        return (len(strip(v)), sum(1 for x in v if x), sum(v))

    def accept(r, vals):
        nonlocal best, bestres
        rec = strip(r['tape'] if r.get('tape') is not None else vals)
        if size(rec) < size(best):
            best, bestres = rec, r
            return True
        return False

    if res.get('tape') is None:
        return res, 0
    best = strip(best)
    improved = True
    while improved and runs[0] < max_runs and time.monotonic() - t0 < budget:
        improved = False
        # truncate
        n = len(best)
        cut = n // 2
        while cut >= 1:
            if len(best) > cut:
                r = attempt(best[:len(best) - cut])
                if r is not None and accept(r, best[:len(best) - cut]):
                    improved = True
                    continue
            cut //= 2
        # delete chunks
        k = max(1, len(best) // 2)
        while k >= 1:
            i = 0
            while i < len(best):
                cand = best[:i] + best[i + k:]
                r = attempt(cand)
                if r is not None and accept(r, cand):
                    improved = True
                else:
                    i += k
                if runs[0] >= max_runs or time.monotonic() - t0 > budget:
                    break
            k //= 2
            if runs[0] >= max_runs or time.monotonic() - t0 > budget:
                break
        # zero chunks, then single values
        for k in (8, 1):
            i = 0
            while i < len(best):
                seg = best[i:i + k]
                if any(seg):
                    cand = best[:i] + [0] * len(seg) + best[i + k:]
                    r = attempt(cand)
                    if r is not None and accept(r, cand):
                        improved = True
                i += k
                if runs[0] >= max_runs or time.monotonic() - t0 > budget:
                    break
        # halve values
        for i in range(len(best)):
            if i >= len(best) or runs[0] >= max_runs or time.monotonic() - t0 > budget:
                break
            v = best[i]
            if v > 1:
                for nv in (1, v // 2, v - 1):
                    cand = best[:i] + [nv] + best[i + 1:]
                    r = attempt(cand)
                    if r is not None and accept(r, cand):
                        improved = True
                        break
    # the final run, as the replay will see it
    final = run_child(prop, res['seed'], values=best)
    if final['status'] == 'violation' and final['cls'] == cls:
        return dict(final, tape=best), runs[0]
    return bestres, runs[0]


# --------------------------------------------------------------- replay file

def write_replay(prop, res, tier):
    d = os.path.join(ROOT, 'build', 'replays')
    os.makedirs(d, exist_ok=True)
    name = '%s-%s-%d.json' % (prop.ID, ''.join(
        c if c.isalnum() or c in '-_' else '_' for c in res['cls'])[:60],
        res['seed'])
    path = os.path.join(d, name)
    obj = {'property': prop.ID, 'seed': res['seed'], 'cls': res['cls'],
           'msg': res['msg'], 'tape': res['tape'], 'labels': res.get('labels'),
           'trace_hash': res['hash'], 'trace': res.get('trace'), 'tier': tier,
           'faults': res.get('faults'), 'tree': tree_id()}
    with open(path, 'w') as f:
        json.dump(obj, f, indent=1)
    return path


def load_known():
    """known_findings.txt: 'known: property=<id> cls=<class> ...' lines"""
    known = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known:'):
                    d = dict(t.split('=', 1) for t in line[6:].split() if '=' in t)
                    d['line'] = line[6:].strip()
                    known.append(d)
    return known


def is_known(known, prop, res):
    for k in known:
        if k.get('property') == prop.ID and k.get('cls') == res['cls'] \
                and k.get('key', '') in (res['msg'] or ''):
            return k
    return None


def write_evidence(prop, tier, vseed, results, wall, violations, extra):
    faults, probes = {}, {}
    states, hashes, nt = set(), set(), set()
    sim_us = ops = steps = evs = draws = 0
    for r in results:
        for k, v in r['faults'].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r['probes'].items():
            probes[k] = probes.get(k, 0) + v
        states.update(r['states'])
        hashes.add(r['hash'])
        if r['nontrivial']:
            nt.add(r['hash'])
        sim_us += r['now']
        ops += r['ops']
        steps += r['steps']
        evs += r['nev']
        draws += r['draws']
    cov = {
        'evaluations': len(results),
        'distinct_nontrivial': len(nt),
        'rule': prop.RULE,
        'samples': extra.pop('samples'),
        'seeds': [min(r['seed'] for r in results), max(r['seed'] for r in results)]
        if results else [],
        'runs_per_hour': int(len(results) * 3600 / max(wall, 1e-3)),
        'simulated_seconds': round(sim_us / 1e6, 3),
        'faults_fired': dict(sorted(faults.items())),
        'runs_with_a_fault': sum(1 for r in results if r['faults']),
        'fault_free_runs': sum(1 for r in results if not r['faults']),
        'probes': dict(sorted(probes.items())),
        'distinct_executions': len(hashes),
        'distinct_states': len(states),
        'distinct_states_measure': prop.STATES,
        'operations': ops,
        'scheduler_steps': steps,
        'trace_events': evs,
        'choices_drawn': draws,
        'real_components': prop.REAL,
        'stub_components': prop.STUB,
    }
    cov.update(extra)
    ev = {'property': prop.ID, 'tier': tier, 'seed': vseed, 'level': 'exploration',
          'coverage': cov, 'assumptions': prop.ASSUMPTIONS,
          'wall_s': round(wall, 2), 'violations': violations}
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % prop.ID)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, prop.ID + '.json'))


def check(prop, tier):
    t0 = time.monotonic()
    vseed = int(os.environ.get('VERIF_SEED', '1') or 1)
    runs = prop.RUNS[tier]
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    runs = max(8, int(runs * scale))
    nworkers = int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    budget = {'quick': 480.0, 'thorough': 3000.0}[tier]
    base = vseed * 10_000_000 + int(prop.ID[1:]) * 100_000_000_000
    print('property=%s tier=%s VERIF_SEED=%d seeds=%d..%d workers=%d tree=%s' % (
        prop.ID, tier, vseed, base, base + runs - 1, nworkers, tree_id()), flush=True)
    seeds = list(range(base, base + runs))
    results, bad, harness = [], [], []
    known = load_known()
    new = 0
    batch = run_batch(prop, seeds, nworkers, budget)
    for r in batch:
        if r['status'] == 'violation':
            bad.append(r)
            new += is_known(known, prop, r) is None
        elif r['status'] != 'ok':
            harness.append(r)
        results.append({k: v for k, v in r.items() if k not in ('tape', 'labels', 'trace')})
        if new >= 60:
            # broken, and well enough known
            batch.close()
            break
    results.sort(key=lambda r: r['seed'])
    bad.sort(key=lambda r: r['seed'])
    # determinism: run some of the seeds again, in other processes, and compare
    byseed = {r['seed']: r for r in results}
    again = seeds[::max(1, len(seeds) // (24 if tier == 'quick' else 100))]
    again = [s for s in again if s in byseed]
    diverged = []
    for r in run_batch(prop, again, max(1, nworkers - 3), budget):
        if r['hash'] != byseed[r['seed']]['hash'] or r['status'] != byseed[r['seed']]['status']:
            diverged.append(r['seed'])
    # one sample, written out
    samples = []
    for r in results:
        if r['nontrivial'] and r['status'] == 'ok':
            s = run_child(prop, r['seed'], want_tape=True)
            samples.append({'seed': s['seed'], 'trace_hash': s['hash'],
                            'faults': s['faults'], 'trace': s.get('trace', [])[:40]})
            if len(samples) >= 2:
                break
    if not samples and results:
        samples.append({'seed': results[0]['seed'], 'trace_hash': results[0]['hash']})
    rc = 0
    reported = []
    seen = set()
    known_hit = {}
    nviol = 0
    for r in bad:
        k = is_known(known, prop, r)
        if k is not None:
            known_hit[k['line']] = known_hit.get(k['line'], 0) + 1
            continue
        nviol += 1
        if r['cls'] in seen:
            continue
        seen.add(r['cls'])
        if len(reported) >= 3:
            continue
        tape_res = r if r.get('tape') is not None else None
        if tape_res is None or tape_res['tape'] is None:
            # died without telling its tape: the seed itself is the replay
            small, n = r, 0
        else:
            small, n = shrink(prop, r, budget=60.0 if tier == 'quick' else 200.0)
        path = write_replay(prop, small, tier)
        ok = subprocess.run([sys.executable, os.path.join(ROOT, 'run_check.py'),
                             'replay', path], stdout=subprocess.PIPE,
                            stderr=subprocess.STDOUT).returncode == 1
        print('violation of %s: %s: %s' % (prop.ID, small['cls'], (small['msg'] or '')[:1500]))
        print('  found at seed %d, minimised with %d runs to %s draws; replay %s' % (
            r['seed'], n, len(small['tape'] or []), 'reproduces' if ok else 'DOES NOT REPRODUCE'))
        for line in (small.get('trace') or [])[-12:]:
            print('    ' + line[:200])
        print('VIOLATION property=%s replay=%s' % (prop.ID, path), flush=True)
        reported.append(path)
        rc = 1
    for line in sorted(known_hit):
        print('KNOWN-FINDING: %s' % line)
    wall = time.monotonic() - t0
    write_evidence(prop, tier, vseed, results, wall, nviol, {
        'samples': samples, 'seeds_planned': runs,
        'determinism_reruns': len(again), 'determinism_divergences': len(diverged)})
    if harness:
        print('harness errors in %d runs; first (seed %d):\n%s' % (
            len(harness), harness[0]['seed'], harness[0].get('msg')))
        if rc == 0:
            rc = 2
    if diverged:
        print('executions diverged for seeds %r' % diverged[:10])
        if rc == 0:
            rc = 2
    if not results:
        print('no runs completed')
        rc = rc or 2
    nt = len({r['hash'] for r in results if r['nontrivial']})
    print('%s: %d runs (%d distinct non-trivial), %d violations, %.1f s' % (
        prop.ID, len(results), nt, nviol, wall))
    return rc


def replay(path, load):
    with open(path) as f:
        obj = json.load(f)
    prop = load(obj['property'])
    res = run_child(prop, obj['seed'], values=obj['tape'])
    same = res['status'] == 'violation' and res['cls'] == obj['cls']
    exact = same and res['hash'] == obj['trace_hash']
    print('%s: %s %s' % (res['status'], res.get('cls', ''), (res.get('msg') or '')[:1500]))
    for line in (res.get('trace') or [])[-25:]:
        print('    ' + line[:200])
    if same:
        print('replayed %s' % ('exactly' if exact else 'with a different trace'))
        print('VIOLATION property=%s replay=%s' % (prop.ID, path))
        return 1
    if res['status'] not in ('ok', 'violation'):
        return 2
    print('not reproduced')
    return 0 if res['status'] == 'ok' else 1
