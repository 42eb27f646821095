"""C05: concurrent first use always gets a complete cryptography library"""

import ctypes
import os
import pickle
import shutil
import tempfile

from sim import ct, gen, jobs, native, world
from sim.native import Control, LIB, LIB_NOZKP, LIB_PARTIAL
from sim.sched import Threads
from sim.tape import HarnessError, Sim, TapeSource

ID = 'C05'
TECHNIQUE = ('seeded scheduling, between source lines or bytecodes, of threads that use the confidential operations of a fresh '
             'process first, with failures of loading, of the randomisation of contexts and the system generator at chosen calls, '
             'and with full, partial, capability-less, damaged and missing libraries; every handle handed out is inspected')
RUNS = {'quick': 4000, 'thorough': 80000}
RULE = ('one evaluation is one simulated schedule of 1 to 4 threads in a process that has not loaded the library; non-trivial if the '
        'first use of at least two threads overlapped or a step of the initialisation failed; told apart by the hash of the '
        'event trace')
STATES = '(library, granularity, first operations, overlap, faults that fired, errors that callers saw)'
REAL = ['elementstx.core.secp256k1, set_custom_secp256k1_path', 'bitcointx loader and context creation', 'dynamic loader',
        'blinding, unblinding, proofs information, asset commitments as first operations']
STUB = ['scheduler of threads', 'secp256k1-zkp functions and failures of native calls (native/simzkp.c)', 'system generator']
ASSUMPTIONS = ['the path of the library is set before the first use and the file is not exchanged after it was loaded',
               'creation of a context does not return with an error (libsecp256k1 aborts the process instead)']

FUNCS = ('rangeproof_info', 'generator_parse', 'generator_generate', 'generator_generate_blinded', 'generator_serialize',
         'pedersen_commit', 'pedersen_commitment_serialize', 'pedersen_commitment_parse',
         'pedersen_blind_generator_blind_sum', 'rangeproof_sign', 'rangeproof_rewind',
         'surjectionproof_allocate_initialized', 'surjectionproof_destroy', 'surjectionproof_generate',
         'surjectionproof_verify', 'surjectionproof_serialized_size', 'surjectionproof_serialize')
BASE = ('context_create', 'context_randomize', 'ecdsa_sign', 'ec_pubkey_create', 'ec_pubkey_serialize', 'ec_pubkey_parse', 'ecdh')
CAPS = {'has_zkp': 'rangeproof_info', 'has_pubkey_recovery': 'ecdsa_sign_recoverable', 'has_ecdh': 'ecdh',
        'has_xonly_pubkeys': 'xonly_pubkey_parse', 'has_schnorrsig': 'schnorrsig_verify',
        'has_pubkey_negate': 'ec_pubkey_negate', 'has_privkey_negate': 'ec_privkey_negate'}
ERRORS = (RuntimeError, ImportError, OSError, AttributeError, ValueError)

_fix = []


def warmup():
    """transactions blinded in another process: this one must not have used the library"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            world.warm_native()
            out = []
            for k in range(6):
                sim = Sim(TapeSource(seed=5005 + k))
                world.select('elements')
                p = ct.plan(sim, max_in=2, max_out=3, nassets=2, issuances=False)
                p.bits = 3
                tx = p.build(0)
                res = tx.blind(_rand_func=jobs.Source(77 + k), **p.request())
                if not res.ok:
                    continue
                m = gen.from_lib(tx)
                outs = []
                for i in p.blind_outs():
                    o = p.outs[i]
                    outs.append((m['vout'][i], m['outwit'][i]['rp'], m['outwit'][i]['sp'], o['key'], o['asset'], o['amount']))
                if outs:
                    out.append(outs)
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(out))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    del _fix[:]
    try:
        _fix.extend(pickle.loads(data))
    except Exception:
        pass        # the library is broken: runs do without, and show it


class World:
    def __init__(self, sim):
        self.sim = sim
        self.kind = sim.wpick(((10, 'full'), (2, 'nozkp'), (1, 'partial'), (2, 'garbage'), (1, 'gone')), 'library')
        self.path = {'nozkp': LIB_NOZKP, 'partial': LIB_PARTIAL}.get(self.kind, LIB)
        self.dir = None
        self.good = self.path
        self.handles = []
        self.errors = []
        self.overlap = 0
        self.inside = 0
        self.had = False

    def setup(self):
        sim = self.sim
        import elementstx
        import bitcointx
        self.ctl = Control(self.path)
        self.ctl.reset()
        if self.kind in ('garbage', 'gone') or sim.chance(1, 4, 'own-path'):
            self.dir = tempfile.mkdtemp(prefix='c05-')
            self.file = os.path.join(self.dir, 'lib.so')
            os.symlink(self.path, self.file)
            self.good = self.file
        elementstx.set_custom_secp256k1_path(self.good)
        sim.eq(elementstx.get_custom_secp256k1_path(), self.good, 'custom-path', 'as set')
        if sim.chance(1, 3, 'bad-path'):
            try:
                elementstx.set_custom_secp256k1_path('/nonexistent/libsecp256k1.so')
            except ValueError:
                pass
            else:
                sim.fail('custom-path', 'a path that is no file is accepted')
            sim.eq(elementstx.get_custom_secp256k1_path(), self.good, 'custom-path', 'after a refused one')
        # the base library has a path of its own
        self.base = sim.pick((LIB, LIB_NOZKP), 'base-path')
        bitcointx.set_custom_secp256k1_path(self.base)
        self.broken = False
        if self.kind == 'garbage':
            sim.fault('damaged-library')
            os.unlink(self.file)
            with open(self.file, 'wb') as f:
                f.write(b'\x7fELF' + b'\0' * 60)
            self.broken = True
        elif self.kind == 'gone':
            sim.fault('missing-library')
            os.unlink(self.file)
            self.broken = True

    def repair(self):
        if self.broken:
            if os.path.lexists(self.file):
                os.unlink(self.file)
            os.symlink(self.path, self.file)
            self.broken = False

    def cleanup(self):
        if self.dir is not None:
            shutil.rmtree(self.dir, ignore_errors=True)

    def inject(self):
        sim = self.sim
        # (creation of a context does not return with an error in libsecp256k1: it aborts the process)
        if sim.chance(1, 3, 'fail-randomize'):
            self.ctl.fail_at('context_randomize', sim.draw(8, 'nth'))
        self.os_fail = {sim.draw(8, 'os-nth')} if sim.chance(1, 6, 'os-fail') else set()
        self.os_n = 0
        self.os_fired = 0

        def hook(n):
            k = self.os_n
            self.os_n += 1
            if k in self.os_fail:
                self.os_fired += 1
                sim.fault('no-entropy')
                raise OSError(11, 'injected: no entropy')
            return None
        sim.entropy.hook = hook

    def fired(self):
        return self.ctl.fired('context_randomize') + self.os_fired

    def stop_faults(self):
        self.sim.entropy.hook = None
        self.ctl.fail_at('context_randomize', -1)
        for _ in range(self.ctl.fired('context_randomize')):
            self.sim.fault('failing-context-randomize')

    def inspect(self, h, who):
        """a handle that was handed out is complete"""
        sim = self.sim
        sim.check(h is not None and h.lib is not None, 'no-handle', who)
        sim.eq(os.path.realpath(h.lib._name), os.path.realpath(self.good), 'wrong-library', 'loaded for %s' % who)
        for cap, f in CAPS.items():
            have = _has(self.ctl.lib, f)
            sim.check(getattr(h.cap, cap) == have, 'capability',
                      lambda: '%s: %s is %s, the library %s it' % (who, cap, getattr(h.cap, cap), 'has' if have else 'lacks'))
        names = BASE
        if h.cap.has_zkp:
            names = BASE + FUNCS
        for f in names:
            fn = getattr(h.lib, 'secp256k1_' + f)
            sim.check(fn.argtypes, 'undeclared-function', lambda: '%s: arguments of secp256k1_%s' % (who, f))
            want = None if f.endswith('destroy') else ctypes.c_void_p if f == 'context_create' else ctypes.c_int
            sim.check(fn.restype is want, 'undeclared-function', lambda: '%s: result of secp256k1_%s' % (who, f))
        for n, need in (('sign', 0x200), ('verify', 0x100)) + ((('blind', 0x300),) if h.cap.has_zkp else ()):
            ctx = getattr(h.ctx, n)
            p = ctx if isinstance(ctx, ctypes.c_void_p) else ctypes.c_void_p(ctx)
            sim.check(bool(p), 'no-context', lambda: '%s: context to %s' % (who, n))
            r = self.ctl.lib.sim_ctx_ready(p)
            if n == 'verify' and r == 0 and self.ctl.fired('context_randomize'):
                continue
            sim.check(r >= 0 and r & need == need, 'unfinished-context', lambda: '%s: context to %s is not ready (%d)' % (who, n, r))
        if not h.cap.has_zkp:
            sim.check(h.ctx.blind is None, 'capability', 'a blinding context without the capability')
        self.handles.append(h)

    def watch(self):
        """observe every handle that the package gets for itself, too"""
        import elementstx.core as c
        import elementstx.core.secp256k1 as s
        orig = s.get_secp256k1
        self.get = orig

        def wrapped(*a, **k):
            h = orig(*a, **k)
            self.inspect(h, 'an operation')
            return h
        for m in (c, s):
            if getattr(m, 'get_secp256k1', None) is orig:
                m.get_secp256k1 = wrapped


def _has(lib, f):
    try:
        getattr(lib, 'secp256k1_' + f)
        return True
    except AttributeError:
        return False


# ------------------------------------------------------- first operations

def op_handle(sim, w):
    def fn():
        w.inspect(w.get(), 'a caller')
        return 'handle'
    return fn


def op_unblind(sim, w):
    out, rp, sp, key, asset, amount = sim.pick(sim.pick(_fix, 'fixture'), 'output')
    kw = ct.unblind_kw(out, rp, key)
    foreign = sim.chance(1, 5, 'foreign')
    if foreign:
        kw['blinding_key'] = gen.key(sim)

    def fn():
        import elementstx.core as c
        r = c.unblind_confidential_pair(**kw)
        if foreign:
            sim.check(not r.ok, 'foreign-unblind', 'a foreign key unblinded')
            return 'refused'
        if w.kind not in ('nozkp', 'partial'):
            sim.check(r.ok, 'operation', lambda: 'unblinding: %s' % (r.error,))
        sim.check(not r.ok or (r.asset.data, r.amount) == (asset, amount), 'operation', 'unblinded something else')
        return (r.ok, r.ok and r.blinding_factor.data)
    return fn


def op_info(sim, w):
    import elementstx.core as c
    out, rp, sp, key, asset, amount = sim.pick(sim.pick(_fix, 'fixture'), 'output')
    wit = c.CElementsTxOutWitness(sp, rp)

    def fn():
        i = wit.get_rangeproof_info()
        sim.check(i is not None and i.value_min <= amount <= i.value_max, 'operation', lambda: 'rangeproof info %r' % (i,))
        return (i.exp, i.mantissa, i.value_min, i.value_max)
    return fn


def op_commit(sim, w):
    import elementstx.core as c
    from sim.node import nat
    tag = sim.bytes(32, 'tag')
    a = c.CAsset(tag)
    want = nat().generator(tag)

    def fn():
        g = c.CConfidentialAsset(a).to_commitment() if hasattr(c.CConfidentialAsset, 'to_commitment') else a.to_commitment()
        sim.eq(g, want, 'operation', 'asset commitment')
        return g
    return fn


def op_blind(sim, w):
    j = jobs.blind(sim, 'elements', max_in=1, max_out=2)

    def fn():
        world.select('elements')
        return j.solo()
    return fn


def op_sign(sim, w):
    """the base library's handle is used first, too"""
    from bitcointx.core.key import CKey
    sec, msg = gen.secret(sim, 'key'), sim.bytes(32, 'msg')

    def fn():
        k = CKey(sec)
        s = k.sign(msg)
        sim.check(k.pub.verify(msg, s), 'operation', 'signature')
        return s
    return fn


OPS = ((4, op_handle), (3, op_unblind), (2, op_info), (2, op_commit), (3, op_blind), (1, op_sign))
TOLERANT = ('op_handle', 'op_sign')


def run(sim):
    jobs.ct.weigh(sim)
    world.select('elements')
    w = World(sim)
    if w.kind == 'full' and not _fix:
        sim.fail('operation', 'blinding fails in a fresh process')
    try:
        w.setup()
        w.watch()
        scenario(sim, w)
    finally:
        w.cleanup()


def expected_failure(w, name):
    return (w.kind == 'partial' and name != 'op_sign') or (w.kind == 'nozkp' and name not in TOLERANT)


def scenario(sim, w):
    opcodes = sim.chance(1, 3, 'opcodes')
    n = sim.wpick(((1, 1), (5, 2), (3, 3), (1, 4)), 'threads')
    progs = []
    for i in range(n):
        prog = []
        for _ in range(sim.irange(1, 3, 'ops')):
            f = sim.wpick(OPS, 'first-op')
            if f in (op_unblind, op_info) and not _fix:
                f = op_handle
            # all choices are made here, before the library is used in earnest
            prog.append((f.__name__, f(sim, w)))
        progs.append(prog)
    sim.op('library', w.kind, opcodes, [[x for x, _ in p] for p in progs])
    w.inject()
    broken = w.broken
    results = [[None] * len(p) for p in progs]
    fixer = broken and sim.chance(1, 2, 'fix-while-running')

    def body(i):
        def f():
            world.select('elements')
            for k, (name, fn) in enumerate(progs[i]):
                w.inside += 1
                if w.inside > 1 and not w.had:
                    w.overlap += 1
                try:
                    results[i][k] = ('ok', fn())
                    w.had = True
                except ERRORS as e:
                    results[i][k] = ('error', type(e).__name__, str(e)[:80])
                    sim.log('error', i, name, type(e).__name__)
                finally:
                    w.inside -= 1
        return f
    files = ['elementstx/core/secp256k1.py', 'bitcointx/core/secp256k1.py']
    if not opcodes:
        files += ['elementstx/core/__init__.py', 'elementstx/util.py']
    th = Threads(sim, files, opcodes=opcodes, max_gap_bits=sim.pick((3, 5, 8), 'gap-bits'),
                 hot=sim.pick((0, 0, 5, 25), 'hot'))
    for i in range(n):
        th.spawn('t%d' % i, body(i))
    if fixer:
        def fix():
            for _ in range(3):
                th.point(th.tasks[-1])
            w.repair()
        th.spawn('admin', fix)
    th.run()
    th.raise_errors()
    fired = w.fired()
    w.stop_faults()
    if w.overlap:
        sim.probe('overlapping-first-use')
    if w.overlap or fired or broken:
        sim.nontrivial = True
    nerr = 0
    for i in range(n):
        for k, (name, fn) in enumerate(progs[i]):
            r = results[i][k]
            if r is None:
                raise HarnessError('an operation did not run')
            if r[0] == 'error':
                if not expected_failure(w, name):
                    nerr += 1
                sim.check(fired or broken or expected_failure(w, name), 'spurious-error',
                          lambda: '%s in thread %d failed though nothing was wrong: %s' % (name, i, r[1:]))
            else:
                sim.check(not expected_failure(w, name), 'success-without-library', lambda: '%s: %r' % (name, r[1]))
    if not broken:
        sim.check(nerr <= fired, 'lasting-failure', lambda: '%d operations failed, %d steps did' % (nerr, fired))
    sim.state(w.kind, opcodes, tuple(sorted({x for p in progs for x, _ in p})), bool(w.overlap), bool(fired), min(nerr, 4))
    # faults have stopped: everything works now
    w.repair()
    for i in range(n):
        for k, (name, fn) in enumerate(progs[i]):
            if expected_failure(w, name):
                try:
                    fn()
                except ERRORS:
                    continue
                sim.fail('success-without-library', '%s, after the threads' % name)
            try:
                v = fn()
            except ERRORS as e:
                sim.fail('no-recovery', '%s fails after the faults have stopped: %s: %s' % (name, type(e).__name__, str(e)[:200]))
            if results[i][k][0] == 'ok':
                sim.check(results[i][k][1] == v, 'different-result', lambda: '%s of thread %d, compared with a later one' % (name, i))
    if w.kind != 'partial':
        h = w.get()
        w.inspect(h, 'a later caller')
        sim.check(w.get() is h, 'unstable-handle', 'two calls give two handles after the library was loaded')
    else:
        try:
            w.get()
        except ERRORS:
            pass
        else:
            sim.fail('success-without-library', 'a library without all functions is accepted')
    sim.eq(w.ctl.bad_args(), 0, 'native-arguments', 'calls with invalid arguments')
    w.ctl.lib.sim_bad_ctx.restype = ctypes.c_uint64
    sim.eq(w.ctl.lib.sim_bad_ctx(), 0, 'native-context', 'calls with a context that is not ready')


__all__ = ['native']
