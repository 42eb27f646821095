"""Failures of the native library or of randomness are never taken for success."""

from sim import ct, gen, ref, world
from sim.node import Node, Reject, nat, ZERO32

ID = 'C09'
TECHNIQUE = ('fault injection at every native call, every request of randomness and buffer allocations during simulated blinding '
             'and unblinding; an independent node and the native allocation table judge the outcome')
RUNS = {'quick': 3000, 'thorough': 60000}
RULE = ('non-trivial: at least one injected failure fired inside of a blinding or unblinding call; distinct by trace. Lenient mode '
        '(is_blind_success_strict=False) is outside of the property')
STATES = 'failing function and call number, source, shape of the transaction, outcome'
REAL = ['elementstx.core (blind_transaction, unblind_confidential_pair)', 'bitcointx', 'libsecp256k1']
STUB = ['secp256k1-zkp: native/simzkp.c (failures injected there)', 'randomness (failures injected)', 'ctypes.create_string_buffer '
        '(allocation failures injected)', 'node: sim/node.py']
ASSUMPTIONS = ['a failing native function reports 0, and has left its outputs alone or has filled them', 'native/simzkp.c implements secp256k1-zkp']

BLIND_FUNCS = ('generator_parse', 'generator_serialize', 'generator_generate', 'generator_generate_blinded', 'pedersen_commit',
               'pedersen_commitment_serialize', 'pedersen_blind_generator_blind_sum', 'rangeproof_sign',
               'surjectionproof_allocate_initialized', 'surjectionproof_generate', 'surjectionproof_verify',
               'surjectionproof_serialize')
UNBLIND_FUNCS = ('generator_parse', 'generator_generate', 'pedersen_commitment_parse', 'rangeproof_rewind',
                 'generator_generate_blinded', 'generator_serialize')


class RandFail(Exception):
    pass


def warmup():
    world.warm_native()


def names(ctl, wanted):
    have = set(ctl.names)
    out = []
    for w in wanted:
        if w in have:
            out.append(w)
        elif 'secp256k1_' + w in have:
            out.append('secp256k1_' + w)
    return out


class Rand:
    """source of randomness that fails at chosen calls"""

    def __init__(self, sim, at=None, how=None):
        self.sim = sim
        self.n = 0
        self.at = at
        self.how = how
        self.seed = sim.draw(1 << 30, 'rand-seed')
        self.fired = False

    def __call__(self, n):
        self.n += 1
        if self.n == self.at:
            self.fired = True
            self.sim.fault('randomness-' + self.how)
            if self.how == 'raises':
                raise RandFail('no entropy')
            if self.how == 'oserror':
                raise OSError(5, 'injected')
            if self.how == 'zero':
                return b'\x00' * n
            if self.how == 'overflow':
                return b'\xff' * n
        return ref.sha(b'%d/%d' % (self.seed, self.n))[:n]


class AllocFail:
    """ctypes.create_string_buffer that runs out of memory once"""

    def __init__(self, sim, at):
        import ctypes
        self.sim = sim
        self.ctypes = ctypes
        self.real = ctypes.create_string_buffer
        self.at = at
        self.n = 0
        self.fired = False

    def __enter__(self):
        self.ctypes.create_string_buffer = self
        return self

    def __exit__(self, *a):
        self.ctypes.create_string_buffer = self.real

    def __call__(self, *a, **kw):
        self.n += 1
        if self.n == self.at:
            self.fired = True
            self.sim.fault('allocation-failure')
            raise MemoryError('injected')
        return self.real(*a, **kw)


def judge_valid(sim, p, tx, what):
    node = Node()
    for x in p.coins:
        node.fund(x.point[0], x.point[1], x.out)
    try:
        node.submit(tx.serialize())
    except Reject as e:
        sim.fail('false-success', '%s: success was reported, but the network rejects the transaction: %s' % (what, e))


def leaks(sim, ctl, what):
    sim.check(ctl.live() == 0, 'leak', '%s: %d native proof objects are not released' % (what, ctl.live()))
    sim.check(ctl.bad_frees() == 0, 'bad-free', '%s: a native proof object is released twice or was never allocated' % what)
    sim.check(ctl.bad_args() == 0, 'bad-args', '%s: native function called without a context or object' % what)


def run(sim):
    import elementstx.core as c
    ctl = nat().ctl
    chain = sim.pick(world.ELEMENTS_CHAINS, 'chain')
    world.select(chain)
    sim.data['light'] = True
    p = ct.plan(sim, max_in=3, max_out=3)
    p.bits = sim.pick((3, 4, 6), 'ct-bits')
    if not p.blind_outs():
        return
    if sim.chance(1, 3, 'aux'):
        p.aux = [nat().generator(cn.asset, cn.abf) for cn in p.coins]
        for i, cn in enumerate(p.coins):
            if cn.vbf == ZERO32 and cn.abf == ZERO32 and sum(1 for x in p.coins if x.asset == cn.asset) > 1 \
                    and not any(p.coins[j].asset == cn.asset for j in p.hidden):
                p.hidden.add(i)
    # how many calls does it take
    ctl.reset()
    r0 = Rand(sim)
    tx0 = p.build(0)
    res0 = tx0.blind(_rand_func=r0, **p.request())
    sim.check(isinstance(res0, c.BlindingSuccess), 'refused', 'fault-free request was refused: %s' % (res0,))
    leaks(sim, ctl, 'fault-free blinding')
    fn = [f for f in names(ctl, BLIND_FUNCS) if ctl.calls(f)]
    counts = {f: ctl.calls(f) for f in fn}
    raw0 = tx0.serialize()
    for _ in range(sim.irange(1, 4, 'n-attempts')):
        ctl.reset()
        style = sim.draw(6, 'style')
        late = sim.chance(1, 2, 'late')
        ctl.fail_style(late)
        tx = p.build(style)
        kind = sim.wpick(((6, 'native'), (3, 'rand'), (1, 'os-rand'), (2, 'alloc')), 'fault-kind')
        rf = Rand(sim)
        kw = p.request()
        kw['_rand_func'] = rf
        what = kind
        alloc = None
        if kind == 'native':
            k = 1 if not sim.chance(1, 5, 'two') else 2
            for _ in range(k):
                f = fn[sim.draw(len(fn), 'func')]
                at = sim.draw(counts[f], 'at')
                ctl.fail_at(f, at)
                what += ' %s@%d' % (f, at) + (' (outputs filled)' if late else '')
        elif kind == 'rand':
            rf.at = 1 + sim.draw(r0.n, 'at')
            rf.how = sim.pick(('raises', 'oserror', 'zero', 'overflow'), 'how')
            what += ' %s@%d' % (rf.how, rf.at)
        elif kind == 'os-rand':
            del kw['_rand_func']
            at = 1 + sim.draw(r0.n, 'at')
            n = [0]

            def hook(size, n=n, at=at):
                n[0] += 1
                if n[0] == at:
                    sim.fault('os-randomness-error')
                    raise OSError(5, 'injected')
            sim.entropy.hook = hook
            what += '@%d' % at
        else:
            alloc = AllocFail(sim, 1 + sim.draw(60, 'at'))
            what += '@%d' % alloc.at
        sim.op('blind', what, p.describe(), 'style', style)
        exc = None
        try:
            if alloc is not None:
                with alloc:
                    res = tx.blind(**kw)
            else:
                res = tx.blind(**kw)
        except Exception as e:
            exc = e
            res = None
        sim.entropy.hook = None
        fired = ctl.fired()
        if fired:
            sim.fault('native-failure-outputs-filled' if late else 'native-failure', fired)
            for f in fn:
                if ctl.fired(f):
                    sim.probe('failed-' + f.replace('secp256k1_', ''))
        if fired or rf.fired or (alloc is not None and alloc.fired) or kind == 'os-rand':
            sim.nontrivial = True
        out = type(exc).__name__ if exc is not None else type(res).__name__
        sim.log('outcome', out)
        sim.state(kind, what, p.shape(), out)
        leaks(sim, ctl, what)
        for f in names(ctl, BLIND_FUNCS):
            ctl.fail_at(f, -1)
        if res is not None:
            if isinstance(res, c.BlindingSuccess):
                judge_valid(sim, p, tx, what)
                if fired or rf.fired and rf.how not in ('zero', 'overflow'):
                    sim.fail('false-success', '%s: a failure happened and success was reported' % what)
            else:
                sim.check(isinstance(res, c.BlindingFailure) and res.error and not res.ok, 'result', '%s: %r' % (what, res))
                sim.check(fired or rf.fired, 'spurious', '%s: nothing failed, but the result is %s' % (what, res))
        else:
            known = isinstance(exc, (RuntimeError, ValueError, TypeError, OSError, RandFail, MemoryError, AssertionError))
            sim.check(known, 'exception', '%s: %r' % (what, exc))
            sim.check(fired or rf.fired or kind == 'os-rand' or (alloc is not None and alloc.fired), 'spurious',
                      '%s: nothing failed, but %r was raised' % (what, exc))
            if kind == 'rand' and rf.how in ('raises', 'oserror'):
                sim.check(type(exc) in (RandFail, OSError), 'swallowed', '%s: the caller gets %r' % (what, exc))
        # a fresh copy works
        if sim.chance(1, 2, 'retry'):
            ctl.reset()
            tx = p.build(style)
            rf = Rand(sim)
            res = tx.blind(_rand_func=rf, **p.request())
            sim.check(isinstance(res, c.BlindingSuccess), 'retry', 'fresh copy cannot be blinded after %s: %s' % (what, (res,)))
            judge_valid(sim, p, tx, 'retry after ' + what)
            leaks(sim, ctl, 'retry')
    unblinding(sim, c, ctl, p, raw0, res0)
    if sim.chance(1, 8, 'to-commitment'):
        commitments(sim, c, ctl)


def commitments(sim, c, ctl):
    """the unblinded commitment to an asset"""
    a = c.CAsset(sim.bytes(32, 'asset'))
    want = nat().generator(a.data, ZERO32)
    for _ in range(3):
        ctl.reset()
        f = sim.pick(names(ctl, ('generator_generate', 'generator_serialize')) + [None], 'func')
        late = sim.chance(1, 2, 'late')
        ctl.fail_style(late)
        if f is not None:
            ctl.fail_at(f, 0)
        sim.op('to-commitment', f, late)
        try:
            r = a.to_commitment()
        except (RuntimeError, ValueError, AssertionError) as e:
            sim.check(f is not None, 'spurious', 'nothing failed, but %r was raised' % e)
            sim.fault('native-failure-outputs-filled' if late else 'native-failure')
            continue
        finally:
            ctl.reset()
        sim.check(f is None, 'false-success', 'commitment to an asset was returned although %s failed' % f)
        sim.eq(r, want, 'commitment to the asset')


def unblinding(sim, c, ctl, p, raw, res0):
    t, _ = ref.decode(raw)
    outs = p.blind_outs()
    for _ in range(sim.irange(0, 3, 'n-unblind')):
        k = outs[sim.draw(len(outs), 'which')]
        o = p.outs[k]
        kw = ct.unblind_kw(t['vout'][k], t['outwit'][k]['rp'], o['key'])
        truth = (o['asset'], o['amount'], res0.blinding_factors[k].data, res0.asset_blinding_factors[k].data)
        ctl.reset()
        f = sim.pick(names(ctl, UNBLIND_FUNCS), 'func')
        at = sim.draw(2, 'at')
        ctl.fail_at(f, at)
        late = sim.chance(1, 2, 'late')
        ctl.fail_style(late)
        what = 'unblind %s@%d' % (f, at) + (' (outputs filled)' if late else '')
        sim.op(what, k)
        exc = None
        try:
            r = c.unblind_confidential_pair(**kw)
        except Exception as e:
            exc, r = e, None
        fired = ctl.fired()
        ctl.fail_at(f, -1)
        if fired:
            sim.nontrivial = True
            sim.fault('native-failure', fired)
            sim.probe('failed-unblind')
        leaks(sim, ctl, what)
        sim.log('outcome', type(exc).__name__ if exc else type(r).__name__)
        if r is None:
            sim.check(fired and isinstance(exc, (RuntimeError, AssertionError)), 'exception', '%s: %r' % (what, exc))
        elif isinstance(r, c.UnblindingSuccess):
            sim.check(not fired, 'false-success', '%s: a native call failed and success was reported' % what)
            check_truth(sim, r, truth, what)
        else:
            sim.check(fired, 'spurious', '%s: nothing failed, but the owner gets %s' % (what, r))
            sim.check(isinstance(r, c.UnblindingFailure) and r.error and not r.ok, 'result', repr(r))
        r = c.unblind_confidential_pair(**kw)
        sim.check(isinstance(r, c.UnblindingSuccess), 'retry', 'owner cannot unblind after %s: %s' % (what, r))
        check_truth(sim, r, truth, 'retry after ' + what)


def check_truth(sim, r, truth, what):
    got = (r.asset.data, r.amount, r.blinding_factor.data, r.asset_blinding_factor.data)
    sim.check(got == truth, 'wrong-unblinding', '%s: recovered something else than what was sent' % what)


__all__ = ['gen']
