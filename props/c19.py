"""C19: blinding secrets are fresh, and reproducible only by choice"""

import gc

from sim import ct, gen, native, ref, world
from sim.node import ZERO32, nat
from sim.sched import Threads

ID = 'C19'
TECHNIQUE = ('simulated histories of blindings, retries, failures of native calls and of the source, crashes and concurrent threads, with the '
             'operating system random generator and explicit sources under the simulator: every secret of every result is traced to '
             'the one request that it came from, and repetitions with the same source must give the same bytes')
RUNS = {'quick': 6000, 'thorough': 60000}
RULE = 'non-trivial: at least two blindings of one history succeeded and their secrets were attributed; told apart by the event trace'
STATES = '(source, kind of request, shape, what happened before, thread or not)'
REAL = ['elementstx.core: blind_transaction and all that asks for randomness', 'bitcointx', 'libsecp256k1 (keys, ECDH)']
STUB = ['secp256k1-zkp: native/simzkp.c', 'os.urandom, os.getrandom, secrets, SystemRandom: seeded generator', 'thread schedules']
ASSUMPTIONS = ['the last blinded output of a request has a value factor that is determined by the others',
               'native/simzkp.c is deterministic and does not ask for randomness, as secp256k1-zkp']


def warmup():
    world.warm_native()


class SourceFails(Exception):
    pass


class Source:
    """explicit source: a reproducible stream; fails at the given request"""

    def __init__(self, sim, seed, fail_at=None):
        self.sim = sim
        self.seed = seed
        self.n = 0
        self.values = []
        self.fail_at = fail_at
        self.sizes = []

    def __call__(self, n):
        self.n += 1
        self.sizes.append(n)
        if self.n == self.fail_at:
            self.sim.fault('source-fails')
            raise SourceFails()
        v = ref.sha(b'src' + self.seed + b'%d' % self.n)
        while len(v) < n:
            v += ref.sha(v)
        v = v[:n]
        self.values.append(v)
        return v


def pub_of(v, cache={}):        # noqa
    from bitcointx.core.key import CKey
    try:
        return bytes(CKey(v).pub)
    except ValueError:
        return None


def fresh_seed(sim):
    n = sim.data['nseed'] = sim.data.get('nseed', 0) + 1
    return sim.bytes(8, 'src') + b'/%d/' % n


class History:
    def __init__(self, sim):
        self.sim = sim
        self.used = {}          # secret -> where, for sources that do not repeat
        self.done = 0

    def attribute(self, p, tx, r, values, what, once=True):
        """every secret comes from its own request among `values`"""
        sim = self.sim
        t, _ = ref.decode(tx.serialize())
        avail = {}
        for v in values:
            if len(v) == 32:
                avail.setdefault(v, 0)
                avail[v] += 1
        pubs = {}
        for v in avail:
            b = pub_of(v)
            if b:
                pubs[b] = v
        secrets = []
        outs = p.blind_outs()
        for k in outs:
            abf = r.asset_blinding_factors[k].data
            vbf = r.blinding_factors[k].data
            secrets.append((abf, 'asset factor of output %d' % k))
            if k != outs[-1]:
                secrets.append((vbf, 'value factor of output %d' % k))
            else:
                # determined by the others, but it must not be one of them
                sim.check(vbf not in self.used or not once, 'reused', lambda: '%s: value factor of the last output was used for %s' % (
                    what, self.used[vbf]))
                secrets.append((vbf, None))
            nonce = t['vout'][k]['nonce']
            v = pubs.get(nonce)
            sim.check(v is not None, 'not-from-source', lambda: '%s: ephemeral key of output %d was not drawn from the source' % (what, k))
            secrets.append((v, 'ephemeral key of output %d' % k))
        for i, f in p.blind_iss():
            x = p.iss[i]
            _, a, tok = p.ids(i)
            val = t['vin'][i]['iss']['amount' if f == 'amount' else 'keys']
            g = nat().generator(a if f == 'amount' else tok)
            amt = x['amount'] if f == 'amount' else x['tokens']
            v = next((v for v in avail if nat().commit(v, amt, g) == val), None)
            sim.check(v is not None, 'not-from-source', lambda: '%s: factor of issuance %s of input %d was not drawn from the source' % (
                what, f, i))
            secrets.append((v, 'issuance %s of input %d' % (f, i)))
        seen = {}
        for v, name in secrets:
            sim.check(v not in seen, 'used-twice', lambda: '%s: %s is also %s' % (what, name, seen[v]))
            seen[v] = name or 'last value factor'
            if name is None:
                continue
            sim.check(v in avail, 'not-from-source', lambda: '%s: %s was not drawn from the source' % (what, name))
            if once:
                sim.check(v not in self.used, 'reused', lambda: '%s: %s was used before for %s' % (what, name, self.used[v]))
                self.used[v] = what + ' ' + name
        self.done += 1
        if self.done > 1:
            sim.nontrivial = True
        sim.probe('secrets-attributed', len(secrets))


def blind(sim, p, source=None, style=None, form=None):
    import elementstx.core as c
    tx = p.build(sim.draw(6, 'style') if style is None else style)
    kw = p.request()
    form = sim.draw(3, 'form') if form is None else form
    if form == 1:
        kw = {k: tuple(v) if isinstance(v, list) else v for k, v in kw.items()}
    if source is not None:
        kw['_rand_func'] = source
    r = c.blind_transaction(tx, **kw) if form == 2 else tx.blind(**kw)
    return tx, r


def ok(sim, p, r, what):
    import elementstx.core as c
    sim.check(isinstance(r, c.BlindingSuccess), 'refused', lambda: '%s: %s; %s' % (what, r, p.describe()))


def os_blinding(sim, h, p, what):
    """without explicit source: the operating system is asked"""
    n = len(sim.entropy.values)
    tx, r = blind(sim, p)
    ok(sim, p, r, what)
    v = sim.entropy.values[n:]
    sim.op('os', what, len(v))
    h.attribute(p, tx, r, v, what)
    return tx, r


def explicit(sim, h, p, src, what, once=True):
    n = sim.entropy.n
    tx, r = blind(sim, p, src)
    ok(sim, p, r, what)
    sim.check(sim.entropy.n == n, 'asks-elsewhere', lambda: '%s: %d requests went to the operating system although a source was given' % (
        what, sim.entropy.n - n))
    sim.op('explicit', what, src.n)
    h.attribute(p, tx, r, src.values, what, once)
    return tx, r


def failing(sim, h, p, what):
    """an attempt that stops in the middle; nothing of it may be used again"""
    k = sim.draw(3, 'failure')
    ctl = native.Control()
    sim.op('failing', what, k)
    try:
        if k == 0:
            blind(sim, p, Source(sim, fresh_seed(sim), 1 + sim.draw(10, 'fail-at')))
        elif k == 1:
            at = sim.entropy.n + 1 + sim.draw(10, 'fail-at')

            def hook(n):
                if sim.entropy.n == at:
                    sim.fault('os-randomness-error')
                    raise OSError(5, 'injected')
            sim.entropy.hook = hook
            blind(sim, p)
        else:
            ctl.reset()
            ctl.fail_at(sim.pick(('pedersen_commit', 'generator_generate_blinded', 'rangeproof_sign',
                                  'surjectionproof_generate', 'pedersen_blind_generator_blind_sum'), 'func'), sim.draw(4, 'at'))
            blind(sim, p)
    except (SourceFails, OSError, RuntimeError):
        pass
    finally:
        sim.entropy.hook = None
        if ctl.fired():
            sim.fault('native-failure')
        ctl.reset()


def repeat(sim, h, p, what):
    """the same source and arguments: the same bytes, whatever came before"""
    seed = fresh_seed(sim)
    tx1, r1 = explicit(sim, h, p, Source(sim, seed), what + ' first')
    a = tx1.serialize()
    for _ in range(sim.draw(3, 'between')):
        disturb(sim, h)
    s2 = Source(sim, seed)
    tx2, r2 = explicit(sim, h, p, s2, what + ' again', once=False)
    sim.eq(tx2.serialize(), a, 'not-reproducible', what)
    sim.check(tuple(r1) == tuple(r2), 'not-reproducible', lambda: '%s: %s and %s' % (what, r1, r2))
    if sim.chance(1, 2, 'other-source'):
        explicit(sim, h, p, Source(sim, seed + b'x'), what + ' other source')


def disturb(sim, h):
    k = sim.draw(5, 'disturb')
    sim.op('disturb', k)
    if k == 0:
        os_blinding(sim, h, small(sim), 'other')
    elif k == 1:
        failing(sim, h, small(sim), 'other')
    elif k == 2:
        gc.collect()
        world.select(sim.pick(world.CHAINS, 'chain'))
        world.select(sim.pick(world.ELEMENTS_CHAINS, 'chain'))
    elif k == 3:
        from bitcointx.core.key import CKey
        import elementstx.core as c
        c.derive_blinding_key(CKey(gen.secret(sim, 'k')), b'\x51')
        sim.entropy(32)
    else:
        explicit(sim, h, small(sim), Source(sim, fresh_seed(sim)), 'other')


def small(sim):
    p = ct.plan(sim, max_in=2, max_out=3, full=False)
    p.bits = 3
    while not p.blind_outs():
        for o in p.outs:
            if o['script']:
                o['key'] = gen.secret(sim, 'bkey')
        if not any(o['script'] for o in p.outs):
            p.outs[0]['script'] = ct.script(sim, 'p2wpkh')
        ct.fulfil(sim, p)
        if not p.blind_outs():
            # one output and nothing blinded: spend something blinded
            cn = p.coins[0]
            p.coins[0] = ct.coin(sim, cn.asset, cn.amount, 'blinded', point=cn.point)
    return p


def threads(sim, h):
    """two threads blind at the same time with the operating system's generator"""
    ps = [small(sim), small(sim)]
    th = Threads(sim, ['elementstx/core/__init__.py'], max_gap_bits=10, hot=sim.pick((0, 20, 60), 'hot'))
    chain = sim.data['chain']
    n = len(sim.entropy.values)
    res = {}
    styles = [(sim.draw(6, 'style'), sim.draw(3, 'form')) for _ in ps]

    def body(k):
        def f():
            world.select(chain)
            res[k] = blind(sim, ps[k], style=styles[k][0], form=styles[k][1])
        return f
    for k in range(2):
        th.spawn('t%d' % k, body(k))
    th.run()
    th.raise_errors()
    v = sim.entropy.values[n:]
    sim.op('threads', th.switches > 2)
    sim.probe('concurrent-blindings', 2)
    for k in range(2):
        tx, r = res[k]
        ok(sim, ps[k], r, 'thread %d' % k)
        h.attribute(ps[k], tx, r, v, 'thread %d' % k)


def run(sim):
    chain = sim.pick(world.ELEMENTS_CHAINS, 'chain')
    sim.data['chain'] = chain
    world.select(chain)
    ct.weigh(sim)
    sim.data['light'] = True
    h = History(sim)
    p = ct.plan(sim, max_in=3, max_out=5)
    ct.set_params(sim, p)
    if not p.blind_outs():
        p = small(sim)
    for n in range(sim.irange(2, 6, 'steps')):
        k = sim.draw(8, 'step')
        sim.state(k, p.shape(), n)
        if k < 2:
            os_blinding(sim, h, p, 'os%d' % n)
        elif k == 2:
            explicit(sim, h, p, Source(sim, fresh_seed(sim)), 'explicit%d' % n)
        elif k == 3:
            failing(sim, h, p, 'fail%d' % n)
            os_blinding(sim, h, p, 'retry%d' % n)
        elif k == 4:
            repeat(sim, h, p, 'repeat%d' % n)
        elif k == 5:
            disturb(sim, h)
        elif k == 6 and sim.chance(1, 3, 'threads'):
            threads(sim, h)
        else:
            p = small(sim)
            os_blinding(sim, h, p, 'os%d' % n)


__all__ = ['ZERO32']
