"""C18: threads that share the library work as if each were alone"""

from sim import ct, gen, jobs, ref, world
from sim.native import Control
from sim.sched import Threads
from sim.tape import HarnessError

ID = 'C18'
TECHNIQUE = ('seeded scheduling, between source lines or bytecodes, of threads that blind, unblind, serialize, hash, sign and decode '
             'their own objects and read shared ones, with native failures in single calls; every result is compared with the '
             'result of the same work done alone and with independent references')
RUNS = {'quick': 3000, 'thorough': 40000}
RULE = ('one evaluation is one simulated schedule of 2 to 4 threads; non-trivial if the threads were switched at least eight times; '
        'told apart by the hash of the event trace')
STATES = '(chains, kinds of work in each thread, granularity, order of the run alone, whether a native failure fired)'
REAL = ['elementstx: blinding, unblinding, transactions, scripts, signature hashes, issuances, addresses, keys', 'bitcointx',
        'libsecp256k1', 'Python threads, context variables']
STUB = ['scheduler of threads', 'secp256k1-zkp functions (native/simzkp.c); a native call is one step']
ASSUMPTIONS = ['a thread selects its chain before it does anything else', 'functions of libsecp256k1 may be called in parallel '
               'with one context, as its documentation says', 'sources of randomness of the user are not shared']


def warmup():
    world.warm_native()


class Pool:
    """immutable objects that all threads may read"""

    def __init__(self, sim, chain):
        import elementstx.core as c
        from bitcointx.wallet import CCoinAddress, CCoinExtKey
        self.t = gen.tx(sim, min_in=1, min_out=1, coinbase_ok=False)
        self.data = ref.encode(self.t)
        self.tx = c.CElementsTransaction.deserialize(self.data) if sim.chance(1, 2, 'decoded') else gen.lib_tx(gen.norm(self.t))
        self.script = b'\x76\xa9\x14' + sim.bytes(20, 'script') + b'\x88\xac' + b'\xab' * sim.draw(3, 'separators')
        from elementstx.core.script import CElementsScript
        self.scr = CElementsScript(self.script)
        key = bytes(gen.key(sim).pub)
        typ = sim.pick(jobs.R.TYPES, 'type')
        prog = sim.bytes(jobs.R.WIT[typ][1] if typ in jobs.R.WIT else 20, 'prog')
        self.str = jobs.R.encode(jobs.fam(chain), typ, prog, key)
        self.spk = jobs.R.script(typ, prog)
        self.plain = jobs.R.encode(jobs.fam(chain), typ, prog)
        self.adr = CCoinAddress(self.str)
        self.ext = CCoinExtKey.from_seed(sim.bytes(32, 'seed'))
        self.unb = None


def shared(sim, chain, pool):
    k = sim.draw(6, 'shared')
    ht = sim.pick((1, 2, 0x81, 0x82), 'ht')
    idx = sim.draw(len(pool.t['vin']), 'idx')
    lock = gen.u32(sim, 'lt')
    n = sim.draw(1000, 'child')

    def fn(sim):
        tx = pool.tx
        what = 'shared object'
        if k == 0:
            out = (tx.GetTxid(), tx.GetHash(), hash(tx), tx.get_virtual_size())
            yield
            sim.eq(tx.serialize(), pool.data, 'shared-object', what)
            sim.eq(out[0], ref.txid(pool.t), 'shared-object', what)
            return out
        if k == 1:
            m = tx.to_mutable()
            yield
            m.nLockTime = lock
            for o in m.vout:
                o.nValue = o.nValue
            if m.vin:
                m.vin[0].nSequence = lock
            yield
            t = gen.copy(pool.t)
            t['locktime'] = lock
            t['vin'][0]['seq'] = lock
            sim.eq(m.serialize(), ref.encode(t), 'shared-object', 'copy of a shared transaction')
            sim.eq(tx.serialize(), pool.data, 'shared-object', 'source of a copy')
            return m.serialize()
        if k == 2:
            from bitcointx.core.script import SIGVERSION_BASE
            try:
                want = ref.sighash_legacy(pool.t, pool.script, idx, ht)
            except ref.RefError:
                return None
            yield
            try:
                h = pool.scr.sighash(tx, idx, ht, sigversion=SIGVERSION_BASE)
            except ValueError:
                return 'refused'
            sim.eq(h, want, 'shared-object', 'legacy hash of a shared transaction')
            return h
        if k == 3:
            a = pool.adr
            sim.eq((str(a), bytes(a.to_scriptPubKey())), (pool.str, pool.spk), 'shared-object', 'address')
            yield
            sim.eq(str(a.to_unconfidential()), pool.plain, 'shared-object', 'address')
            return (str(a), a.get_output_size(), hash(a) == hash(pool.adr))
        if k == 4:
            x = pool.ext.derive(n)
            yield
            return (str(x), str(x.neuter()), str(pool.ext))
        out = [(i.prevout.hash, i.prevout.n, repr(i.assetIssuance)) for i in tx.vin]
        yield
        out += [(o.nValue.commitment, o.nAsset.commitment, bytes(o.scriptPubKey)) for o in tx.vout]
        sim.eq([x[2] for x in out[len(tx.vin):]], [o['script'] for o in pool.t['vout']], 'shared-object', 'scripts of the outputs')
        yield
        sim.check(tx == tx.to_immutable() and tx.wit == pool.tx.wit, 'shared-object', 'equality')
        return out
    return jobs.Job(sim, 'shared%d' % k, chain, fn)


FILES = ['elementstx/']
BASE_FILES = ['bitcointx/core/__init__.py', 'bitcointx/core/serialize.py', 'bitcointx/wallet.py', 'bitcointx/core/script.py']
DISPATCH = ['bitcointx/util.py', 'bitcointx/base58.py', 'bitcointx/segwit_addr.py']
FAILS = ('generator_generate', 'generator_generate_blinded', 'pedersen_commit', 'rangeproof_sign', 'rangeproof_rewind',
         'surjectionproof_allocate_initialized', 'surjectionproof_generate', 'surjectionproof_serialize',
         'pedersen_blind_generator_blind_sum')


def run(sim):
    ct.weigh(sim)
    n = sim.wpick(((4, 2), (2, 3), (1, 4)), 'n-threads')
    main = sim.pick(world.ELEMENTS_CHAINS, 'main')
    world.select(main)
    pool = Pool(sim, main)
    same = sim.chance(1, 2, 'same-chain')
    jobs.focus(sim, (1, 4))
    plans = []
    for i in range(n):
        chain = main if same else sim.pick(jobs.CHAINS, 'chain')
        world.select(chain)
        js = []
        for _ in range(sim.irange(1, 3, 'jobs')):
            k = sim.draw(6, 'kind')
            if k < 2 and jobs.is_el(chain):
                js.append(jobs.blind(sim, chain))
            elif k == 2 and chain == main:
                js.append(shared(sim, chain, pool))
            else:
                js.append(jobs.make(sim, chain))
        plans.append((chain, js))
    # sometimes all threads do exactly the same work, on different objects
    if sim.chance(1, 4, 'twins'):
        plans = [plans[0]] * n
    order = sim.pick(('before', 'after'), 'alone')
    alone = {}

    def run_alone():
        for i, (chain, js) in enumerate(plans):
            world.select(chain)
            for k, j in enumerate(js):
                alone[(i, k)] = j.solo()
        world.select(main)
    world.select(main)
    if order == 'before':
        run_alone()
    ctl = Control()
    ctl.reset()
    fault = None
    if sim.chance(1, 5, 'native-fault'):
        fault = sim.pick(FAILS, 'native')
        ctl.fail_at(fault, sim.draw(8, 'nth'))
    opcodes = sim.chance(1, 4, 'opcodes')
    files = FILES + (BASE_FILES if sim.chance(1, 3, 'base') else []) + (DISPATCH if sim.chance(1, 8, 'dispatch') else [])
    th = Threads(sim, files, opcodes=opcodes, max_gap_bits=sim.pick((5, 8, 11, 14), 'gap-bits'),
                 hot=sim.pick((0, 10, 40, 40, 150), 'hot'))
    res = {}

    def body(i):
        chain, js = plans[i]

        def f():
            world.select(chain)
            jobs.check_params(sim, chain, 'thread %d' % i)
            for k, j in enumerate(js):
                try:
                    r = ('ok', j.solo())
                except (RuntimeError, ValueError) as e:
                    if fault is None:
                        raise
                    r = ('error', '%s: %s' % (type(e).__name__, e))
                res[(i, k)] = r
                jobs.check_params(sim, chain, 'thread %d' % i)
        return f
    for i in range(n):
        th.spawn('t%d' % i, body(i))
    sim.op('threads', [(c, [j.kind for j in js]) for c, js in plans], order, opcodes, fault)
    th.run()
    th.raise_errors()
    fired = ctl.fired()
    if fired:
        sim.fault('failing-' + fault)
    ctl.fail_at(fault or 'pedersen_commit', -1)
    if th.switches >= 8:
        sim.nontrivial = True
    sim.probe('switches', th.switches)
    jobs.check_params(sim, main, 'main thread')
    if order == 'after':
        run_alone()
    sim.state(tuple(sorted((c, tuple(sorted({j.kind for j in js}))) for c, js in plans)), opcodes, order, bool(fired))
    differ = []
    for key, a in sorted(alone.items()):
        if key not in res:
            raise HarnessError('a thread did not finish')
        r = res[key]
        if r[0] == 'ok' and r[1] == a:
            continue
        j = plans[key[0]][1][key[1]]
        if fired and j.kind == 'blind':
            differ.append((key, j.kind))
            continue
        sim.fail('different-result', 'thread %d, %s: %r, alone: %r' % (key[0], j.kind, _short(r), _short(a)))
    # one failing native call spoils the work of one thread only
    sim.check(len(differ) <= fired, 'different-result', lambda: 'after %d native failures: %r' % (fired, differ))
    sim.eq(ctl.bad_args(), 0, 'native-arguments', 'calls with invalid arguments')
    sim.eq(ctl.bad_frees(), 0, 'native-free', 'proofs freed twice')
    sim.eq(pool.tx.serialize(), pool.data, 'shared-object', 'after the threads')


def _short(r):
    s = repr(r)
    return s if len(s) < 300 else s[:150] + '...' + s[-120:]
