"""Pieces of work of one user of the library, on one chain.

A job is prepared (all choices drawn, independent expectations computed) and
then run, possibly many times and in any thread or task, as a generator that
yields where the user's own code could be suspended.  Its return value is plain
data, so that two runs of one job can be compared; what it makes is compared
with references that do not use the library."""

import hashlib
import hmac

from sim import ct, gen, ref, refaddr as R
from sim.tape import expand

EL = ('elements', 'elements/liquidv1')
FAM = {'elements/elementsregtest': 'elements'}
PRE = {'elements': 'Elements', 'elements/liquidv1': 'ElementsLiquidV1', 'bitcoin': 'Bitcoin',
       'bitcoin/testnet': 'BitcoinTestnet'}
CHAINS = EL + ('elements/elementsregtest', 'bitcoin', 'bitcoin/testnet')
PARAMS = {'elements': ('ElementsParams', 7041, 'elementsregtest', 'elementsregtest'),
          'elements/liquidv1': ('ElementsLiquidV1Params', 7042, 'liquidv1', 'liquidv1'),
          'bitcoin': ('BitcoinMainnetParams', 8332, '', 'main'),
          'bitcoin/testnet': ('BitcoinTestnetParams', 18332, 'testnet3', 'test')}
WIF = {'elements': 239, 'elements/liquidv1': 128, 'bitcoin': 128, 'bitcoin/testnet': 239}
XPRV = {'elements': b'\x04\x35\x83\x94', 'elements/liquidv1': b'\x04\x88\xad\xe4', 'bitcoin': b'\x04\x88\xad\xe4',
        'bitcoin/testnet': b'\x04\x35\x83\x94'}
XPUB = {'elements': b'\x04\x35\x87\xcf', 'elements/liquidv1': b'\x04\x88\xb2\x1e', 'bitcoin': b'\x04\x88\xb2\x1e',
        'bitcoin/testnet': b'\x04\x35\x87\xcf'}


def fam(chain):
    return FAM.get(chain, chain)


def is_el(chain):
    return chain.startswith('elements')


def check_params(sim, chain, what):
    """the selection in force here is the given one"""
    from bitcointx import get_current_chain_params
    p = get_current_chain_params()
    cls, port, data, net = PARAMS[fam(chain)]
    sim.check(p.NAME == fam(chain) and type(p).__name__ == cls, 'wrong-selection',
              lambda: '%s: %s should be in force, %r is' % (what, chain, p))
    sim.check((p.name, p.RPC_PORT, p.get_datadir_extra_name(), p.get_network_id()) == (fam(chain), port, data, net),
              'wrong-parameters', lambda: '%s: parameters of %s' % (what, chain))


def klass(sim, obj, chain, stem, what):
    """obj is an instance of the class `stem` stands for on the chain"""
    n = type(obj).__name__
    if stem in ('Key', 'ExtKey', 'ExtPubKey'):
        want = 'C%s%s' % (PRE[fam(chain)], stem)
    else:
        want = ('CElements' if is_el(chain) else 'CBitcoin') + stem
    sim.check(n == want, 'wrong-class', lambda: '%s under %s: made a %s, not a %s' % (what, chain, n, want))


def common(sim, n, what):
    """random bytes, often the same or nearly the same as in other jobs of the run: what is remembered under half of
    its arguments is only noticed by who uses the other half in another way"""
    pool = sim.data.setdefault('common', {}).setdefault(n, [])
    k = sim.draw(4, what + '-common')
    if not pool or k == 0:
        pool.append(sim.bytes(n, what))
        return pool[-1]
    b = pool[sim.draw(len(pool), what + '-which')]
    if k == 1:
        x = bytearray(b)
        x[sim.draw(n, 'near-at')] ^= 1 << sim.draw(8, 'near-bit')
        b = bytes(x)
        pool.append(b)
    return b


def common_secret(sim, what):
    b = common(sim, 32, what)
    v = int.from_bytes(b, 'big') % (gen.SECP_N - 1) + 1
    if sim.chance(1, 8, 'negated'):
        v = gen.SECP_N - v
    return v.to_bytes(32, 'big')


class Job:
    def __init__(self, sim, kind, chain, fn, expensive=False):
        self.sim, self.kind, self.chain, self.fn = sim, kind, chain, fn
        self.expensive = expensive

    def run(self):
        return (yield from self.fn(self.sim))

    def solo(self):
        g = self.run()
        try:
            while True:
                next(g)
        except StopIteration as e:
            return e.value


# ------------------------------------------------------------------ makers

def params(sim, chain):
    def fn(sim):
        check_params(sim, chain, 'parameters')
        yield
        check_params(sim, chain, 'parameters')
        return ()
    return Job(sim, 'params', chain, fn)


def address(sim, chain, refuse=True):
    f = fam(chain)
    el = is_el(chain)
    typ = sim.data.get('focus-type') or sim.pick(R.TYPES, 'type')
    prog = common(sim, R.WIT[typ][1] if typ in R.WIT else 20, 'prog')
    key = None
    if el:
        key = bytes(ct.pub(common_secret(sim, 'adr-key')))
    plain = R.encode(f, typ, prog)
    conf = R.encode(f, typ, prog, key) if el else None
    spk = R.script(typ, prog)
    foreign = []
    for ch in PRE:
        if ch != f:
            for k in ((None, key) if is_el(ch) and key else (None,)):
                s = R.encode(ch, typ, prog, k)
                if R.decode(f, s) is None:
                    foreign.append(s)
    foreign = sim.pick(foreign, 'foreign') if foreign and refuse else None
    raw = sim.chance(1, 2, 'from-script')

    def fn(sim):
        from bitcointx.wallet import CCoinAddress, CCoinAddressError
        from bitcointx.core.script import CScript
        what = 'address %s' % plain
        out = []
        if raw:
            a = CCoinAddress.from_scriptPubKey(CScript(spk))
        else:
            a = CCoinAddress(plain)
        want = '%s%sAddress' % (typ.upper(), PRE[f])
        sim.check(type(a).__name__ == want, 'wrong-class', lambda: '%s under %s: %s' % (what, chain, type(a).__name__))
        out.append(str(a))
        sim.eq(str(a), plain, 'address', what)
        sim.eq(bytes(a.to_scriptPubKey()), spk, 'address', what)
        klass(sim, a.to_scriptPubKey(), chain, 'Script', what)
        yield
        if el:
            b = CCoinAddress(conf)
            want = '%s%sConfidentialAddress' % (typ.upper(), PRE[f])
            sim.check(type(b).__name__ == want, 'wrong-class', lambda: '%s under %s: %s' % (conf, chain, type(b).__name__))
            sim.eq(str(b), conf, 'address', what)
            u = b.to_unconfidential()
            yield
            sim.eq(str(u), plain, 'address', what)
            from elementstx.wallet import CCoinConfidentialAddress
            w = CCoinConfidentialAddress.from_unconfidential(u, b.blinding_pubkey)
            sim.eq(str(w), conf, 'address', what)
            yield
            sim.eq(str(CCoinConfidentialAddress(conf)), conf, 'address', what)
            out += [str(b), str(u), str(w), b.get_output_size()]
        yield
        if foreign is not None:
            try:
                x = CCoinAddress(foreign)
            except CCoinAddressError:
                pass
            else:
                sim.fail('foreign-address', '%s accepted under %s as %s' % (foreign, chain, type(x).__name__))
        return tuple(out)
    return Job(sim, 'address', chain, fn)


def forms(sim, chain):
    return address(sim, chain, False)


def bitcoin_tx(sim):
    """a simple transaction in the encoding of Bitcoin"""
    b = b'\x02\0\0\0\x01' + sim.bytes(32, 'h') + b'\x01\0\0\0\0\xff\xff\xff\xff\x01'
    s = sim.bytes(sim.irange(0, 40, 'spk-len'), 'spk')
    return b + sim.draw(1 << 40, 'v').to_bytes(8, 'little') + bytes([len(s)]) + s + b'\0\0\0\0'


def tx(sim, chain):
    el = is_el(chain)
    if el:
        m = gen.tx(sim)
        data = ref.encode(m)
        tid, wh = ref.txid(m), None
    else:
        m = None
        data = bitcoin_tx(sim)
        tid = ref.dsha(data)
    lock = gen.u32(sim, 'lt')

    def fn(sim):
        from bitcointx.core import CTransaction, CMutableTransaction
        what = 'transaction %s' % tid.hex()
        t = CTransaction.deserialize(data)
        klass(sim, t, chain, 'Transaction', what)
        for i in t.vin[:2]:
            klass(sim, i, chain, 'TxIn', what)
            klass(sim, i.prevout, chain, 'OutPoint', what)
        for o in t.vout[:2]:
            klass(sim, o, chain, 'TxOut', what)
            klass(sim, o.scriptPubKey, chain, 'Script', what)
        sim.eq(t.serialize(), data, 'encoding', what)
        sim.eq(t.GetTxid(), tid, 'txid', what)
        yield
        h = (hash(t) == hash(CTransaction.deserialize(data)), t == CTransaction.deserialize(data))
        sim.check(h == (True, True), 'equality', what)
        u = t.to_mutable()
        klass(sim, u, chain, 'MutableTransaction', what)
        u.nLockTime = lock
        yield
        d = u.serialize()
        if m is not None:
            m2 = gen.copy(m)
            m2['locktime'] = lock
            sim.eq(d, ref.encode(m2), 'encoding', what)
        v = CMutableTransaction.deserialize(d)
        klass(sim, v, chain, 'MutableTransaction', what)
        for o in v.vout[:2]:
            klass(sim, o, chain, 'MutableTxOut', what)
        yield
        w = u.to_immutable()
        klass(sim, w, chain, 'Transaction', what)
        sim.eq(t.serialize(), data, 'encoding', what)
        return (d, w.GetTxid(), t.GetHash(), w.get_virtual_size(), hashlib.sha256(repr(t).encode()).digest(),
                v.serialize() == d)
    return Job(sim, 'tx', chain, fn)


def build(sim, chain):
    """a transaction put together of parts made with the generic classes"""
    el = is_el(chain)
    n = sim.irange(1, 3, 'n')
    hs = [sim.bytes(32, 'h') for _ in range(n)]
    spks = [gen.script_pool(sim) for _ in range(n)]
    amts = [gen.amount(sim) for _ in range(n)]
    tag = sim.bytes(32, 'asset')
    mutable = sim.chance(1, 2, 'mutable')
    data = b'\x02\0\0\0' + (b'\0' if el else b'') + bytes([n])
    for i in range(n):
        data += hs[i] + bytes([i, 0, 0, 0, 0]) + b'\xff\xff\xff\xff'
    data += bytes([n])
    for i in range(n):
        if el:
            data += b'\x01' + tag + b'\x01' + amts[i].to_bytes(8, 'big') + b'\0'
        else:
            data += amts[i].to_bytes(8, 'little')
        data += ref.vbytes(spks[i])
    data += b'\0\0\0\0'

    def fn(sim):
        import bitcointx.core as b
        from bitcointx.core.script import CScript
        x = 'Mutable' if mutable else ''
        what = 'built transaction'
        I, O, T = ((b.CMutableTxIn, b.CMutableTxOut, b.CMutableTransaction) if mutable else      # noqa: E741
                   (b.CTxIn, b.CTxOut, b.CTransaction))
        ins, outs = [], []
        for i in range(n):
            p = b.COutPoint(hs[i], i)
            klass(sim, p, chain, 'OutPoint', what)
            ins.append(I(p))
            klass(sim, ins[-1], chain, x + 'TxIn', what)
            yield
            if el:
                import elementstx.core as c
                o = O(c.CConfidentialValue(amts[i]), CScript(spks[i]), c.CConfidentialAsset(c.CAsset(tag)))
            else:
                o = O(amts[i], CScript(spks[i]))
            klass(sim, o, chain, x + 'TxOut', what)
            klass(sim, o.scriptPubKey, chain, 'Script', what)
            outs.append(o)
            yield
        t = T(ins, outs, 0, 2)
        klass(sim, t, chain, x + 'Transaction', what)
        klass(sim, t.wit, chain, x + 'TxWitness', what)
        sim.eq(t.serialize(), data, 'encoding', what)
        yield
        sim.eq(t.GetTxid(), ref.dsha(data), 'txid', what)
        klass(sim, O(), chain, x + 'TxOut', what)
        klass(sim, T(), chain, x + 'Transaction', what)
        return (t.serialize(), t.GetTxid(), repr(t.vout[0]))
    return Job(sim, 'build', chain, fn)


def keys(sim, chain):
    f = fam(chain)
    sec = common_secret(sim, 'key')
    seed = common(sim, 32, 'seed')
    path = 'm/%d/%dh' % (sim.draw(100, 'child'), sim.draw(100, 'child'))
    msg = sim.bytes(32, 'msg')

    def fn(sim):
        from bitcointx.wallet import CCoinKey, CCoinExtKey, CCoinExtPubKey, P2PKHCoinAddress
        k = CCoinKey.from_secret_bytes(sec)
        klass(sim, k, chain, 'Key', 'key')
        sim.eq(str(k), R.b58check(bytes([WIF[f]]) + sec + b'\x01'), 'key', 'text form')
        yield
        k2 = CCoinKey(str(k))
        sim.eq(bytes(k2.secret_bytes), sec, 'key', 'read back')
        sig = k2.sign(msg)
        sim.check(k.pub.verify(msg, sig), 'signature', 'own signature refused')
        yield
        x = CCoinExtKey.from_seed(seed)
        klass(sim, x, chain, 'ExtKey', 'extended key')
        sim.eq(R.b58check_dec(str(x))[:4], XPRV[f], 'extkey', 'version bytes')
        y = x.derive_path(path)
        klass(sim, y, chain, 'ExtKey', 'derived key')
        yield
        n = y.neuter()
        klass(sim, n, chain, 'ExtPubKey', 'public key')
        sim.eq(R.b58check_dec(str(n))[:4], XPUB[f], 'extkey', 'version bytes')
        yield
        sim.check(CCoinExtKey(str(y)) == y and CCoinExtPubKey(str(n)) == n, 'extkey', 'read back')
        a = P2PKHCoinAddress.from_pubkey(n.pub)
        sim.check(type(a).__name__ == 'P2PKH%sAddress' % PRE[f], 'wrong-class', lambda: '%s under %s' % (type(a).__name__, chain))
        sim.eq(str(a), R.encode(f, 'p2pkh', bytes(a)), 'address', 'of a key')
        return (str(k), sig, str(x), str(y), str(n), str(a))
    return Job(sim, 'keys', chain, fn)


def sighash(sim, chain, kinds=3):
    t = gen.tx(sim, min_in=1, min_out=1, coinbase_ok=False)
    data = ref.encode(t)
    idx = sim.draw(len(t['vin']), 'idx')
    ht = sim.pick((1, 2, 3, 0x81, 0x82, 0x83), 'ht')
    script = b'\x76\xa9\x14' + sim.bytes(20, 'code') + b'\x88\xac'
    amount = gen.value_comm(sim, nullable=False)
    sec = gen.secret(sim, 'key')
    try:
        want = ref.sighash_legacy(t, script, idx, ht)
    except ref.RefError:
        want = None
    want0 = ref.sighash_v0(t, script, idx, ht, amount)
    outs = [gen.tx_out(sim) for _ in t['vin']]
    for o in outs:
        o['value'] = gen.value_comm(sim, nullable=False)
    genesis = sim.bytes(32, 'genesis')
    try:
        wants = ref.sighash_taproot(t, idx, outs, ht, genesis, leaf=ref.tapleaf(script))
    except ref.RefError:
        wants = None

    def fn(sim):
        import elementstx.core as c
        from elementstx.core.script import CElementsScript
        from bitcointx.core.script import SIGVERSION_WITNESS_V0, SIGVERSION_BASE, SIGHASH_Type
        from bitcointx.core.key import CKey
        what = 'input %d, type 0x%x' % (idx, ht)
        x = c.CElementsTransaction.deserialize(data)
        s = CElementsScript(script)
        h = None
        if kinds & 1 and want is not None and not (ht & 31 == 3 and idx >= len(t['vout'])):
            h = s.sighash(x, idx, ht, sigversion=SIGVERSION_BASE)
            sim.eq(h, want, 'sighash', 'legacy, ' + what)
        yield
        h0 = want0
        if kinds & 1:
            h0 = s.sighash(x, idx, ht, amount=c.CConfidentialValue(amount), sigversion=SIGVERSION_WITNESS_V0)
            sim.eq(h0, want0, 'sighash', 'v0, ' + what)
        yield
        k = CKey(sec)
        sig = k.sign(h0)
        sim.check(k.pub.verify(h0, sig), 'signature', 'own signature refused')
        yield
        hs = None
        if kinds & 2 and wants is not None:
            hs = s.sighash_schnorr(x, idx, [gen.lib_out(o) for o in outs], hashtype=SIGHASH_Type(ht), genesis_block_hash=genesis)
            sim.eq(hs, wants, 'sighash', 'tapscript, ' + what)
        return (h, h0, sig, hs)
    return Job(sim, 'sighash', chain, fn)


def legacy(sim, chain):
    return sighash(sim, chain, 1)


def taproot(sim, chain):
    return sighash(sim, chain, 2)


class Source:
    """explicit source of randomness, the same for every run of the job"""

    def __init__(self, seed):
        self.seed, self.n = seed, 0

    def __call__(self, n):
        self.n += 1
        return expand(self.seed * 1000003 + self.n, n)


def blind(sim, chain, max_in=2, max_out=3):
    p = ct.plan(sim, max_in=max_in, max_out=max_out, nassets=2)
    p.bits = 3
    seed = 1 + sim.draw(1 << 40, 'blind-seed')
    style = sim.draw(6, 'style')
    req = p.request()
    keys = {k: ct.seckey(o['key']) for k, o in enumerate(p.outs) if o['key'] is not None}

    def fn(sim):
        import elementstx.core as c
        tx = p.build(style)
        yield
        r = tx.blind(_rand_func=Source(seed), **req)
        yield
        if not isinstance(r, c.BlindingSuccess):
            return ('failure', str(r.error), tx.serialize())
        m = gen.from_lib(tx)
        klass(sim, tx, chain, 'MutableTransaction', 'blinded transaction')
        got = []
        for k, sk in sorted(keys.items()):
            o = tx.vout[k]
            if o.nValue.is_commitment():
                u = o.unblind_confidential_pair(sk, tx.wit.vtxoutwit[k].rangeproof)
                yield
                if not u.error:
                    sim.eq((u.asset.data, u.amount), (p.outs[k]['asset'], p.outs[k]['amount']), 'unblind', 'output %d' % k)
                    got.append((u.amount, u.blinding_factor.data, u.asset_blinding_factor.data))
                else:
                    got.append(str(u.error))
        return (r.num_successfully_blinded, [b.data for b in r.blinding_factors], [b.data for b in r.asset_blinding_factors],
                tx.serialize(), got, ref.txid(m), tx.GetTxid())
    return Job(sim, 'blind', chain, fn, expensive=True)


def unblind(sim, chain):
    """several outputs of one blinded transaction, which the right and the wrong owners try to open"""
    import elementstx.core as c
    p = ct.plan(sim, max_in=1, max_out=3, nassets=2)
    p.bits = 3
    tx = p.build(sim.draw(6, 'style'))
    if not isinstance(tx.blind(_rand_func=Source(1 + sim.draw(1 << 40, 'blind-seed')), **p.request()), c.BlindingSuccess):
        p = None
    todo = []
    if p:
        tx = tx.to_immutable() if sim.chance(1, 2, 'immutable') else tx
        own = {k: o['key'] for k, o in enumerate(p.outs) if o['key'] is not None and tx.vout[k].nValue.is_commitment()}
        for k in sorted(own):
            who = sim.draw(len(own) + 1, 'who')
            who = sorted(own)[who] if who < len(own) else k
            todo.append((k, who, ct.seckey(own[who]), own[who] == own[k]))
            todo.append((k, k, ct.seckey(own[k]), True))

    def fn(sim):
        got = []
        for k, who, key, mine in todo:
            u = tx.vout[k].unblind_confidential_pair(key, tx.wit.vtxoutwit[k].rangeproof)
            yield
            what = 'output %d with the key of %d' % (k, who)
            sim.eq(not u.error, mine, 'unblind', what)
            if mine:
                sim.eq((u.asset.data, u.amount), (p.outs[k]['asset'], p.outs[k]['amount']), 'unblind', what)
                got.append((u.amount, u.asset.data, u.blinding_factor.data, u.asset_blinding_factor.data))
        return tuple(got)
    return Job(sim, 'unblind', chain, fn)


def issue(sim, chain):
    prev, n = common(sim, 32, 'prev'), sim.pick((0, 1, 2, 256, 65536, 1 << 24), 'n')
    contract = common(sim, 32, 'contract')
    ent = ref.asset_entropy(prev, n, contract)

    def fn(sim):
        import elementstx.core as c
        from bitcointx.core import COutPoint, Uint256
        p = COutPoint(prev, n)
        klass(sim, p, chain, 'OutPoint', 'issued outpoint')
        e = c.generate_asset_entropy(p, contract)
        yield
        a = c.calculate_asset(e)
        yield
        t = [c.calculate_reissuance_token(e, b).data for b in (False, True)]
        sim.eq((e.data if isinstance(e, Uint256) else bytes(e), a.data, t[0], t[1]),
               (ent, ref.asset_id(ent), ref.token_id(ent, False), ref.token_id(ent, True)), 'asset-ids', 'of an issuance')
        return (a.data, t)
    return Job(sim, 'issue', chain, fn)


def derive(sim, chain):
    """blinding keys of several scripts, as a wallet that goes through its history derives them"""
    master = common_secret(sim, 'master')
    items = []
    for _ in range(sim.irange(1, 4, 'n-scripts')):
        typ = sim.pick(R.TYPES, 'type')
        scr = R.script(typ, common(sim, R.WIT[typ][1] if typ in R.WIT else 20, 'prog'))
        h = hmac.new(master, scr, hashlib.sha256).digest()
        if 0 < int.from_bytes(h, 'big') < gen.SECP_N:
            items.append((scr, h, sim.chance(1, 2, 'method')))

    def fn(sim):
        import elementstx.core as c
        from elementstx.core.script import CElementsScript
        from bitcointx.core.key import CKey
        m = CKey.from_secret_bytes(master)
        out = []
        for scr, want, method in items:
            x = CElementsScript(scr)
            k = x.derive_blinding_key(m) if method else c.derive_blinding_key(m, x)
            yield
            sim.eq(bytes(k.secret_bytes), want, 'blinding-key', 'derived for %s' % scr.hex())
            out.append((bytes(k.secret_bytes), bytes(k.pub)))
            yield
        return tuple(out)
    return Job(sim, 'derive', chain, fn)


LIGHT = (params, address, tx, build, keys)
ELEMENTS = (sighash, issue, derive)


def focus(sim, odds):
    """all threads or tasks of the run do mostly the same kind of work, so that they meet in the same code"""
    sim.data['focus'] = sim.data['focus-type'] = None
    if sim.chance(odds[0], odds[1], 'focus'):
        sim.data['focus'] = sim.pick(LIGHT + ELEMENTS, 'focus-kind')
        sim.data['focus-type'] = sim.pick(R.TYPES, 'focus-type')


def make(sim, chain, heavy=False):
    f = sim.data.get('focus')
    if f is not None and (f in LIGHT or is_el(chain)) and sim.chance(3, 4, 'focused'):
        return f(sim, chain)
    k = sim.draw(len(LIGHT) + (len(ELEMENTS) if is_el(chain) else 0) + (2 if heavy and is_el(chain) else 0), 'job')
    fs = LIGHT + ELEMENTS
    if k < len(fs):
        return fs[k](sim, chain)
    return blind(sim, chain)


def together(sim, makers, chains, most=3, base=()):
    """threads (of one chain, or of several) that do the same kind of work at the same time; what each of them makes is
    checked by its jobs, and compared with what it makes alone"""
    from sim import world
    from sim.sched import Threads
    maker = sim.pick(makers, 'maker')
    sim.data['focus-type'] = sim.pick(R.TYPES, 'focus-type') if sim.chance(1, 2, 'one-type') else None
    one = sim.pick(chains, 'chain')
    plans = []
    for i in range(sim.irange(2, most, 'n-threads')):
        chain = one if sim.chance(2, 3, 'same-chain') else sim.pick(chains, 'chain')
        world.select(chain)
        plans.append((chain, [maker(sim, chain) for _ in range(sim.irange(1, 3, 'jobs'))]))
    sim.op('together', maker.__name__, [c for c, _ in plans])
    th = Threads(sim, ['elementstx/'] + list(base), opcodes=sim.chance(1, 4, 'opcodes'),
                 max_gap_bits=sim.pick((3, 5, 7, 9), 'gap-bits'), hot=sim.pick((0, 5, 15, 40), 'hot'))
    got = {}

    def body(i):
        chain, js = plans[i]

        def f():
            world.select(chain)
            for k, j in enumerate(js):
                got[(i, k)] = j.solo()
        return f
    for i in range(len(plans)):
        th.spawn('t%d' % i, body(i))
    th.run()
    th.raise_errors()
    for i, (chain, js) in enumerate(plans):
        world.select(chain)
        for k, j in enumerate(js):
            sim.eq(j.solo(), got[(i, k)], 'differs-from-alone', '%s of thread %d' % (j.kind, i))
    sim.state('together', maker.__name__, len(plans), th.switches > 4)
    if th.switches > 4:
        sim.probe('interleaved')
        sim.nontrivial = True
    world.select(one)
