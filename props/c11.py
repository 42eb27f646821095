"""C11: a wallet restored from its seed finds all its confidential coins"""

import hashlib
import hmac

from sim import ct, gen, jobs, ref, refaddr as R, world
from sim.node import Node, Reject, ZERO32
from sim.tape import HarnessError

ID = 'C11'
TECHNIQUE = ('simulated wallets whose only durable secret is a seed: senders pay to confidential addresses that went through a printed '
             'string, the wallet crashes at any point (also during its scan), comes back under any chain, derives its keys anew, and '
             'rescans a ledger whose transactions are repeated, reordered and reorganised; its coins are compared with the truth and spent')
RUNS = {'quick': 2500, 'thorough': 30000}
RULE = ('non-trivial: a wallet that had lost its state scanned a ledger with at least one confidential coin of its own; '
        'told apart by the event trace')
STATES = '(chain, ambient chain, kind of address, kind of master key, form of the script, whose output, found or not)'
REAL = ['elementstx.core: derive_blinding_key, unblind, blind, codec', 'elementstx.wallet (confidential addresses)',
        'bitcointx (HD keys, addresses)', 'libsecp256k1 (keys, ECDH)']
STUB = ['secp256k1-zkp: native/simzkp.c', 'ledger and node: sim/node.py', 'wallet storage', 'operating system randomness']
ASSUMPTIONS = ['native/simzkp.c implements secp256k1-zkp', 'Python hmac and hashlib']

ALL = ('elements', 'elements/liquidv1', 'elements/elementsregtest', 'bitcoin', 'bitcoin/testnet')
TYPES = ('p2wpkh', 'p2pkh', 'p2sh', 'p2wsh', 'p2tr')


def warmup():
    world.warm_native()


def truth_key(master, script):
    """standard derivation, without the library"""
    return hmac.new(master, script, hashlib.sha256).digest()


class Wallet:
    """Durable: seed, number of addresses handed out, scan position and coins found
    (in a file that may lose its tail)"""

    def __init__(self, sim, no, chain, ledger):
        self.sim = sim
        self.no = no
        self.chain = chain
        self.seed = gen.nzbytes(sim, 32, 'seed')
        self.master_kind = sim.draw(6, 'master-kind')
        self.handed = 0
        self.truth = {}             # point -> Coin: what was really sent to it
        self.ledger = ledger
        self.disk = world.Disk(sim)
        self.boot()

    def boot(self):
        """from the seed only"""
        from bitcointx.wallet import CCoinExtKey
        world.select(self.chain)
        self.xkey = CCoinExtKey.from_seed(self.seed)
        self.master_secret = hmac.new(hmac.new(b'Symmetric key seed', self.seed, hashlib.sha512).digest(),
                                      b'\x00SLIP-0077', hashlib.sha512).digest()[32:]
        self.master = self.make_master()
        self.addrs = {}
        self.scripts = {}
        for i in range(self.handed):
            self.address(i)
        self.coins = {}
        self.pos = 0

    def make_master(self):
        """the master blinding key, in one of the forms in which an application may keep it"""
        from bitcointx.core.key import CKey
        import elementstx.wallet as ew
        from bitcointx.wallet import CBitcoinKey, CCoinKey
        b = self.master_secret
        k = self.master_kind
        if k == 0:
            return CKey(b)
        if k == 1:
            return CKey(b, False)
        if k == 2:
            return ew.CElementsKey.from_secret_bytes(b)
        if k == 3:
            return CBitcoinKey.from_secret_bytes(b, compressed=False)
        if k == 4:
            return ew.CElementsLiquidV1Key(str(ew.CElementsLiquidV1Key.from_secret_bytes(b)))
        return CCoinKey.from_secret_bytes(b)

    def address(self, i):
        """plain address number i"""
        import bitcointx.wallet as bw
        if i in self.addrs:
            return self.addrs[i]
        pub = self.xkey.derive_path('m/0h/%d' % i).pub
        typ = TYPES[(self.no + i * 3) % 5]
        if typ == 'p2wpkh':
            a = bw.P2WPKHCoinAddress.from_pubkey(pub)
        elif typ == 'p2pkh':
            a = bw.P2PKHCoinAddress.from_pubkey(pub)
        elif typ == 'p2sh':
            a = bw.P2SHCoinAddress.from_redeemScript(bw.P2WPKHCoinAddress.from_pubkey(pub).to_scriptPubKey())
        elif typ == 'p2wsh':
            a = bw.P2WSHCoinAddress.from_redeemScript(bw.P2PKHCoinAddress.from_pubkey(pub).to_scriptPubKey())
        else:
            a = bw.P2TRCoinAddress.from_pubkey(pub)
        spk = bytes(a.to_scriptPubKey())
        self.sim.eq(spk, R.script(typ, bytes(a)), 'script', 'address %d' % i)
        self.addrs[i] = (a, typ, spk)
        self.scripts[spk] = i
        return self.addrs[i]

    def script_form(self, spk):
        from elementstx.core.script import CElementsScript
        k = self.sim.draw(4, 'script-form')
        if k == 0:
            return CElementsScript(spk)
        if k == 1:
            return bytes(spk)
        if k == 2:
            return bytearray(spk)
        if self.chain in world.ELEMENTS_CHAINS and world_chain() in ELS:
            from bitcointx.core.script import CScript
            return CScript(spk)
        return CElementsScript(spk)

    def key_for(self, spk, what):
        import elementstx.core as c
        from bitcointx.core.key import CKey
        sim = self.sim
        k = c.derive_blinding_key(self.master, self.script_form(spk))
        want = truth_key(self.master_secret, spk)
        sim.check(isinstance(k, CKey), 'key-type', lambda: '%s: %r' % (what, type(k)))
        sim.check(k.secret_bytes == want, 'derivation', lambda: '%s: blinding key differs from the standard derivation' % what)
        sim.check(len(k.pub) == 33 and bytes(k.pub) == bytes(ct.pub(want)), 'derivation-pub', what)
        return k

    def new_address(self):
        """-> string to be given to a sender"""
        import bitcointx.wallet as bw
        from elementstx.wallet import CCoinConfidentialAddress
        sim = self.sim
        world.select(self.chain)
        i = self.handed if sim.chance(3, 4, 'fresh') or not self.handed else sim.draw(self.handed, 'reuse')
        if i == self.handed:
            self.handed += 1
        a, typ, spk = self.address(i)
        key = self.key_for(a.to_scriptPubKey() if sim.chance(1, 3, 'as-is') else spk, 'address %d' % i)
        if sim.chance(1, 2, 'generic'):
            ca = CCoinConfidentialAddress.from_unconfidential(a, key.pub)
        else:
            ca = getattr(bw_conf(), '%sCoinConfidentialAddress' % typ.upper()).from_unconfidential(a, key.pub)
        s = str(ca)
        sim.eq(s, R.encode(self.chain, typ, bytes(a), bytes(key.pub)), 'address-string', typ)
        sim.state('address', self.chain, typ, self.master_kind)
        _ = bw
        return s, spk

    # ---- scanning
    def scan(self, order, ambient, stop=None):
        """looks at ledger entries in the given order; may be stopped by a crash"""
        import elementstx.core as c
        sim = self.sim
        world.select(ambient)
        for n, (tid, raw) in enumerate(order):
            if stop is not None and n >= stop:
                return False
            cls = c.CElementsTransaction if sim.chance(1, 2, 'tx-class') else c.CElementsMutableTransaction
            tx = cls.deserialize(raw)
            sim.eq(tx.GetTxid(), tid, 'txid', 'scan')
            for k, o in enumerate(tx.vout):
                self.look(c, tx, tid, k, o, ambient)
            self.disk.append(tid)
            if sim.chance(1, 2, 'sync'):
                self.disk.sync()
        return True

    def look(self, c, tx, tid, k, o, ambient):
        sim = self.sim
        spk = bytes(o.scriptPubKey)
        mine = spk in self.scripts
        if not o.nValue.is_commitment():
            if mine:
                self.coins[(tid, k)] = (o.nAsset.to_asset().data, o.nValue.to_amount(), ZERO32, ZERO32)
            return
        if not spk:
            raise HarnessError('blinded fee')
        if not mine and not sim.chance(1, 2, 'try-foreign'):
            return
        key = self.key_for(o.scriptPubKey if sim.chance(1, 2, 'as-is') else spk, 'output %d' % k)
        rp = tx.wit.vtxoutwit[k].rangeproof
        form = sim.draw(3, 'unblind-form')
        if form == 0:
            r = o.unblind_confidential_pair(key, rp)
        elif form == 1:
            r = c.unblind_confidential_pair(blinding_key=key, confValue=o.nValue, confAsset=o.nAsset, confNonce=o.nNonce,
                                            committedScript=o.scriptPubKey, rangeproof=bytes(rp))
        else:
            from elementstx.core.script import CElementsScript
            r = c.unblind_confidential_pair(
                blinding_key=key, confValue=c.CConfidentialValue(o.nValue.commitment), confAsset=c.CConfidentialAsset(o.nAsset.commitment),
                confNonce=c.CConfidentialNonce(o.nNonce.commitment), committedScript=CElementsScript(spk), rangeproof=bytearray(rp))
        sim.state('scan', self.chain, ambient, mine, r.ok, form)
        if r.ok:
            self.coins[(tid, k)] = (r.asset.data, r.amount, r.blinding_factor.data, r.asset_blinding_factor.data)
            d = r.get_descriptor()
            sim.check((d.asset, d.amount, d.blinding_factor, d.asset_blinding_factor)
                      == (r.asset, r.amount, r.blinding_factor, r.asset_blinding_factor), 'descriptor', 'output %d' % k)
        else:
            sim.check(isinstance(r, c.UnblindingFailure) and r.error, 'result', repr(r))

    def compare(self, unspent, what):
        sim = self.sim
        want = {pt: (cn.asset, cn.amount, cn.vbf, cn.abf) for pt, cn in self.truth.items() if pt in self.ledger.known}
        missing = sorted(set(want) - set(self.coins))
        extra = sorted(set(self.coins) - set(want))
        sim.check(not missing, 'coin-not-found', lambda: '%s: wallet %d does not find %d of its coins' % (what, self.no, len(missing)))
        sim.check(not extra, 'foreign-coin', lambda: '%s: wallet %d takes %d coins of others for its own' % (what, self.no, len(extra)))
        for pt in want:
            sim.check(self.coins[pt] == want[pt], 'wrong-coin', lambda: '%s: coin is (%s, %d), wallet reads (%s, %d) or other factors' % (
                what, want[pt][0].hex()[:8], want[pt][1], self.coins[pt][0].hex()[:8], self.coins[pt][1]))
        sim.log('compared', self.no, len(want))
        return len(want)


ELS = ('elements', 'elements/liquidv1', 'elements/elementsregtest')


def world_chain():
    from bitcointx import get_current_chain_params
    return get_current_chain_params().NAME


def bw_conf():
    import elementstx.wallet as ew
    return ew


class Ledger:
    def __init__(self):
        self.node = Node()
        self.txs = []               # (txid, raw)
        self.known = set()          # outputs that exist


def pay(sim, led, wallets, coins, chain):
    """a transaction of a sender that pays to strings it was given"""
    import elementstx.core as c
    from bitcointx.wallet import CCoinAddress
    p = ct.plan(sim, coins=coins, issuances=sim.chance(1, 5, 'issue'), full=sim.chance(1, 3, 'full'), max_in=3, max_out=5, ensure=False)
    ct.set_params(sim, p)
    addr = {}
    for k, o in enumerate(p.outs):
        if not o['script'] or not o['amount']:
            continue
        o['wallet'] = None
        if o['script'][0] == 0x6a or not sim.chance(3, 4, 'pay-wallet'):
            continue
        w = sim.pick(wallets, 'payee')
        s, spk = w.new_address()
        world.select(chain)
        a = CCoinAddress(s)
        o['script'] = bytes(a.to_scriptPubKey())
        sim.eq(o['script'], spk, 'script', 'parsed address')
        mode = sim.wpick(((8, 'blinded'), (1, 'plain'), (1, 'other-key')), 'mode')
        o['wallet'] = o['payee'] = w
        o['mode'] = mode
        o['nonce'] = b''
        if mode == 'blinded':
            o['key'] = truth_key(w.master_secret, spk)
            addr[k] = a
        elif mode == 'plain':
            o['key'] = None
        else:       # a sender that uses a wrong key: nobody can expect to find it
            o['key'] = gen.secret(sim, 'wrong')
            o['wallet'] = None
    ct.fulfil(sim, p)
    for o in p.outs:        # fulfil may have changed what is blinded
        w = o.get('payee')
        if w is not None and o['key'] is None:
            o['wallet'] = w
        if w is not None and o.get('mode') == 'plain' and o['key'] is not None:
            o['key'] = truth_key(w.master_secret, o['script'])
            o['mode'] = 'blinded'
            o['wallet'] = w
    for cn in p.coins:
        if cn.point not in led.node.utxo:
            led.node.fund(cn.point[0], cn.point[1], cn.out)
    world.select(chain)
    tx = p.build(sim.draw(6, 'style'))
    if not p.blind_outs() and not p.blind_iss():
        if p.blinded_inputs():
            return
        vb = ab = [ZERO32] * len(p.outs)
    else:
        kw = p.request()
        for k, a in addr.items():
            if k < len(kw['output_pubkeys']) and p.outs[k]['key'] is not None:
                sim.eq(bytes(a.blinding_pubkey), bytes(kw['output_pubkeys'][k]), 'address-key', 'blinding key of the address')
                kw['output_pubkeys'][k] = a.blinding_pubkey
        res = tx.blind(**kw)
        sim.check(isinstance(res, c.BlindingSuccess), 'refused', lambda: '%s; %s' % ((res,), p.describe()))
        vb, ab = [b.data for b in res.blinding_factors], [b.data for b in res.asset_blinding_factors]
    raw = tx.serialize()
    try:
        tid = led.node.submit(raw)
    except Reject as e:
        sim.fail('rejected', 'the network rejects a payment: %s; %s' % (e, p.describe()))
    led.txs.append((tid, raw))
    t, _ = ref.decode(raw)
    for k, o in enumerate(p.outs):
        led.known.add((tid, k))
        w = o.get('wallet')
        if w is not None and o['script'] and o['amount']:
            w.truth[(tid, k)] = ct.Coin((tid, k), o['asset'], o['amount'], vb[k], ab[k], t['vout'][k])
    sim.op('pay', p.describe(), ','.join('-' if o.get('wallet') is None else '%d%s' % (o['wallet'].no, o['mode'][0]) for o in p.outs))


def deliver(sim, led):
    """the ledger as a wallet gets it: repeated, and in any order"""
    order = list(led.txs)
    if sim.chance(1, 3, 'reorder'):
        order = sim.shuffle(order, 'order')
        sim.fault('message-reordering')
    if order and sim.chance(1, 4, 'repeat'):
        order.insert(sim.draw(len(order) + 1, 'repeat-at'), order[sim.draw(len(order), 'repeat-which')])
        sim.fault('message-duplication')
    return order


def restore(sim, w, led, what):
    """the machine is lost; the seed is typed in again"""
    sim.fault('crash-state-lost')
    w.master_kind = sim.draw(6, 'master-kind2')
    w.boot()
    while True:
        order = deliver(sim, led)
        ambient = sim.pick(ALL, 'ambient')
        stop = sim.draw(len(order) + 1, 'crash-at') if order and sim.chance(1, 4, 'crash-in-scan') else None
        sim.op('scan', w.no, ambient, stop)
        if w.scan(order, ambient, stop):
            break
        sim.fault('crash-during-scan')
        w.disk.crash()
        w.boot()
    n = w.compare(None, what)
    if any(pt in led.known and w.truth[pt].vbf != ZERO32 for pt in w.truth):
        sim.nontrivial = True
    sim.probe('coins-recovered', n)


def spend(sim, led, w, wallets):
    """the recovered coins are as good as any"""
    pts = [pt for pt in sorted(w.coins) if pt in led.node.utxo]
    if not pts:
        return
    coins = []
    for _ in range(min(len(pts), sim.irange(1, 3, 'n-spend'))):
        pt = pts.pop(sim.draw(len(pts), 'which'))
        a, v, vb, ab = w.coins[pt]
        coins.append(ct.Coin(pt, a, v, vb, ab, led.node.utxo[pt]))
    sim.op('spend', w.no, len(coins))
    sim.probe('recovered-coins-spent', len(coins))
    pay(sim, led, wallets, coins, w.chain)


def derivation(sim, w):
    """the function itself, on any script"""
    import elementstx.core as c
    from bitcointx.core.script import CScript, CBitcoinScript
    world.select(sim.pick(ALL, 'ambient'))
    spk = gen.blob(sim, 'any-script', lens=(0, 1, 22, 25, 34, 35, 63, 64, 65, 200, 10001)) if sim.chance(1, 2, 'blob') \
        else ct.script(sim, sim.pick(ct.SCRIPTS, 'kind'))
    w.key_for(spk, 'any script')
    bad = sim.pick((CBitcoinScript(spk), spk.hex(), None, 5, [spk]), 'bad')
    _ = CScript
    if isinstance(bad, CBitcoinScript) or not isinstance(bad, (bytes, bytearray)):
        try:
            c.derive_blinding_key(w.master, bad)
        except TypeError:
            pass
        else:
            sim.fail('bad-script-accepted', type(bad).__name__)
    badkey = sim.pick((w.master_secret, None, w.master.pub, 7), 'badkey')
    try:
        c.derive_blinding_key(badkey, bytes(spk))
    except TypeError:
        pass
    else:
        sim.fail('bad-key-accepted', type(badkey).__name__)
    sim.op('derive', len(spk))


def read_paper(chain, kind, s):
    """what the wallets of the network make of a text; None if they refuse it"""
    b = R.b58check_dec(s)
    if b is None:
        return None
    f = jobs.fam(chain)
    if kind == 'key':
        if b[:1] != bytes([jobs.WIF[f]]) or len(b) not in (33, 34) or (len(b) == 34 and b[33] != 1):
            return None
        if not 0 < int.from_bytes(b[1:33], 'big') < gen.SECP_N:
            return None
        return b[1:33], len(b) == 34
    v = jobs.XPRV[f] if kind == 'xprv' else jobs.XPUB[f]
    return b[4:] if b[:4] == v and len(b) == 78 else None


def paper(sim, chain):
    """keys on paper: written and read by this library and by other software of the network, under damage"""
    from bitcointx.wallet import CCoinExtKey, CCoinExtPubKey, CCoinKey
    world.select(chain)
    f = jobs.fam(chain)
    kind = sim.pick(('key', 'key', 'xprv', 'xpub'), 'paper')
    cls = {'key': CCoinKey, 'xprv': CCoinExtKey, 'xpub': CCoinExtPubKey}[kind]
    if kind == 'key':
        sec = gen.secret(sim, 'paper-key')
        comp = not sim.chance(1, 3, 'uncompressed')
        body = sec + (b'\x01' if comp else b'')
        k = CCoinKey.from_secret_bytes(sec, compressed=comp)
        ver = {g: bytes([w]) for g, w in jobs.WIF.items()}
    else:
        k = CCoinExtKey.from_seed(gen.nzbytes(sim, 32, 'paper-seed')).derive_path('m/%d/%dh' % (sim.draw(5, 'a'), sim.draw(5, 'b')))
        if kind == 'xpub':
            k = k.neuter()
        ver = jobs.XPRV if kind == 'xprv' else jobs.XPUB
        body = bytes(k)
    text = R.b58check(ver[f] + body)
    sim.eq(str(k), text, 'paper-form', '%s of %s' % (kind, chain))
    d = sim.draw(6, 'paper-fate')
    if d == 1:
        text = R.b58check(ver[sim.pick(sorted(ver), 'of-chain')] + body)
    elif d == 2:
        i = sim.draw(len(text), 'at')
        text = text[:i] + sim.pick(R.B58 + '0OIl ', 'char') + text[i + 1:]
        sim.fault('backup-damage')
    elif d == 3:
        i = sim.draw(len(text) - 1, 'at')
        text = text[:i] + text[i + 1] + text[i] + text[i + 2:]
        sim.fault('backup-damage')
    elif d == 4:
        text = text[:sim.draw(len(text), 'cut')]
        sim.fault('backup-damage')
    elif d == 5:
        text = R.b58check(bytes([sim.draw(256, 'version')]) + (ver[f] + body)[1:])
    if sim.chance(1, 8, 'elsewhere'):
        world.select(sim.pick(world.ELEMENTS_CHAINS, 'other'))
    chain = world_chain()
    want = read_paper(chain, kind, text)
    try:
        got = cls(text)
    except Exception as e:
        sim.check(want is None, 'paper-refused', lambda: '%s %r of %s: %r' % (kind, text, chain, e))
        from bitcointx.base58 import Base58Error
        sim.check(isinstance(e, (Base58Error, ValueError)), 'paper-error', repr(e))
    else:
        sim.check(want is not None, 'paper-accepted', lambda: '%s %r is no %s of %s' % (kind, text, kind, chain))
        have = (bytes(got.secret_bytes), got.is_compressed()) if kind == 'key' else bytes(got)
        sim.eq(have, want, 'paper-read', '%s %r' % (kind, text))
        sim.eq(str(got), text, 'paper-form', 'written again')
    sim.op('paper', kind, chain, text, want is not None)
    sim.state('paper', kind, chain, d, want is not None)
    sim.probe('backup-read' if want is not None else 'backup-refused')


def run(sim):
    if sim.chance(1, 8, 'together'):
        return jobs.together(sim, (jobs.derive,), world.ELEMENTS_CHAINS)
    chain = sim.pick(world.ELEMENTS_CHAINS, 'chain')
    ct.weigh(sim)
    led = Ledger()
    wallets = [Wallet(sim, k, chain, led) for k in range(sim.irange(1, 3, 'wallets'))]
    world.select(chain)
    for _ in range(sim.irange(1, 4 if sim.data['light'] else 2, 'steps')):
        s = sim.draw(6, 'step')
        w = sim.pick(wallets, 'wallet')
        if s < 3:
            pay(sim, led, wallets, None, chain)
        elif s == 3:
            restore(sim, w, led, 'restored')
            spend(sim, led, w, wallets)
        elif s == 4:
            derivation(sim, w)
            if sim.chance(1, 2, 'paper'):
                paper(sim, chain)
        else:
            w.scan(deliver(sim, led), sim.pick(ALL, 'ambient'))
            w.compare(None, 'running')
    for w in wallets:
        restore(sim, w, led, 'end')
    w = sim.pick(wallets, 'last')
    spend(sim, led, w, wallets)
