"""Confidential transactions for simulated wallets: coins, plans of balanced
transactions, blinding requests, and what is expected of the results.

A plan is made of plain values only; every amount and asset in it is known to
the simulator, so results of the library are judged against the plan and never
against the library itself."""

import hashlib

from sim import gen, ref
from sim.node import nat, ZERO32, MAX_MONEY, explicit_asset
from sim.tape import HarnessError

SCRIPTS = ('p2wpkh', 'p2pkh', 'p2sh', 'p2tr', 'p2wsh', 'op_return', 'long', 'odd')


def script(sim, kind, label='spk'):
    if kind == 'p2wpkh':
        return b'\x00\x14' + gen.nzbytes(sim, 20, label)
    if kind == 'p2pkh':
        return b'\x76\xa9\x14' + gen.nzbytes(sim, 20, label) + b'\x88\xac'
    if kind == 'p2sh':
        return b'\xa9\x14' + gen.nzbytes(sim, 20, label) + b'\x87'
    if kind == 'p2tr':
        return b'\x51\x20' + gen.nzbytes(sim, 32, label)
    if kind == 'p2wsh':
        return b'\x00\x20' + gen.nzbytes(sim, 32, label)
    if kind == 'op_return':
        return b'\x6a\x04' + gen.nzbytes(sim, 4, label)
    if kind == 'long':
        return b'\x51' * sim.pick((10000, 10001), label + '-len')
    if kind == 'odd':
        return gen.nzbytes(sim, sim.pick((1, 2, 300), label + '-len'), label)
    raise HarnessError(kind)


class Coin:
    """an unspent output and everything its owner knows of it"""

    def __init__(self, point, asset, amount, vbf, abf, out):
        self.point = point
        self.asset = asset
        self.amount = amount
        self.vbf = vbf
        self.abf = abf
        self.out = out          # what the ledger shows

    def descriptor(self):
        import elementstx.core as c
        from bitcointx.core import Uint256
        return c.BlindingInputDescriptor(
            asset=c.CAsset(self.asset), amount=self.amount,
            blinding_factor=Uint256(self.vbf), asset_blinding_factor=Uint256(self.abf))

    def generator(self):
        return nat().generator(self.asset, self.abf)


def coin(sim, asset, amount, kind, spk=None, point=None):
    """kind: explicit, blinded, value (only the amount is blinded), asset (only
    the asset is blinded)"""
    n = nat()
    vbf = gen.secret(sim, 'vbf') if kind in ('blinded', 'value') else ZERO32
    abf = gen.secret(sim, 'abf') if kind in ('blinded', 'asset') else ZERO32
    g = n.generator(asset, abf)
    out = {'asset': b'\x01' + asset if abf == ZERO32 else g,
           'value': b'\x01' + amount.to_bytes(8, 'big') if vbf == ZERO32 else n.commit(vbf, amount, g),
           'nonce': b'' if kind == 'explicit' else b'\x02' + gen.nzbytes(sim, 32, 'coin-nonce'),
           'script': script(sim, 'p2wpkh', 'coin-spk') if spk is None else spk}
    if point is None:
        point = (gen.nzbytes(sim, 32, 'prevhash'), sim.pick((0, 1, 2, 7, 0x3ffffffe), 'prev-n'))
    return Coin(point, asset, amount, vbf, abf, out)


AMOUNTS = (1, 2, 1000, 99999999, 100000000, (1 << 32) - 1, 1 << 32, (1 << 51) + 1, MAX_MONEY - 1, MAX_MONEY)


def weigh(sim):
    """how expensive the proofs of this run may be (52-bit proofs cost 50 ms each)"""
    sim.data['light'] = not sim.chance(1, 6, 'heavy')
    return sim.data['light']


def set_params(sim, p):
    """range proof parameters of the request"""
    if sim.data.get('light') or sim.chance(1, 3, 'ct-params'):
        p.bits = sim.pick((3, 4, 5, 8, 12) if sim.data.get('light') else (3, 8, 16, 32, 36, 51, 52, 60, 62, 64), 'ct-bits')
        p.exp = sim.wpick(((6, None), (2, 0), (2, 1), (1, 2), (1, 3), (1, 18)), 'ct-exp')


def amount(sim, label='amount', cap=MAX_MONEY):
    if sim.data.get('light'):
        return min(cap, 1 + sim.draw(sim.pick((7, 200, 5000), label + '-range'), label))
    k = sim.draw(len(AMOUNTS) + 4, label + '-kind')
    v = AMOUNTS[k] if k < len(AMOUNTS) else 1 + sim.draw(1000000, label)
    return max(1, min(v, cap))


def split(sim, total, parts, label='split'):
    """positive parts with the given sum, each inside of the money range"""
    parts = max(1, min(parts, total))
    while total > parts * MAX_MONEY:
        parts += 1
    out = []
    left = total
    for k in range(parts - 1):
        rest = parts - k - 1
        lo = max(1, left - rest * MAX_MONEY)
        hi = min(left - rest, MAX_MONEY)
        v = lo + (sim.draw(hi - lo + 1, label) if hi > lo else 0)
        out.append(v)
        left -= v
    out.append(left)
    return out


class Plan:
    """one balanced transaction and the request to blind it"""

    def __init__(self):
        self.version = 2
        self.locktime = 0
        self.coins = []
        self.seqs = []
        self.pegins = []
        self.inwits = []
        self.iss = []           # per input: None or dict
        self.outs = []          # dict asset amount script key(32 secret bytes or None) nonce
        self.aux = []           # list of bytes
        self.hidden = set()     # inputs whose descriptor is withheld
        self.exp = None
        self.bits = None
        self.strict = True
        self.tail_style = 0

    # ---- model of the unblinded transaction
    def model(self):
        t = {'version': self.version, 'locktime': self.locktime, 'vin': [], 'vout': [],
             'inwit': [], 'outwit': []}
        for i, c in enumerate(self.coins):
            iss = self.iss[i]
            m = None
            if iss is not None:
                m = {'nonce': iss['nonce'], 'entropy': iss['entropy'],
                     'amount': b'' if iss['amount'] is None else b'\x01' + iss['amount'].to_bytes(8, 'big'),
                     'keys': b'' if iss['tokens'] is None else b'\x01' + iss['tokens'].to_bytes(8, 'big')}
            t['vin'].append({'hash': c.point[0], 'n': c.point[1], 'script': b'', 'seq': self.seqs[i],
                             'iss': m, 'pegin': self.pegins[i]})
            t['inwit'].append(dict(self.inwits[i]))
        for o in self.outs:
            t['vout'].append({'asset': b'\x01' + o['asset'], 'value': b'\x01' + o['amount'].to_bytes(8, 'big'),
                              'nonce': o['nonce'], 'script': o['script']})
            t['outwit'].append(ref.empty_outwit())
        return t

    def build(self, style=0):
        """a mutable transaction object"""
        import elementstx.core as c
        t = self.model()
        style %= 6
        if style == 0:
            return gen.lib_tx(t, mutable=True)
        if style == 1:
            tx = c.CElementsMutableTransaction()
            tx.nVersion = t['version']
            tx.nLockTime = t['locktime']
            for i in t['vin']:
                tx.vin.append(gen.lib_in(i, True))
            for o in t['vout']:
                tx.vout.append(gen.lib_out(o, True))
            if any(not ref.inwit_null(w) for w in t['inwit']):
                for w in t['inwit']:
                    tx.wit.vtxinwit.append(gen.lib_inwit(w, True))
            return tx
        if style == 2:
            return c.CElementsMutableTransaction.deserialize(ref.encode(t))
        if style == 3:
            return gen.lib_tx(t, mutable=False, style=31).to_mutable()
        if style == 4:
            return c.CElementsTransaction.deserialize(ref.encode(t)).to_mutable()
        tx = gen.lib_tx(t, mutable=True, style=8)
        return c.CElementsMutableTransaction.from_tx(tx)

    def descriptors(self):
        import elementstx.core as c
        from bitcointx.core import Uint256
        out = []
        for i, cn in enumerate(self.coins):
            if i in self.hidden:
                out.append(c.BlindingInputDescriptor(asset=c.CAsset(), amount=-1, blinding_factor=Uint256(),
                                                     asset_blinding_factor=Uint256()))
            else:
                out.append(cn.descriptor())
        return out

    def pubkeys(self):
        from bitcointx.core.key import CPubKey
        pk = [CPubKey() if o['key'] is None else pub(o['key']) for o in self.outs]
        if self.tail_style & 1:
            while pk and not pk[-1]:
                pk.pop()
        return pk

    def asset_keys(self):
        return self._keys('akey', 2)

    def token_keys(self):
        return self._keys('tkey', 4)

    def _keys(self, name, bit):
        ks = [None if x is None or x[name] is None else seckey(x[name]) for x in self.iss]
        if self.tail_style & bit:
            while ks and ks[-1] is None:
                ks.pop()
        return ks

    def request(self):
        kw = dict(input_descriptors=self.descriptors(), output_pubkeys=self.pubkeys())
        a, b = self.asset_keys(), self.token_keys()
        if a:
            kw['blind_issuance_asset_keys'] = a
        if b:
            kw['blind_issuance_token_keys'] = b
        if self.aux:
            kw['auxiliary_generators'] = list(self.aux)
        if self.exp is not None:
            kw['custom_ct_exponent'] = self.exp
        if self.bits is not None:
            kw['custom_ct_bits'] = self.bits
        if not self.strict:
            kw['is_blind_success_strict'] = False
        return kw

    # ---- what the request asks for
    def blind_outs(self):
        return [k for k, o in enumerate(self.outs) if o['key'] is not None]

    def blind_iss(self):
        out = []
        for i, x in enumerate(self.iss):
            if x is not None:
                if x['akey'] is not None:
                    out.append((i, 'amount'))
                if x['tkey'] is not None:
                    out.append((i, 'tokens'))
        return out

    def blinded_inputs(self):
        return [i for i, c in enumerate(self.coins) if i not in self.hidden
                and (c.vbf != ZERO32 or c.abf != ZERO32)]

    def ids(self, i):
        x = self.iss[i]
        ent = x['entropy'] if x['nonce'] != ZERO32 else \
            ref.asset_entropy(self.coins[i].point[0], self.coins[i].point[1], x['entropy'])
        conf = x['akey'] is not None
        return ent, ref.asset_id(ent), ref.token_id(ent, conf)

    def describe(self):
        return 'in=%s iss=%s out=%s' % (
            ','.join('%s%s%s' % ('e' if c.vbf == ZERO32 and c.abf == ZERO32 else
                                 'v' if c.abf == ZERO32 else 'a' if c.vbf == ZERO32 else 'b',
                                 'p' if self.pegins[i] else '', 'h' if i in self.hidden else '')
                     for i, c in enumerate(self.coins)),
            ','.join('-' if x is None else ('R' if x['nonce'] != ZERO32 else 'N')
                     + ('0' if x['amount'] is None else 'x' if x['akey'] is None else 'c')
                     + ('0' if x['tokens'] is None else 'x' if x['tkey'] is None else 'c')
                     for x in self.iss),
            ','.join(('c' if o['key'] else 'x') + ('f' if not o['script'] else '') for o in self.outs))

    def shape(self):
        return self.describe()


def expected_proof_params(amount, exp, bits, minv):
    """(exp, mantissa, value_min) of a range proof, by the published rule"""
    max_bits = 64 if minv == 0 else 64 - minv.bit_length()
    bits = min(bits, max_bits)
    if bits > 61 or amount > (1 << 63) - 1:
        exp = 0
    v = amount - minv
    v2 = ((1 << bits) - 1) if bits else 0
    k = 0
    while k < exp and v2 <= ((1 << 64) - 1) // 10:
        v //= 10
        v2 *= 10
        k += 1
    exp = k
    minv = amount - v * 10 ** exp
    mant = 1
    while v >> mant:
        mant += 1
    mant = max(mant, bits)
    return exp, mant, minv


_pk = {}


def seckey(b):
    from bitcointx.core.key import CKey
    if b not in _pk:
        _pk[b] = CKey(b)
    return _pk[b]


def pub(b):
    return seckey(b).pub


def asset_tag(k):
    return hashlib.sha256(b'asset%d' % k).digest()


def plan(sim, coins=None, max_in=4, max_out=6, issuances=True, fees=True, nassets=3, reissue=(), full=True,
         ensure=True, bulk=None):
    """a balanced plan.

    coins: spend exactly these; None: invent some.
    reissue: [(coin index, entropy, confidential, key)] inputs that are reissuance tokens
    ensure: make the request one that strict blinding can fulfil
    bulk: 'in' for a consolidation of many coins, 'out' for a payout to many"""
    p = Plan()
    room_for_all = 0
    if bulk == 'in':
        coins = bulk_coins(sim, nassets)
        max_out = 4
    elif bulk == 'out':
        room_for_all = sim.pick(BULK_OUT, 'bulk-out')
        coins = [coin(sim, asset_tag(0), 1000 + sim.draw(100000, 'bulk-amount'), sim.pick(('explicit', 'blinded'), 'coin-kind'))]
        fees = sim.chance(1, 2, 'bulk-fee')
    if full:
        p.version = sim.pick((2, 1, 0, -1, 3), 'version')
        p.locktime = sim.pick((0, 0, 1, 499999999, 0xffffffff), 'locktime')
        p.tail_style = sim.draw(8, 'tail-style')
    if coins is None:
        na = sim.irange(1, nassets, 'n-assets')
        coins = []
        for i in range(sim.irange(1, max_in, 'n-in')):
            coins.append(coin(sim, asset_tag(sim.draw(na, 'asset')), amount(sim),
                              sim.wpick(((5, 'blinded'), (3, 'explicit'), (1, 'value'), (1, 'asset')), 'coin-kind')))
        pts = {}
        for i, c in enumerate(coins):
            if c.point in pts:
                c.point = (ref.sha(c.point[0] + b'%d' % i), c.point[1])
            pts[c.point] = i
    p.coins = list(coins)
    n = len(coins)
    p.seqs = [sim.pick((0xffffffff, 0xfffffffe, 0, 1, 0x80000001), 'seq') if full else 0xffffffff for _ in range(n)]
    p.pegins = [False] * n
    p.inwits = [ref.empty_inwit() for _ in range(n)]
    p.iss = [None] * n
    if full and sim.chance(1, 6, 'signed'):
        for i in range(n):
            if sim.chance(1, 2, 'signed-in'):
                p.inwits[i]['stack'] = [sim.bytes(5, 'sig'), sim.bytes(33, 'sigkey')]
    if full and sim.chance(1, 8, 'pegin'):
        i = sim.draw(n, 'pegin-at')
        p.pegins[i] = True
        p.inwits[i]['pegin'] = [sim.bytes(8, 'pegin-wit') for _ in range(sim.irange(1, 3, 'pegin-items'))]
    supply = {}
    for c in coins:
        supply[c.asset] = supply.get(c.asset, 0) + c.amount
    for (i, ent, conf, key) in reissue:
        x = {'nonce': coins[i].abf, 'entropy': ent, 'amount': amount(sim, 'reissue'), 'tokens': None,
             'akey': key if conf else None, 'tkey': None, 'conf': conf}
        p.iss[i] = x
        a = ref.asset_id(ent)
        supply[a] = supply.get(a, 0) + x['amount']
    if issuances:
        for i in range(n):
            if p.iss[i] is None and not (p.pegins[i] and coins[i].point[1] == 0x3fffffff) \
                    and n < 20 and sim.chance(1, 4 if n < 12 else 12, 'issue'):      # (proofs miss single targets among many)
                k = sim.draw(3, 'issue-kind')
                x = {'nonce': ZERO32, 'entropy': sim.bytes(32, 'contract'),
                     'amount': None if k == 2 else amount(sim, 'issue'),
                     'tokens': None if k == 0 else amount(sim, 'tokens', cap=1000),
                     'akey': None, 'tkey': None}
                if x['amount'] is not None and sim.chance(1, 2, 'akey'):
                    x['akey'] = gen.secret(sim, 'akey')
                if x['tokens'] is not None and sim.chance(1, 2, 'tkey'):
                    x['tkey'] = gen.secret(sim, 'tkey')
                x['conf'] = x['akey'] is not None
                p.iss[i] = x
                ent, a, tok = p.ids(i)
                if x['amount'] is not None:
                    supply[a] = supply.get(a, 0) + x['amount']
                if x['tokens'] is not None:
                    supply[tok] = supply.get(tok, 0) + x['tokens']
    # outputs
    assets = sorted(supply)
    outs = []
    for a in assets:
        total = supply[a]
        if fees and a == coins[0].asset and total > 1 and sim.chance(3, 4, 'fee'):
            f = 1 + sim.draw(min(total - 1, 5000), 'fee-amount')
            outs.append({'asset': a, 'amount': f, 'script': b'', 'key': None, 'nonce': b''})
            total -= f
        room = max(1, max_out // len(assets))
        for v in split(sim, total, room_for_all or sim.irange(1, room, 'n-out')):
            if room_for_all and len(outs) % 8:
                # most outputs of a payout are alike
                outs.append({'asset': a, 'amount': v, 'script': b'\x00\x14' + ref.sha(b'%d' % len(outs))[:20], 'key': None,
                             'nonce': b''})
                continue
            kind = sim.wpick(((8, 'p2wpkh'), (2, 'p2pkh'), (2, 'p2sh'), (2, 'p2tr'), (1, 'p2wsh'), (1, 'op_return'),
                              (1, 'odd')), 'spk-kind')
            outs.append({'asset': a, 'amount': v, 'script': script(sim, kind), 'key': None, 'nonce': b''})
    if full and sim.chance(1, 10, 'zero-burn'):
        outs.append({'asset': assets[0], 'amount': 0, 'script': script(sim, 'op_return'), 'key': None, 'nonce': b''})
    if full and sim.chance(1, 25, 'long-spk'):
        if outs[-1]['script'] and outs[-1]['amount']:
            outs[-1]['script'] = script(sim, 'long')
    if full and len(outs) > 1:
        outs = sim.shuffle(outs, 'out-order')
    p.outs = outs
    for o in outs:
        if o['script'] and (sim.chance(3, 4, 'blind-out') if not room_for_all else
                            o is outs[-1] or sim.chance(1, 40, 'blind-out')):
            o['key'] = gen.secret(sim, 'bkey')
            if full and sim.chance(1, 6, 'nonce-marker'):
                o['nonce'] = bytes(pub(o['key']))
    if full:
        for o in outs:
            if o['key'] is None and o['script'] and sim.chance(1, 8, 'odd-nonce'):
                o['nonce'] = b'\x03' + gen.nzbytes(sim, 32, 'odd-nonce')
    if ensure:
        fulfil(sim, p)
    return p


BULK_IN = (16, 17, 32, 33, 64, 65, 100, 128, 200, 252, 253)
BULK_OUT = (16, 17, 32, 33, 64, 100, 128, 252, 253, 256, 257, 300)


def bulk(sim):
    """whether this transaction has many inputs or outputs"""
    return sim.wpick(((60, None), (1, 'in'), (1, 'out')), 'bulk')


def bulk_coins(sim, nassets):
    n = sim.pick(BULK_IN, 'bulk-in')
    na = sim.irange(1, nassets, 'n-assets')
    salt = sim.bytes(8, 'bulk-salt')
    out = []
    for i in range(n):
        kind = sim.wpick(((5, 'explicit'), (2, 'blinded')), 'coin-kind') if i % 8 == 0 or i == n - 1 else 'explicit'
        point = (ref.sha(salt + b'%d' % i), i % 3) if i % 8 else None
        out.append(coin(sim, asset_tag(i * i % na), 1 + sim.draw(2000, 'bulk-amount'), kind,
                        spk=b'\x00\x14' + ref.sha(b'in%d' % i)[:20], point=point))
    for i in range(0, n, 8):            # outpoints that were drawn may coincide
        out[i].point = (ref.sha(out[i].point[0] + b'%d' % i), out[i].point[1])
    return out


def fulfil(sim, p):
    """change the plan so that strict blinding has no reason to refuse it"""
    cand = [o for o in p.outs if o['script'] and o['amount'] > 0]
    if (p.blind_iss() or p.blinded_inputs()) and not p.blind_outs():
        if not cand:
            # a single explicit output: make it an ordinary one
            o = p.outs[-1]
            o['script'] = script(sim, 'p2wpkh')
            cand = [o]
        cand[-1]['key'] = gen.secret(sim, 'bkey')
    nb = len(p.blind_outs()) + len(p.blind_iss())
    if nb == 1 and not p.blinded_inputs() and p.blind_outs():
        # one thing to blind and nothing to balance it: impossible
        others = [o for o in cand if o['key'] is None]
        if others:
            others[0]['key'] = gen.secret(sim, 'bkey')
        else:
            o = p.outs[p.blind_outs()[0]]
            o['key'] = None
            o['nonce'] = b''
    return p


def targets(p):
    """surjection targets (asset ids; None where unknown) in the order of the network"""
    out = []
    for i, c in enumerate(p.coins):
        out.append(None if i in p.hidden else c.asset)
        x = p.iss[i]
        if x is not None:
            _, a, tok = p.ids(i)
            if x['amount'] is not None:
                out.append(a)
            if x['tokens'] is not None:
                out.append(tok)
    return out


def success_coins(p, tid, t, res):
    """coins of a successfully blinded transaction (t: its model), for its owner"""
    out = []
    for k, o in enumerate(p.outs):
        out.append(Coin((tid, k), o['asset'], o['amount'], res.blinding_factors[k].data,
                        res.asset_blinding_factors[k].data, t['vout'][k]))
    return out


def unblind_kw(out, rp, key):
    """arguments of unblind_confidential_pair for a model output"""
    import elementstx.core as c
    from elementstx.core.script import CElementsScript
    return dict(blinding_key=seckey(key), confValue=c.CConfidentialValue(out['value']),
                confAsset=c.CConfidentialAsset(out['asset']), confNonce=c.CConfidentialNonce(out['nonce']),
                committedScript=CElementsScript(out['script']), rangeproof=rp)


__all__ = ['Plan', 'Coin', 'explicit_asset']
