"""C15: issued assets and tokens keep one identity through their life"""

from sim import ct, gen, jobs, ref, world
from sim.node import Node, Reject, ZERO32, MAX_MONEY, unspendable, nat
from sim.tape import HarnessError

ID = 'C15'
TECHNIQUE = ('simulated ledger on which several wallets issue, reissue, trade and burn assets while blocks are reorganised, broadcasts '
             'lost and wallets crash; every identifier the library gives, in every form it can be asked for, is compared with '
             'that of the network over the life of the asset, and the openings of all coins are summed per asset')
RUNS = {'quick': 4500, 'thorough': 60000}
RULE = ('non-trivial: an asset or token was issued or reissued on the ledger and later seen again (transferred, reissued, reorganised or '
        'recovered by a restarted wallet); told apart by the event trace')
STATES = '(operation, shape of the transaction, chain, blinded or explicit issuance, reorganised, restarted)'
REAL = ['elementstx.core: generate_asset_entropy, calculate_asset, calculate_reissuance_token, blind, unblind, CAsset, CAssetIssuance, '
        'transaction codec', 'bitcointx', 'libsecp256k1 (keys, ECDH)']
STUB = ['secp256k1-zkp: native/simzkp.c', 'ledger, blocks and node: sim/node.py', 'wallet storage', 'operating system randomness']
ASSUMPTIONS = ['sim/ref.py computes entropy and identifiers as Elements Core does', 'native/simzkp.c implements secp256k1-zkp']


def warmup():
    world.warm_native()


class World:
    def __init__(self, sim):
        self.sim = sim
        self.node = Node()
        self.chain = []             # (raw, snapshot before it, plan info)
        self.open = {}              # point -> Coin (real opening), for every output ever made
        self.owner = {}             # point -> wallet number
        self.outkey = {}            # point -> blinding key
        self.ids = {}               # identifier -> what it is, over everything ever computed
        self.issued = {}            # entropy -> dict(asset, token, conf, key, point, contract)
        self.supply = {}            # asset -> amount that should be on the ledger
        self.funded = []
        self.life = 0

    # ---- snapshots of the ledger
    def snapshot(self):
        n = self.node
        return (dict(n.utxo), set(n.seen), dict(n.spent), set(n.entropies), list(n.txs), dict(self.supply), dict(self.issued))

    def restore(self, s):
        n = self.node
        n.utxo, n.seen, n.spent, n.entropies, n.txs = dict(s[0]), set(s[1]), dict(s[2]), set(s[3]), list(s[4])
        self.supply, self.issued = dict(s[5]), dict(s[6])
        for c in self.funded:           # coins from outside are older than any block here
            if c.point not in n.spent and c.point not in n.utxo:
                n.utxo[c.point] = c.out
                self.supply[c.asset] = self.supply.get(c.asset, 0) + c.amount

    def know(self, ident, what):
        """identifiers never collide"""
        old = self.ids.setdefault(ident, what)
        self.sim.check(old == what, 'identity-clash', lambda: 'one identifier for %s and for %s' % (old, what))


def outpoint(sim, point):
    """the issuing outpoint in one of the forms a wallet may hold it in"""
    import elementstx.core as c
    from bitcointx.core import COutPoint, CBitcoinOutPoint
    k = sim.draw(6, 'outpoint-form')
    h, n = point
    if k == 0:
        return c.CElementsOutPoint(h, n)
    if k == 1:
        return c.CElementsMutableOutPoint(h, n)
    if k == 2:
        return COutPoint(h, n)
    if k == 3:
        return CBitcoinOutPoint(h, n)
    if k == 4:
        return c.CElementsOutPoint.deserialize(h + n.to_bytes(4, 'little'))
    o = c.CElementsMutableOutPoint()
    o.hash = h
    o.n = n
    return o


def form32(sim, b, what):
    from bitcointx.core import Uint256
    k = sim.draw(4, what)
    return (bytes(b), bytearray(b), Uint256(b), Uint256.from_int(int.from_bytes(b, 'little')))[k]


def preview(w, point, contract, conf, what):
    """identifiers as the library computes them, against the network's"""
    import elementstx.core as c
    sim = w.sim
    ent = c.generate_asset_entropy(outpoint(sim, point), form32(sim, contract, 'contract-form'))
    want = ref.asset_entropy(point[0], point[1], contract)
    sim.eq(ent.data, want, 'entropy', what)
    return want, ids_of(w, want, conf, what, (point, contract))


def ids_of(w, ent, conf, what, origin):
    import elementstx.core as c
    sim = w.sim
    a = c.calculate_asset(form32(sim, ent, 'entropy-form'))
    t = c.calculate_reissuance_token(form32(sim, ent, 'entropy-form'), conf)
    sim.eq(a.data, ref.asset_id(ent), 'asset-id', what)
    sim.eq(t.data, ref.token_id(ent, conf), 'token-id', what)
    other = c.calculate_reissuance_token(form32(sim, ent, 'entropy-form'), not conf)
    sim.check(isinstance(a, c.CAsset) and isinstance(t, c.CAsset), 'type', what)
    w.know(a.data, ('asset', origin))
    w.know(t.data, ('token', conf, origin))
    w.know(other.data, ('token', not conf, origin))
    ca = c.CConfidentialAsset.from_asset(a)
    sim.check(ca.to_asset() == a and ca.commitment == b'\x01' + a.data and c.CConfidentialAsset(a).commitment == ca.commitment,
              'asset-form', what)
    sim.check(c.CAsset(bytes.fromhex(a.to_hex())[::-1]) == a, 'asset-form', what)
    return a.data, t.data


def view(w, raw, what):
    """a wallet that sees a transaction works out the identifiers of its issuances"""
    import elementstx.core as c
    sim = w.sim
    t, _ = ref.decode(raw)
    k = sim.draw(3, 'view')
    tx = c.CElementsTransaction.deserialize(raw)
    if k == 1:
        tx = tx.to_mutable()
    elif k == 2:
        tx = c.CElementsMutableTransaction.deserialize(raw)
    n = 0
    for i, vin in enumerate(tx.vin):
        iss = vin.assetIssuance
        sim.check(iss.is_null() == ref.iss_null(t['vin'][i]['iss']), 'issuance-null', what)
        if iss.is_null():
            continue
        n += bool(t['vin'][i]['iss']['amount']) + bool(t['vin'][i]['iss']['keys'])
        if iss.assetBlindingNonce == c.CAssetIssuance().assetBlindingNonce:
            ent = c.generate_asset_entropy(vin.prevout, iss.assetEntropy)
        else:
            ent = iss.assetEntropy
        from sim.node import issuance_ids
        ent2, a, tok = issuance_ids(t, i)
        sim.eq(bytes(ent.data if hasattr(ent, 'data') else ent), ent2, 'view-entropy', what)
        sim.eq(c.calculate_asset(ent).data, a, 'view-asset', what)
        sim.eq(c.calculate_reissuance_token(ent, iss.nAmount.is_commitment()).data, tok, 'view-token', what)
    sim.eq(tx.num_issuances, n, 'num-issuances', what)
    return n


def coins_of(w, k):
    return [w.open[pt] for pt in sorted(w.node.utxo) if w.owner.get(pt) == k]


def choose(w, k, most=3):
    sim = w.sim
    pool = coins_of(w, k)
    out = []
    for _ in range(min(len(pool), sim.irange(1, most, 'n-coins'))):
        out.append(pool.pop(sim.draw(len(pool), 'coin')))
    return out


def near(sim, point):
    """an outpoint that differs a little: another output of the same transaction, or a similar transaction"""
    h, n = point
    if sim.chance(2, 3, 'near-n'):
        return h, n ^ (1 << sim.draw(30, 'n-bit'))
    x = bytearray(h)
    x[sim.draw(32, 'h-byte')] ^= 1 << sim.draw(8, 'h-bit')
    return (bytes(x), n) if any(x) else None


def relatives(w):
    """identifiers of issuances with outpoints and contracts that differ a little"""
    sim = w.sim
    pts = sorted(w.open)
    pt = pts[sim.draw(len(pts), 'base')]
    contract = sim.pick((ZERO32, sim.bytes(32, 'contract')), 'base-contract')
    sim.op('relatives')
    for i in range(sim.irange(2, 8, 'n-relatives')):
        preview(w, pt, contract, sim.chance(1, 2, 'conf'), 'relative %d' % i)
        if sim.chance(1, 4, 'contract-too'):
            x = bytearray(contract)
            x[sim.draw(32, 'c-byte')] ^= 1 << sim.draw(8, 'c-bit')
            contract = bytes(x)
        else:
            pt = near(sim, pt) or pt
    sim.probe('relatives')


def fund(w, k):
    sim = w.sim
    point = None
    if w.open and sim.chance(1, 3, 'near'):
        pts = sorted(w.open)
        point = near(sim, pts[sim.draw(len(pts), 'near-what')])
        if point is not None and point[1] >= 0x3fffffff:
            point = None
    c = ct.coin(sim, ct.asset_tag(0), 50 + ct.amount(sim), sim.pick(('explicit', 'blinded'), 'fund-kind'), point=point)
    if c.point in w.node.utxo or c.point in w.open:
        return None
    w.node.fund(c.point[0], c.point[1], c.out)
    w.open[c.point] = c
    w.owner[c.point] = k
    w.funded.append(c)
    w.supply[c.asset] = w.supply.get(c.asset, 0) + c.amount
    return c


def send(w, p, what, force_contract=None):
    """blind, broadcast; -> True if it is on the ledger"""
    sim = w.sim
    import elementstx.core as c
    style = sim.draw(6, 'style')
    for i, x in enumerate(p.iss):
        if x is None:
            continue
        if x['nonce'] == ZERO32:
            ent, (a, tok) = preview(w, p.coins[i].point, x['entropy'], x['conf'], what)
        else:
            ent = x['entropy']
            a, tok = ids_of(w, ent, x['conf'], what, origin_of(w, ent))
        x['_ids'] = (ent, a, tok)
    tx = p.build(style)
    if p.blind_outs() or p.blind_iss():
        res = tx.blind(**p.request())
        sim.check(isinstance(res, c.BlindingSuccess), 'refused', lambda: '%s: a well-formed request was refused: %s; %s' % (
            what, res, p.describe()))
        vb, ab = [b.data for b in res.blinding_factors], [b.data for b in res.asset_blinding_factors]
    elif p.blinded_inputs():
        return False
    else:
        vb = ab = [ZERO32] * len(p.outs)
    raw = tx.serialize()
    view(w, raw, what)
    if sim.chance(1, 10, 'lost'):
        sim.fault('broadcast-lost')
        if sim.chance(1, 2, 'never'):
            return False
    snap = w.snapshot()
    try:
        tid = w.node.submit(raw)
    except Reject as e:
        sim.fail('rejected', 'the network rejects a transaction of the wallet (%s): %s; %s' % (what, e, p.describe()))
    sim.eq(tx.GetTxid(), tid, 'txid', what)
    t, _ = ref.decode(raw)
    book(w, p, tid, t, vb, ab)
    w.chain.append((raw, snap, p))
    for i, x in enumerate(p.iss):
        if x is None:
            continue
        sim.probe('issuance' if x['nonce'] == ZERO32 else 'reissuance')
        if x['nonce'] != ZERO32:
            w.life += 1
        if x['akey'] is not None and x['amount'] is not None:
            issuer_unblinds(w, t, i, x, 'akey', 'amount', 'amount_rp', x['_ids'][1], what)
        if x['tkey'] is not None and x['tokens'] is not None:
            issuer_unblinds(w, t, i, x, 'tkey', 'keys', 'keys_rp', x['_ids'][2], what)
    return True


def origin_of(w, ent):
    x = w.issued.get(ent)
    if x is None:
        raise HarnessError('unknown entropy')
    return x['origin']


def issuer_unblinds(w, t, i, x, kname, field, rp, asset, what):
    """the issuer reads the blinded amount of its issuance"""
    import elementstx.core as c
    from elementstx.core.script import CElementsScript
    sim = w.sim
    iss = t['vin'][i]['iss']
    r = c.unblind_confidential_pair(
        blinding_key=ct.seckey(x[kname]), confValue=c.CConfidentialValue(iss[field]),
        confAsset=c.CConfidentialAsset.from_asset(c.CAsset(asset)), confNonce=c.CConfidentialNonce(b''),
        committedScript=CElementsScript(b''), rangeproof=t['inwit'][i][rp])
    want = x['amount'] if field == 'amount' else x['tokens']
    sim.check(r.ok and r.amount == want and r.asset.data == asset, 'issued-amount', lambda: '%s: %s of input %d is %d, issuer reads %s' % (
        what, field, i, want, r))


def book(w, p, tid, t, vb, ab):
    """what has happened, in the simulator's own books"""
    sim = w.sim
    for i, cn in enumerate(p.coins):
        w.supply[cn.asset] -= cn.amount
    for i, x in enumerate(p.iss):
        if x is None:
            continue
        ent, a, tok = x['_ids']
        if x['nonce'] == ZERO32:
            w.issued[ent] = {'asset': a, 'token': tok, 'conf': x['conf'], 'key': x['akey'] or gen.secret(sim, 'rkey'),
                             'origin': (p.coins[i].point, x['entropy'])}
    for k, o in enumerate(p.outs):
        pt = (tid, k)
        w.open[pt] = ct.Coin(pt, o['asset'], o['amount'], vb[k], ab[k], t['vout'][k])
        w.owner[pt] = o.get('to', 0)
        w.outkey[pt] = o['key']
        if pt in w.node.utxo:
            w.supply[o['asset']] = w.supply.get(o['asset'], 0) + o['amount']
        if o['asset'] != ct.asset_tag(0) and any(o['asset'] in (x['asset'], x['token']) for x in w.issued.values()):
            sim.probe('issued-asset-moved')


def audit(w, what):
    """all owners open all their coins on the ledger"""
    import elementstx.core as c
    sim = w.sim
    total = {}
    for pt in sorted(w.node.utxo):
        o = w.node.utxo[pt]
        cn = w.open[pt]
        key = w.outkey.get(pt)
        if key is None:
            if cn.abf == ZERO32 and cn.vbf == ZERO32:
                ca, cv = c.CConfidentialAsset(o['asset']), c.CConfidentialValue(o['value'])
                a, v = ca.to_asset().data, cv.to_amount()
            else:
                a, v = cn.asset, cn.amount      # a coin that was there from the start
        else:
            r = c.unblind_confidential_pair(**ct.unblind_kw(o, o['rp'], key))
            sim.check(r.ok, 'own-coin', lambda: '%s: owner cannot open its coin: %s' % (what, r))
            a, v = r.asset.data, r.amount
        sim.check(a == cn.asset, 'identity-changed', lambda: '%s: coin of asset %s is reported as %s' % (what, cn.asset.hex(), a.hex()))
        total[a] = total.get(a, 0) + v
    want = {a: v for a, v in w.supply.items() if v}
    sim.check({a: v for a, v in total.items() if v} == want, 'not-conserved', lambda: '%s: %s on the ledger, %s expected' % (
        what, {a.hex()[:8]: v for a, v in total.items()}, {a.hex()[:8]: v for a, v in want.items()}))
    sim.log('audit', len(w.node.utxo), len(want))


def assign(sim, p, nw):
    for o in p.outs:
        o['to'] = sim.draw(nw, 'to')


def transfer(w, k, nw, issue):
    sim = w.sim
    coins = choose(w, k)
    if sim.chance(1, 3, 'fresh') or not coins:
        c = fund(w, k)
        if c is not None:
            coins.append(c)
    if not coins:
        return
    # reissue what these coins are tokens of
    re = []
    for i, cn in enumerate(coins):
        for ent in sorted(w.issued):
            x = w.issued[ent]
            if cn.asset == x['token'] and cn.abf != ZERO32 and sim.chance(3, 4, 'reissue'):
                if w.supply.get(x['asset'], 0) < MAX_MONEY // 2:
                    re.append((i, ent, x['conf'], x['key']))
    p = ct.plan(sim, coins=coins, reissue=re, issuances=issue, full=sim.chance(1, 3, 'full'), max_out=5)
    # tokens are kept confidential so that they can be used again
    ct.set_params(sim, p)
    assign(sim, p, nw)
    what = 'tx%d' % len(w.chain)
    sim.op('send', k, p.describe())
    sim.state('send', p.shape(), bool(re), len(w.chain) > 0)
    send(w, p, what)


def reorg(w):
    sim = w.sim
    if not w.chain:
        return
    n = 1 + sim.draw(min(3, len(w.chain)), 'reorg-depth')
    gone = w.chain[-n:]
    del w.chain[-n:]
    w.restore(gone[0][1])
    sim.fault('reorganisation')
    sim.op('reorg', n)
    again = sim.draw(3, 'after-reorg')
    if again == 0:
        # the same transactions are mined again
        for raw, _, p in gone:
            remine(w, raw, p)
    elif again == 1:
        # the first one is replaced: the issuing outpoints are spent by other issuances
        raw, _, p = gone[0]
        replace(w, p)
    else:
        for raw, _, p in gone[:1]:
            remine(w, raw, p)


def remine(w, raw, p):
    sim = w.sim
    snap = w.snapshot()
    try:
        tid = w.node.submit(raw)
    except Reject as e:
        raise HarnessError('mined once, refused later: %s' % e)
    t, _ = ref.decode(raw)
    vb = [w.open[(tid, k)].vbf for k in range(len(p.outs))]
    ab = [w.open[(tid, k)].abf for k in range(len(p.outs))]
    book(w, p, tid, t, vb, ab)
    w.chain.append((raw, snap, p))
    w.life += view(w, raw, 'mined again')


def replace(w, p):
    """the wallet makes another transaction out of the same inputs, with the
    same or with another contract; identity follows outpoint and contract"""
    sim = w.sim
    same = sim.chance(1, 2, 'same-contract')
    for i, x in enumerate(p.iss):
        if x is not None and x['nonce'] == ZERO32:
            old = x['_ids']
            contract = x['entropy'] if same else sim.bytes(32, 'contract2')
            conf = x['conf']
            if contract != x['entropy']:
                w.life += 1
            ent, (a, tok) = preview(w, p.coins[i].point, contract, conf, 'replacement')
            sim.check((a == old[1]) == (contract == x['entropy']), 'identity', 'replacement of an issuance')
            # outputs follow
            for o in p.outs:
                if o['asset'] == old[1]:
                    o['asset'] = a
                elif o['asset'] == old[2]:
                    o['asset'] = tok
            x['entropy'] = contract
    sim.op('replace', same)
    send(w, p, 'replacement')


def refusals(w):
    """requests for identifiers that make no sense are refused"""
    import elementstx.core as c
    sim = w.sim
    k = sim.draw(7, 'refusal')
    e = sim.bytes(32, 'e')
    bad = sim.pick((e[:31], e + b'\x00', b'', bytearray(e[:16]), e.hex(), None, 5), 'bad')
    f = [lambda: c.calculate_asset(bad), lambda: c.calculate_reissuance_token(bad, True),
         lambda: c.generate_asset_entropy(c.CElementsOutPoint(e, 0), bad),
         lambda: c.calculate_reissuance_token(e, sim.pick((1, 0, None, 'yes', b'\x01'), 'flag')),
         lambda: c.generate_asset_entropy(sim.pick((e, None, (e, 0), c.CElementsTxIn()), 'pt'), e),
         lambda: c.CConfidentialAsset(b'\x0a' + e).to_asset(),
         lambda: c.CConfidentialAsset(b'').to_asset()][k]
    try:
        r = f()
    except (ValueError, TypeError, AssertionError) as e2:
        sim.log('refused', k, type(e2).__name__)
        return
    sim.fail('bad-request-accepted', 'kind %d with %r gave %r' % (k, bad, r))


def restart(w):
    """wallets lose everything but keys: assets and tokens are worked out again from the ledger"""
    sim = w.sim
    sim.fault('crash-state-lost')
    sim.op('restart', len(w.chain))
    for raw, _, p in w.chain:
        w.life += view(w, raw, 'after restart')
    audit(w, 'after restart')


def run(sim):
    if sim.chance(1, 10, 'together'):
        return jobs.together(sim, (jobs.issue,), world.ELEMENTS_CHAINS)
    chain = sim.pick(world.ELEMENTS_CHAINS, 'chain')
    world.select(chain)
    ct.weigh(sim)
    sim.data['light'] = True
    w = World(sim)
    nw = sim.irange(1, 3, 'wallets')
    for k in range(nw):
        fund(w, k)
    for _ in range(sim.irange(2, 6, 'steps')):
        s = sim.draw(10, 'step')
        k = sim.draw(nw, 'wallet')
        if s < 5:
            transfer(w, k, nw, issue=True)
        elif s == 5:
            transfer(w, k, nw, issue=False)
        elif s == 6:
            reorg(w)
        elif s == 7:
            restart(w)
        elif s == 8:
            relatives(w)
        else:
            refusals(w)
    audit(w, 'end')
    if w.life or any('issued-asset-moved' == x for x in sim.probes):
        sim.nontrivial = True


__all__ = ['unspendable']
