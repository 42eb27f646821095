"""A successfully blinded transaction is valid for the network."""

from sim import ct, gen, ref, world
from sim.node import Node, Reject, ZERO32
from sim.tape import HarnessError

ID = 'C06'
TECHNIQUE = ('wallet histories (spend, issue, reissue, burn, peg-in) on a simulated ledger, with crashes between blinding and '
             'broadcast, relays and lost or repeated broadcasts; an independent node judges every transaction')
RUNS = {'quick': 3000, 'thorough': 40000}
RULE = ('non-trivial: at least one transaction with a blinded output or issuance was reported as a success and judged by the node; '
        'distinct by trace. A request that blinds nothing although blinded coins are spent is outside of the property')
STATES = 'shape of the transaction (kinds of inputs, issuances, outputs), chain, way of construction, round, faults'
REAL = ['elementstx.core (blind_transaction and everything it calls, serialization)', 'elementstx.core.script', 'bitcointx',
        'libsecp256k1 (keys, ECDH)']
STUB = ['secp256k1-zkp: native/simzkp.c, written from the published algorithms', 'network, ledger and node: sim/node.py',
        'operating system randomness: seeded generator']
ASSUMPTIONS = ['native/simzkp.c implements generators, commitments, range and surjection proofs as secp256k1-zkp does',
               'sim/node.py and sim/ref.py state the rules of the network']


def warmup():
    world.warm_native()


def pick_coins(sim, wallet, n):
    pool = list(wallet)
    out = []
    for _ in range(min(n, len(pool))):
        out.append(pool.pop(sim.draw(len(pool), 'coin')))
    return out


def reissue_options(sim, coins, issued):
    """inputs that are tokens of known assets and can be used to reissue"""
    out = []
    for i, c in enumerate(coins):
        for ent, conf, key in issued:
            if c.asset == ref.token_id(ent, conf) and c.abf != ZERO32 and sim.chance(3, 4, 'reissue?'):
                out.append((i, ent, conf, key or gen.secret(sim, 'rkey')))
    return out


def run(sim):
    import elementstx.core as c
    chain = sim.pick(world.ELEMENTS_CHAINS, 'chain')
    world.select(chain)
    node = Node()
    wallet = []
    issued = []
    keys = {}
    rounds = sim.irange(1, 3 if ct.weigh(sim) else 2, 'rounds')
    for r in range(rounds):
        coins = None
        re = []
        if wallet and sim.chance(4, 5, 'spend-own'):
            coins = pick_coins(sim, wallet, sim.irange(1, 4, 'n-spend'))
            if sim.chance(1, 3, 'more-coins'):
                coins.append(ct.coin(sim, ct.asset_tag(0), ct.amount(sim), 'explicit'))
            if len({x.point for x in coins}) != len(coins):
                coins = coins[:1]
            re = reissue_options(sim, coins, issued)
        p = ct.plan(sim, coins=coins, reissue=re, max_in=sim.wpick(((6, 3), (1, 7)), 'max-in'),
                    bulk=ct.bulk(sim) if coins is None else None)
        for x in p.coins:
            if x.point not in node.utxo:
                node.fund(x.point[0], x.point[1], x.out)
        if sim.chance(1, 4, 'hidden'):
            hide_foreign(sim, p)
        ct.set_params(sim, p)
        style = sim.draw(6, 'style')
        tx = p.build(style)
        before = p.model()
        if not p.blind_outs() and not p.blind_iss():
            if p.blinded_inputs():
                continue
        sim.op('blind', r, p.describe(), 'style', style)
        sim.state(chain, p.shape(), style, bool(re), p.bits, p.exp)
        if sim.chance(1, 8, 'crash-before'):
            # first attempt is lost with the process
            sim.fault('crash-after-blinding')
            t2 = p.build(sim.draw(6, 'style2'))
            t2.blind(**p.request())
        use_func = sim.chance(1, 4, 'function')
        kw = p.request()
        res = c.blind_transaction(tx, **kw) if use_func else tx.blind(**kw)
        sim.check(isinstance(res, c.BlindingSuccess) and res.ok, 'refused',
                  'a balanced well-formed request was refused: %s; %s' % (res, p.describe()))
        if p.blind_outs() or p.blind_iss():
            sim.nontrivial = True
            sim.probe('blinded-items', res.num_successfully_blinded)
        raw = tx.serialize()
        sim.log('raw', raw)
        # relayed by nodes that run the library
        for _ in range(sim.draw(3, 'relays')):
            t = c.CElementsTransaction.deserialize(raw)
            raw2 = t.serialize()
            sim.eq(raw2, raw, 'relay', 'a relayed transaction changed')
            sim.check(t.GetTxid() == tx.GetTxid() and t.GetHash() == tx.GetHash(), 'relay-id', 'identifier changed')
        if sim.chance(1, 8, 'lost'):
            sim.fault('broadcast-lost')
            raw = tx.serialize()
        before_tid = None
        try:
            tid = node.submit(raw)
            if sim.chance(1, 8, 'dup'):
                sim.fault('broadcast-repeated')
                before_tid = node.submit(raw)
        except Reject as e:
            sim.fail('rejected', 'the network rejects a successfully blinded transaction: %s; %s' % (e, p.describe()))
        except AssertionError as e:
            raise HarnessError('node: %r' % e)
        if before_tid is not None and before_tid != tid:
            raise HarnessError('node txid')
        sim.eq(tx.GetTxid(), tid, 'txid', 'transaction id')
        sim.probe('accepted')
        t, _ = ref.decode(raw)
        check_untouched(sim, p, before, t)
        # the wallet learns its new coins
        mine = ct.success_coins(p, tid, t, res)
        spent = {x.point for x in p.coins}
        wallet = [w for w in wallet if w.point not in spent]
        for k, cn in enumerate(mine):
            if cn.point in node.utxo:
                o = p.outs[k]
                if o['key'] is not None and sim.chance(1, 3, 'crash-recover'):
                    # lost its memory: recovers the coin from the ledger
                    sim.fault('crash-state-lost')
                    u = c.unblind_confidential_pair(**ct.unblind_kw(t['vout'][k], t['outwit'][k]['rp'], o['key']))
                    sim.check(u.ok, 'own-output', 'owner cannot unblind output %d: %s' % (k, u.error))
                    cn = ct.Coin(cn.point, u.asset.data, u.amount, u.blinding_factor.data,
                                 u.asset_blinding_factor.data, t['vout'][k])
                wallet.append(cn)
        for i, x in enumerate(p.iss):
            if x is not None and x['nonce'] == ZERO32:
                issued.append((p.ids(i)[0], x['conf'], x['akey']))
                sim.probe('issuance')
            elif x is not None:
                sim.probe('reissuance')
        keys.clear()


def check_untouched(sim, p, before, t):
    """what a blinded transaction is about is what the plan says"""
    sim.check(len(t['vin']) == len(before['vin']) and len(t['vout']) == len(before['vout']), 'shape',
              'number of inputs or outputs changed')
    for k, o in enumerate(p.outs):
        if o['key'] is None:
            sim.check(t['vout'][k] == before['vout'][k], 'explicit-changed', 'output %d that is not to be blinded changed' % k)
        else:
            sim.check(len(t['vout'][k]['value']) == 33 and t['vout'][k]['asset'][0] in (10, 11), 'not-blinded',
                      'output %d is still explicit' % k)


def hide_foreign(sim, p):
    """explicit coins of an asset that is also provided by another input are given as
    auxiliary generators only"""
    from sim.node import nat
    byasset = {}
    for i, cn in enumerate(p.coins):
        byasset.setdefault(cn.asset, []).append(i)
    for i, cn in enumerate(p.coins):
        others = [j for j in byasset[cn.asset] if j != i and j not in p.hidden]
        if others and cn.vbf == ZERO32 and cn.abf == ZERO32 and sim.chance(1, 2, 'hide'):
            p.hidden.add(i)
    if p.hidden or sim.chance(1, 2, 'aux-anyway'):
        p.aux = [nat().generator(cn.asset, cn.abf) for cn in p.coins]
        if sim.chance(1, 3, 'aux-bytearray'):
            p.aux = [bytearray(a) for a in p.aux]
