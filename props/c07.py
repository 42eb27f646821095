"""The report of a successful blinding is truthful."""

from sim import ct, gen, ref, world
from sim.node import nat, ZERO32, unspendable

ID = 'C07'
TECHNIQUE = ('simulated wallets blind random transactions, again after crashes, in strict and lenient mode, with withheld '
             'inputs; every number and factor of the report is checked by opening the commitments independently')
RUNS = {'quick': 5000, 'thorough': 60000}
RULE = ('non-trivial: a success was reported for a transaction in which at least one output or issuance was to be blinded; distinct '
        'by trace. Excluded as in Elements Core: a last output of amount zero whose blinding factor comes out as zero, which is '
        'counted without being blinded')
STATES = 'shape of the transaction, chain, strictness, way of construction, proof parameters, faults'
REAL = ['elementstx.core (blind_transaction, unblind_confidential_pair, get_rangeproof_info)', 'bitcointx', 'libsecp256k1']
STUB = ['secp256k1-zkp: native/simzkp.c', 'operating system randomness: seeded generator']
ASSUMPTIONS = ['native/simzkp.c implements commitments and range proofs as secp256k1-zkp does']


def warmup():
    world.warm_native()


def run(sim):
    import elementstx.core as c
    chain = sim.pick(world.ELEMENTS_CHAINS, 'chain')
    world.select(chain)
    ct.weigh(sim)
    for r in range(sim.irange(1, 2, 'rounds')):
        if sim.chance(1, 30, 'cancel'):
            cancelling(sim, c)
            continue
        p = ct.plan(sim, max_in=sim.wpick(((6, 3), (1, 6)), 'max-in'), ensure=sim.chance(5, 6, 'ensure'),
                    bulk=ct.bulk(sim))
        ct.set_params(sim, p)
        strict = not sim.chance(1, 3, 'lenient')
        p.strict = strict
        if sim.chance(1, 3 if not strict else 8, 'withhold'):
            withhold(sim, p)
        style = sim.draw(6, 'style')
        tx = p.build(style)
        before = gen.from_lib(tx)
        if gen.norm(before) != gen.norm(p.model()):
            sim.fail('build', 'built transaction differs: %s' % gen.diff(gen.norm(p.model()), gen.norm(before)))
        if sim.chance(1, 8, 'crash'):
            sim.fault('crash-after-blinding')
            p.build(sim.draw(6, 'style2')).blind(**p.request())
        sim.op('blind', r, p.describe(), 'style', style, 'strict', strict)
        sim.state(chain, p.shape(), strict, style, p.bits, p.exp)
        req = p.request()
        direct = sim.chance(1, 3, 'direct')
        res = c.blind_transaction(tx, **req) if direct else tx.blind(**req)
        sim.log('result', type(res).__name__, res.error, direct)
        wanted = len(p.blind_outs()) + len(p.blind_iss())
        if not isinstance(res, c.BlindingSuccess):
            sim.check(isinstance(res, c.BlindingFailure) and res.error and not res.ok, 'result-type', repr(res))
            sim.check(strict, 'lenient-refused', 'the request is well-formed and the check of the count is turned off, '
                      'but the result is %s' % (res.error,))
            sim.probe('failures')
            # the same wallet accepts what can be blinded: now the report has to be a success with a lower count
            p.strict = False
            tx = p.build(style)
            res = tx.blind(**p.request())
            sim.check(isinstance(res, c.BlindingSuccess), 'lenient-refused', 'refused with the check of the count turned off: '
                      '%s' % (res.error,))
            check_report(sim, c, p, tx, before, res, wanted, False, chain)
            sim.check(res.num_successfully_blinded < wanted, 'strict-refused',
                      'strict mode refused although all %d could be blinded' % wanted)
            sim.nontrivial = True
            continue
        sim.probe('successes')
        if wanted:
            sim.nontrivial = True
        check_report(sim, c, p, tx, before, res, wanted, strict, chain)


def cancelling(sim, c):
    """the blinding of the inputs cancels and the only output to blind carries nothing:
    there is nothing left to hide, which counts as done and leaves the transaction as it is"""
    p = ct.Plan()
    asset = ct.asset_tag(sim.draw(3, 'asset'))
    n = nat()
    b = gen.secret(sim, 'cancel-vbf')
    neg = (gen.SECP_N - int.from_bytes(b, 'big')).to_bytes(32, 'big')
    total = 0
    for vbf in sim.shuffle([b, neg], 'order'):
        v = ct.amount(sim, cap=1 << 40)
        total += v
        g = n.generator(asset, ZERO32)
        p.coins.append(ct.Coin((gen.nzbytes(sim, 32, 'prevhash'), len(p.coins)), asset, v, vbf, ZERO32,
                               {'asset': b'\x01' + asset, 'value': n.commit(vbf, v, g), 'nonce': b'',
                                'script': ct.script(sim, 'p2wpkh', 'coin-spk')}))
    k = len(p.coins)
    p.seqs, p.pegins, p.iss = [0xffffffff] * k, [False] * k, [None] * k
    p.inwits = [ref.empty_inwit() for _ in range(k)]
    for v in ct.split(sim, total, sim.irange(1, 2, 'n-out')):
        p.outs.append({'asset': asset, 'amount': v, 'script': ct.script(sim, 'p2wpkh'), 'key': None, 'nonce': b''})
    p.outs.insert(sim.draw(len(p.outs) + 1, 'at'), {
        'asset': asset, 'amount': 0, 'script': ct.script(sim, 'op_return'), 'key': gen.secret(sim, 'bkey'), 'nonce': b''})
    p.strict = not sim.chance(1, 3, 'lenient')
    tx = p.build(sim.draw(6, 'style'))
    before = gen.from_lib(tx)
    sim.op('cancelling', p.describe(), p.strict)
    res = tx.blind(**p.request())
    sim.check(isinstance(res, c.BlindingSuccess) and res.num_successfully_blinded == 1, 'cancelled', 'result %s' % (res,))
    sim.check([x.data for x in res.blinding_factors] == [ZERO32] * len(p.outs)
              and [x.data for x in res.asset_blinding_factors] == [ZERO32] * len(p.outs), 'factors-of-explicit',
              'nothing was blinded, but the factors are not zero')
    d = gen.diff(gen.norm(before), gen.norm(gen.from_lib(tx)))
    sim.check(d is None, 'touched', lambda: 'there was nothing to blind, but the transaction changed: %s' % d)
    sim.probe('cancelled')
    sim.nontrivial = True


def withhold(sim, p):
    """some inputs belong to others: only their generators are known"""
    for i, cn in enumerate(p.coins):
        if p.iss[i] is None and sim.chance(1, 3, 'foreign'):
            p.hidden.add(i)
    p.aux = [nat().generator(cn.asset, cn.abf) for cn in p.coins]


def check_report(sim, c, p, tx, before, res, wanted, strict, chain):
    from bitcointx.core import Uint256
    n = nat()
    t = gen.from_lib(tx)
    sim.check(res.ok and res.error == '', 'ok', 'success with ok=%r error=%r' % (res.ok, res.error))
    num, vbfs, abfs = res
    sim.check(num == res.num_successfully_blinded and vbfs is res.blinding_factors
              and abfs is res.asset_blinding_factors, 'fields', 'fields of the result do not agree')
    sim.check(len(vbfs) == len(p.outs) and len(abfs) == len(p.outs), 'factor-count',
              '%d/%d factors for %d outputs' % (len(vbfs), len(abfs), len(p.outs)))
    sim.check(all(isinstance(x, Uint256) for x in list(vbfs) + list(abfs)), 'factor-type', '')
    done = 0
    expect = gen.copy(before)
    # issuances
    asked = set(p.blind_iss())
    for i, x in enumerate(p.iss):
        if x is None:
            continue
        ent, asset, token = p.ids(i)
        for what, aid, amt, key, field, rpf in (('amount', asset, x['amount'], x['akey'], 'amount', 'amount_rp'),
                                                ('tokens', token, x['tokens'], x['tkey'], 'keys', 'keys_rp')):
            got = t['vin'][i]['iss'][field]
            if (i, what) not in asked:
                continue
            if len(got) != 33:
                sim.check(not strict, 'not-blinded', 'issuance %s of input %d was to be blinded' % (what, i))
                continue
            done += 1
            rp = t['inwit'][i][rpf]
            u = c.unblind_confidential_pair(
                blinding_key=ct.seckey(key), confValue=c.CConfidentialValue(got),
                confAsset=c.CConfidentialAsset(b'\x01' + aid), confNonce=c.CConfidentialNonce(),
                committedScript=tx.vout[0].scriptPubKey, rangeproof=rp)
            sim.check(u.ok, 'issuance-unblind', 'issuer cannot unblind the %s of input %d: %s' % (what, i, u.error))
            sim.check(u.amount == amt and u.asset.data == aid and u.asset_blinding_factor.data == ZERO32,
                      'issuance-unblind', 'issuer unblinds %s of input %d as %r' % (what, i, u))
            sim.eq(n.commit(u.blinding_factor.data, amt, n.generator(aid)), got, 'issuance-opening',
                   'commitment of issued %s of input %d' % (what, i))
            params(sim, c.CElementsTxOutWitness(b'', rp), amt, p, 0, 'issuance %s %d' % (what, i))
            expect['vin'][i]['iss'][field] = got
            expect['inwit'][i][rpf] = rp
            sim.probe('issuances-opened')
    # outputs
    zero = 0
    # nothing stands in the way of any of them, except that one thing alone cannot be blinded from unblinded inputs,
    # and that there is no surjection proof onto inputs whose asset is not known
    possible = wanted > 1 or p.blinded_inputs()
    known = set(ct.targets(p))
    for k, o in enumerate(p.outs):
        out = t['vout'][k]
        w = t['outwit'][k]
        v, a = vbfs[k].data, abfs[k].data
        if o['key'] is None:
            sim.check(v == ZERO32 and a == ZERO32, 'factors-of-explicit', 'factors of output %d that was not to be blinded' % k)
            continue
        if len(out['value']) != 33:
            sim.check(v == ZERO32 and a == ZERO32, 'factors-of-explicit', 'factors of explicit output %d' % k)
            if o['amount'] == 0:
                zero += 1
            else:
                sim.check(not strict and not possible, 'not-blinded', 'output %d was to be blinded' % k)
            continue
        if w['rp'] or w['sp']:
            sim.check(bool(w['rp']) and bool(w['sp']), 'half-proof', 'output %d has only one of its proofs' % k)
            done += 1
        else:
            sim.check(not strict and o['asset'] not in known, 'no-proof', 'output %d is blinded but has no proofs' % k)
            sim.probe('blinded-without-proof')
        sim.check(v != ZERO32 and a != ZERO32, 'no-factors', 'blinded output %d has zero factors' % k)
        g = n.generator(o['asset'], a)
        sim.eq(out['asset'], g, 'asset-opening', 'asset commitment of output %d' % k)
        sim.eq(out['value'], n.commit(v, o['amount'], g), 'value-opening', 'value commitment of output %d' % k)
        sim.check(len(out['nonce']) == 33 and out['nonce'][0] in (2, 3), 'nonce', 'nonce of output %d' % k)
        if w['rp']:
            params(sim, tx.wit.vtxoutwit[k], o['amount'], p, 0 if unspendable(o['script']) else 1, 'output %d' % k)
        expect['vout'][k].update(asset=out['asset'], value=out['value'], nonce=out['nonce'])
        expect['outwit'][k] = dict(w)
        sim.probe('outputs-opened')
    sim.check(num == done + (1 if zero and num == done + 1 else 0), 'count', 'reported %d, blinded %d' % (num, done))
    if strict:
        sim.check(num == wanted, 'strict-count', 'reported %d of %d in strict mode' % (num, wanted))
    # all the rest is as it was
    d = gen.diff(gen.norm(expect), gen.norm(t))
    sim.check(d is None, 'touched', lambda: 'blinding changed something else: %s' % d)
    # generators of distinct outputs are distinct, also for one asset
    gens = [t['vout'][k]['asset'] for k in p.blind_outs() if len(t['vout'][k]['value']) == 33]
    sim.check(len(set(gens)) == len(gens), 'same-generator', 'two outputs have the same asset commitment')


def params(sim, wit, amount, p, minv, what):
    import elementstx.core as c
    info = wit.get_rangeproof_info()
    sim.check(info is not None, 'info', '%s: no range proof info' % what)
    exp = 0 if p.exp is None else p.exp
    bits = 52 if p.bits is None else p.bits
    e, m, lo = ct.expected_proof_params(amount, exp, bits, minv)
    sim.check((info.exp, info.mantissa, info.value_min) == (e, m, lo), 'proof-parameters',
              '%s: range proof has exponent %d, %d bits, minimum %d; requested %d, %d, %d' % (
                  what, info.exp, info.mantissa, info.value_min, e, m, lo))
    sim.check(info.value_min <= amount <= info.value_max, 'proof-range', '%s: amount is outside of the proven range' % what)
