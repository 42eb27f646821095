"""A refused blinding request leaves the transaction as it was."""

from sim import ct, gen, ref, world
from sim.node import Node, Reject, nat, ZERO32
from sim.tape import HarnessError

ID = 'C08'
TECHNIQUE = ('simulated clients send sequences of malformed and impossible blinding requests for one shared transaction object, '
             'then a correct one; the object is compared byte for byte after every refusal')
RUNS = {'quick': 7000, 'thorough': 80000}
RULE = ('non-trivial: at least one malformed or impossible request was made before the correct one was granted; distinct by trace. '
        'Failures that can only be found while blinding (surjection target not found, native failures) are C09')
STATES = 'kind of defect of the request, shape of the transaction, chain, construction'
REAL = ['elementstx.core (blind_transaction)', 'bitcointx', 'libsecp256k1']
STUB = ['secp256k1-zkp: native/simzkp.c', 'node: sim/node.py', 'operating system randomness: seeded generator']
ASSUMPTIONS = ['native/simzkp.c implements secp256k1-zkp']


def warmup():
    world.warm_native()


def bad_pub(sim):
    from bitcointx.core.key import CPubKey
    k = sim.draw(6, 'bad-pub')
    x = gen.nzbytes(sim, 32, 'bad-pub-x')
    if k == 0:
        return CPubKey(b'\x02' + b'\xff' * 32)
    if k == 1:
        return CPubKey(b'\x05' + x)
    if k == 2:
        return CPubKey(b'\x02' + x[:31])
    if k == 3:
        return CPubKey(b'\x00')
    if k == 4:
        return CPubKey(b'\x04' + x + x)
    return CPubKey(b'\x02' + b'\x00' * 32)


# every entry makes one defect; returns None if it does not apply, otherwise
# (keyword arguments, function that changes the transaction or None, function
# that reverts it or None)
def defects():
    return {
        'extra-pubkeys': d_extra_pubkeys, 'extra-asset-keys': d_extra_keys('blind_issuance_asset_keys'),
        'extra-token-keys': d_extra_keys('blind_issuance_token_keys'), 'pubkey-type': d_pubkey_type,
        'asset-key-type': d_key_type('blind_issuance_asset_keys'), 'token-key-type': d_key_type('blind_issuance_token_keys'),
        'descriptor-count': d_desc_count, 'descriptor-type': d_desc_type, 'aux-count': d_aux_count, 'aux-type': d_aux_type,
        'aux-length': d_aux_len, 'aux-invalid': d_aux_invalid, 'aux-extra-invalid': d_aux_extra_invalid,
        'asset-unknown': d_asset_unknown, 'amount-negative': d_amount_negative, 'key-without-issuance': d_key_noissue,
        'pubkey-invalid': d_pub_invalid, 'already-confidential-value': d_conf_value, 'already-confidential-asset': d_conf_asset,
        'null-value': d_null_value, 'already-proven': d_proven, 'fee-output': d_fee, 'issuance-committed': d_iss_committed,
        'token-committed': d_tok_committed, 'asset-key-null-amount': d_key_null('akey'), 'token-key-null': d_key_null('tkey'),
        'issuance-proven': d_iss_proven, 'reissuance-with-tokens': d_reissue_tokens, 'immutable': d_immutable,
        'not-a-transaction': d_not_tx, 'nothing-to-balance': d_unbalanced_single,
    }


def d_extra_pubkeys(sim, p, tx, kw):
    pk = list(kw['output_pubkeys'])
    while len(pk) <= len(p.outs):
        pk.append(ct.pub(gen.secret(sim, 'k')))
    kw['output_pubkeys'] = pk
    return True


def d_extra_keys(name):
    def f(sim, p, tx, kw):
        ks = list(kw.get(name, ()))
        while len(ks) <= len(p.coins):
            ks.append(None if sim.chance(1, 2, 'none') else ct.seckey(gen.secret(sim, 'k')))
        kw[name] = ks
        return True
    return f


def d_pubkey_type(sim, p, tx, kw):
    pk = list(kw['output_pubkeys'])
    if not pk:
        pk = [None] * len(p.outs)
    i = sim.draw(len(pk), 'at')
    pk[i] = sim.pick((b'', None, bytes(ct.pub(b'\x01' * 32)), 'x', 5), 'bad')
    kw['output_pubkeys'] = pk
    return True


def d_key_type(name):
    def f(sim, p, tx, kw):
        ks = list(kw.get(name, ())) or [None] * len(p.coins)
        i = sim.draw(len(ks), 'at')
        ks[i] = sim.pick((b'\x01' * 32, 'x', 5, ct.pub(b'\x01' * 32)), 'bad')
        kw[name] = ks
        return True
    return f


def d_desc_count(sim, p, tx, kw):
    d = list(kw['input_descriptors'])
    k = sim.draw(3, 'how')
    if k == 0:
        d.pop()
    elif k == 1:
        d.append(d[-1])
    else:
        d = []
    kw['input_descriptors'] = d
    return True


def d_desc_type(sim, p, tx, kw):
    d = list(kw['input_descriptors'])
    i = sim.draw(len(d), 'at')
    f = sim.pick(('asset', 'amount', 'blinding_factor', 'asset_blinding_factor'), 'field')
    d[i] = d[i]._replace(**{f: sim.pick((b'\x01' * 32, None, 1.5, 'x'), 'bad')})
    kw['input_descriptors'] = d
    return True


def aux(p):
    return [nat().generator(cn.asset, cn.abf) for cn in p.coins]


def d_aux_count(sim, p, tx, kw):
    a = aux(p)
    a.pop()
    if not a:
        return None
    kw['auxiliary_generators'] = a
    return True


def d_aux_type(sim, p, tx, kw):
    a = aux(p)
    a[sim.draw(len(a), 'at')] = sim.pick((None, 'x' * 33, 33), 'bad')
    kw['auxiliary_generators'] = a
    return True


def d_aux_len(sim, p, tx, kw):
    a = aux(p)
    i = sim.draw(len(a), 'at')
    a[i] = sim.pick((a[i][:32], a[i] + b'\x00', b''), 'bad')
    kw['auxiliary_generators'] = a
    return True


def bad_gen(sim):
    return sim.pick((b'\x0a' + b'\xff' * 32, b'\x01' + b'\x05' * 32, b'\x00' * 33, b'\x08' + b'\x05' * 32), 'bad-gen')


def d_aux_invalid(sim, p, tx, kw):
    a = aux(p)
    i = sim.draw(len(a), 'at')
    a[i] = bad_gen(sim)
    d = list(kw['input_descriptors'])
    import elementstx.core as c
    from bitcointx.core import Uint256
    d[i] = c.BlindingInputDescriptor(c.CAsset(), -1, Uint256(), Uint256())
    kw['auxiliary_generators'] = a
    kw['input_descriptors'] = d
    return True


def d_aux_extra_invalid(sim, p, tx, kw):
    kw['auxiliary_generators'] = aux(p) + [bad_gen(sim)]
    return True


def d_asset_unknown(sim, p, tx, kw):
    import elementstx.core as c
    d = list(kw['input_descriptors'])
    i = sim.draw(len(d), 'at')
    d[i] = d[i]._replace(asset=c.CAsset())
    kw['input_descriptors'] = d
    kw.pop('auxiliary_generators', None)
    return True


def d_amount_negative(sim, p, tx, kw):
    b = p.blinded_inputs()
    if not b:
        return None
    d = list(kw['input_descriptors'])
    i = b[sim.draw(len(b), 'at')]
    d[i] = d[i]._replace(amount=-sim.pick((1, 5, 1 << 40), 'neg'))
    kw['input_descriptors'] = d
    return True


def d_key_noissue(sim, p, tx, kw):
    free = [i for i, x in enumerate(p.iss) if x is None]
    if not free:
        return None
    i = free[sim.draw(len(free), 'at')]
    name = sim.pick(('blind_issuance_asset_keys', 'blind_issuance_token_keys'), 'which')
    ks = list(kw.get(name, ()))
    while len(ks) <= i:
        ks.append(None)
    ks[i] = ct.seckey(gen.secret(sim, 'k'))
    kw[name] = ks
    return True


def d_pub_invalid(sim, p, tx, kw):
    pk = list(kw['output_pubkeys'])
    b = p.blind_outs()
    i = b[sim.draw(len(b), 'at')] if b and sim.chance(2, 3, 'wanted') else sim.draw(len(p.outs), 'any')
    from bitcointx.core.key import CPubKey
    while len(pk) <= i:
        pk.append(CPubKey())
    pk[i] = bad_pub(sim)
    kw['output_pubkeys'] = pk
    return True


def on_out(change):
    def f(sim, p, tx, kw):
        b = p.blind_outs()
        if not b:
            return None
        i = b[sim.draw(len(b), 'at')]
        return change(sim, p, tx, kw, i)
    return f


def _conf_value(sim, p, tx, kw, i):
    import elementstx.core as c
    old = tx.vout[i].nValue
    tx.vout[i].nValue = c.CConfidentialValue(nat().commit(gen.secret(sim, 'b'), 5, nat().generator(p.outs[i]['asset'])))

    def undo():
        tx.vout[i].nValue = old
    return undo


def _conf_asset(sim, p, tx, kw, i):
    import elementstx.core as c
    old = tx.vout[i].nAsset
    tx.vout[i].nAsset = c.CConfidentialAsset(nat().generator(p.outs[i]['asset'], gen.secret(sim, 'b')))

    def undo():
        tx.vout[i].nAsset = old
    return undo


def _null_value(sim, p, tx, kw, i):
    import elementstx.core as c
    o = tx.vout[i]
    if sim.chance(1, 2, 'which'):
        old = o.nValue
        o.nValue = c.CConfidentialValue(b'')

        def undo():
            o.nValue = old
    else:
        old2 = o.nAsset
        o.nAsset = c.CConfidentialAsset(b'')

        def undo():
            o.nAsset = old2
    return undo


def _proven(sim, p, tx, kw, i):
    import elementstx.core as c
    n0 = len(tx.wit.vtxoutwit)
    while len(tx.wit.vtxoutwit) < len(tx.vout):
        tx.wit.vtxoutwit.append(c.CElementsMutableTxOutWitness())
    w = tx.wit.vtxoutwit[i]
    if sim.chance(1, 2, 'which'):
        w.rangeproof = b'\x01\x02'
    else:
        w.surjectionproof = b'\x01\x02'

    def undo():
        w.rangeproof = b''
        w.surjectionproof = b''
        del tx.wit.vtxoutwit[n0:]
    return undo


d_conf_value, d_conf_asset, d_null_value, d_proven = (on_out(x) for x in (_conf_value, _conf_asset, _null_value, _proven))


def d_fee(sim, p, tx, kw):
    f = [i for i, o in enumerate(p.outs) if not o['script']]
    if not f:
        return None
    i = f[sim.draw(len(f), 'at')]
    from bitcointx.core.key import CPubKey
    pk = list(kw['output_pubkeys'])
    while len(pk) <= i:
        pk.append(CPubKey())
    pk[i] = ct.pub(gen.secret(sim, 'k'))
    kw['output_pubkeys'] = pk
    return True


def _iss_field(field):
    def f(sim, p, tx, kw):
        import elementstx.core as c
        have = [i for i, x in enumerate(p.iss) if x is not None]
        if not have:
            return None
        i = have[sim.draw(len(have), 'at')]
        old = tx.vin[i].assetIssuance
        v = c.CConfidentialValue(nat().commit(gen.secret(sim, 'b'), 5, nat().generator(ct.asset_tag(0))))
        kwi = dict(assetBlindingNonce=old.assetBlindingNonce, assetEntropy=old.assetEntropy, nAmount=old.nAmount,
                   nInflationKeys=old.nInflationKeys)
        kwi[field] = v
        tx.vin[i].assetIssuance = c.CAssetIssuance(**kwi)

        def undo():
            tx.vin[i].assetIssuance = old
        return undo
    return f


d_iss_committed, d_tok_committed = _iss_field('nAmount'), _iss_field('nInflationKeys')


def d_key_null(which):
    name, field = (('blind_issuance_asset_keys', 'amount') if which == 'akey' else ('blind_issuance_token_keys', 'tokens'))

    def f(sim, p, tx, kw):
        have = [i for i, x in enumerate(p.iss) if x is not None and x[field] is None]
        if not have:
            return None
        i = have[sim.draw(len(have), 'at')]
        ks = list(kw.get(name, ()))
        while len(ks) <= i:
            ks.append(None)
        ks[i] = ct.seckey(gen.secret(sim, 'k'))
        kw[name] = ks
        return True
    return f


def d_iss_proven(sim, p, tx, kw):
    import elementstx.core as c
    b = p.blind_iss()
    if not b:
        return None
    i, what = b[sim.draw(len(b), 'at')]
    n0 = len(tx.wit.vtxinwit)
    while len(tx.wit.vtxinwit) < len(tx.vin):
        tx.wit.vtxinwit.append(c.CElementsMutableTxInWitness())
    w = tx.wit.vtxinwit[i]
    attr = 'issuanceAmountRangeproof' if what == 'amount' else 'inflationKeysRangeproof'
    setattr(w, attr, b'\x01')

    def undo():
        setattr(w, attr, b'')
        del tx.wit.vtxinwit[n0:]
    return undo


def d_reissue_tokens(sim, p, tx, kw):
    import elementstx.core as c
    from bitcointx.core import Uint256
    i = sim.draw(len(p.coins), 'at')
    old = tx.vin[i].assetIssuance
    tx.vin[i].assetIssuance = c.CAssetIssuance(Uint256(gen.secret(sim, 'n')), Uint256(gen.secret(sim, 'e')),
                                               c.CConfidentialValue(5), c.CConfidentialValue(7))

    def undo():
        tx.vin[i].assetIssuance = old
    return undo


def d_immutable(sim, p, tx, kw):
    kw['_tx'] = tx.to_immutable()
    return True


def d_not_tx(sim, p, tx, kw):
    kw['_tx'] = sim.pick((None, b'', 5), 'what')
    return True


def d_unbalanced_single(sim, p, tx, kw):
    """a single thing to blind and no blinded input to balance it against"""
    if p.blinded_inputs():
        return None
    from bitcointx.core.key import CPubKey
    cand = [k for k, o in enumerate(p.outs) if o['script']]
    kw.pop('blind_issuance_asset_keys', None)
    kw.pop('blind_issuance_token_keys', None)
    i = cand[sim.draw(len(cand), 'at')]
    pk = [CPubKey()] * len(p.outs)
    pk[i] = ct.pub(gen.secret(sim, 'k'))
    kw['output_pubkeys'] = pk
    kw['_padding_allowed'] = True
    return True


def snap(tx):
    """everything that can be seen of the transaction object"""
    try:
        raw = tx.serialize()
    except AssertionError:
        raw = None
    return (raw, gen.sorted_model(gen.from_lib(tx)), len(tx.wit.vtxinwit), len(tx.wit.vtxoutwit),
            tx.GetTxid())


def attempt(sim, c, tx, kw):
    """-> (result or exception)"""
    kw = dict(kw)
    kw.pop('_padding_allowed', None)
    target = kw.pop('_tx', tx)
    try:
        if target is tx and sim.chance(1, 2, 'method'):
            return tx.blind(**kw)
        return c.blind_transaction(target, **kw)
    except (ValueError, TypeError) as e:
        return e


def run(sim):
    import elementstx.core as c
    chain = sim.pick(world.ELEMENTS_CHAINS, 'chain')
    world.select(chain)
    ct.weigh(sim)
    sim.data['light'] = True
    p = ct.plan(sim, max_in=3, max_out=4, bulk=ct.bulk(sim))
    ct.set_params(sim, p)
    if not p.blind_outs() and not p.blind_iss():
        return
    style = sim.draw(6, 'style')
    tx = p.build(style)
    table = defects()
    names = sorted(table)
    n = sim.irange(1, 6, 'n-defects')
    refused = 0
    for _ in range(n):
        name = names[sim.draw(len(names), 'defect')]
        kw = p.request()
        undo = table[name](sim, p, tx, kw)
        if undo is None:
            sim.probe('not-applicable')
            continue
        if sim.chance(1, 4, 'second'):
            # two defects at once
            other = names[sim.draw(len(names), 'defect2')]
            if table[other] not in (d_conf_value, d_conf_asset, d_null_value, d_proven, d_iss_committed,
                                    d_tok_committed, d_iss_proven, d_reissue_tokens, d_unbalanced_single):
                try:
                    undo2 = table[other](sim, p, tx, kw) if other != name else None
                except (IndexError, AttributeError, TypeError, HarnessError):
                    undo2 = None        # does not apply after the first one
                if undo2 is not None:
                    name += '+' + other
        if name != 'nothing-to-balance' and sim.chance(1, 5, 'lenient'):
            kw['is_blind_success_strict'] = False
        sim.op('bad-request', name, p.describe())
        sim.state(name, p.shape(), chain, style)
        sim.fault('malformed-request')
        args = snap_args(kw)
        before = snap(tx)
        r = attempt(sim, c, tx, kw)
        sim.log('answer', type(r).__name__, str(r)[:100])
        if isinstance(r, c.BlindingSuccess):
            sim.fail('granted', 'request with defect %s was granted: %r' % (name, r))
        after = snap(tx)
        if name == 'nothing-to-balance':
            # may only be found after the (empty) output witnesses were added
            sim.check(after[0] == before[0] and after[1] == before[1], 'changed', 'refused request (%s) changed the '
                      'transaction' % name)
        else:
            sim.check(after == before, 'changed', lambda: 'refused request (%s) changed the transaction: %s' % (
                name, gen.diff(list(before), list(after))))
        sim.check(snap_args(kw) == args, 'arguments-changed', 'refused request (%s) changed its arguments' % name)
        if isinstance(r, c.BlindingFailure):
            sim.check(not r.ok and isinstance(r.error, str) and r.error.strip(), 'no-reason', repr(r.error))
            sim.check(r.error in str(r), 'no-reason', 'the text of the failure does not tell the reason')
            try:
                bool(r)
            except TypeError:
                pass
            else:
                sim.fail('failure-as-bool', 'a failure can be mistaken for a truth value')
        else:
            sim.check(isinstance(r, Exception) and str(r), 'no-reason', repr(r))
        refused += 1
        if callable(undo):
            undo()
            sim.check(gen.norm(gen.from_lib(tx)) == gen.norm(p.model()), 'undo', 'transaction differs after the correction')
    if not refused:
        return
    # the corrected request is granted, for the same object
    sim.op('good-request', p.describe())
    sim.nontrivial = True
    res = tx.blind(**p.request())
    sim.check(isinstance(res, c.BlindingSuccess), 'refused-after-correction', 'corrected request was refused: %s' % (res,))
    sim.eq(res.num_successfully_blinded, len(p.blind_outs()) + len(p.blind_iss()), 'count', 'number of blinded items')
    node = Node()
    for x in p.coins:
        node.fund(x.point[0], x.point[1], x.out)
    try:
        node.submit(tx.serialize())
    except Reject as e:
        sim.fail('rejected', 'network rejects the transaction that was blinded after refusals: %s' % e)


def snap_args(kw):
    out = []
    for k in sorted(kw):
        v = kw[k]
        if isinstance(v, (list, tuple)):
            out.append((k, tuple(bytes(x) if isinstance(x, (bytes, bytearray)) else repr(x) for x in v)))
    return out


__all__ = ['ref', 'ZERO32']
