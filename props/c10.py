"""Only the owner can unblind an output, and is never deceived."""

import hashlib

from sim import ct, gen, jobs, ref, world
from sim.node import nat, ZERO32, MAX_MONEY, unspendable

ID = 'C10'
TECHNIQUE = ('simulated network of senders, owners and observers: honest outputs, outputs of malicious senders, and data that is '
             'damaged, cut, swapped and replayed on the way; every answer is judged against the plan and by opening the commitments')
RUNS = {'quick': 3500, 'thorough': 80000}
RULE = ('non-trivial: an owner unblinded an honest output and at least one attempt was made with a foreign key, damaged data or '
        'an output of a malicious sender; distinct by trace')
STATES = 'kind of attempt, damage, malicious construction, answer'
REAL = ['elementstx.core (unblind_confidential_pair, blind_transaction)', 'bitcointx', 'libsecp256k1']
STUB = ['secp256k1-zkp: native/simzkp.c', 'malicious senders and the network: this module']
ASSUMPTIONS = ['native/simzkp.c implements range proofs and their rewinding as secp256k1-zkp does', 'an attacker does not break the '
               'hash functions or discrete logarithms']


def warmup():
    world.warm_native()


class Rec:
    """an output as it is seen on the ledger, and the truth about it"""

    def __init__(self, out, rp, key, truth):
        self.out = out
        self.rp = rp
        self.key = key
        self.truth = truth      # (asset, amount, vbf, abf) or None


def ask(sim, c, key, out, rp, as_bytearray=False):
    kw = ct.unblind_kw(out, bytearray(rp) if as_bytearray else rp, key)
    r = c.unblind_confidential_pair(**kw)
    sim.check(isinstance(r, (c.UnblindingSuccess, c.UnblindingFailure)), 'result-type', repr(r))
    if isinstance(r, c.UnblindingSuccess):
        sim.check(r.ok and r.error == '', 'result-ok', repr(r))
        sim.check(0 <= r.amount <= MAX_MONEY, 'money-range', 'unblinded amount %d is outside of the money range' % r.amount)
        n = nat()
        g = n.generator(r.asset.data, r.asset_blinding_factor.data)
        # an explicit asset is the unblinded generator
        want = out['asset'] if out['asset'][:1] in (b'\x0a', b'\x0b') else n.generator(out['asset'][1:])
        sim.check(g == want, 'asset-not-opened', 'success, but the asset and its factor do not open the asset commitment')
        sim.eq(n.commit(r.blinding_factor.data, r.amount, g), out['value'], 'value-not-opened',
               'success, but amount and factor do not open the value commitment')
        d = r.get_descriptor()
        sim.check((d.asset, d.amount, d.blinding_factor, d.asset_blinding_factor) == tuple(r), 'descriptor',
                  'descriptor differs from the result')
    else:
        sim.check(not r.ok and isinstance(r.error, str) and r.error, 'result-ok', repr(r))
    return r


def truth_of(r):
    return (r.asset.data, r.amount, r.blinding_factor.data, r.asset_blinding_factor.data)


def sign(*a):
    """the range proof that a sender with its own software makes; None if it is impossible"""
    return nat().range_sign(*a)


EVIL = ('other-asset', 'other-factor', 'short-message', 'huge-amount', 'other-script', 'no-message', 'zero-amount', 'honest-own',
        'factor-overflow', 'explicit-asset', 'other-amount-commitment', 'edge-amount', 'explicit-other-asset', 'explicit-other-factor')


def evil(sim, owner):
    """an output made by a malicious sender -> (kind, Rec, must_fail)"""
    from bitcointx.core import Uint256
    n = nat()
    kind = EVIL[sim.draw(len(EVIL), 'evil')]
    asset = ct.asset_tag(sim.draw(3, 'asset'))
    amt = 1 + sim.draw(500, 'amount')
    vbf, abf = gen.secret(sim, 'vbf'), gen.secret(sim, 'abf')
    script = ct.script(sim, sim.pick(('p2wpkh', 'p2sh', 'op_return'), 'spk'))
    eph = ct.seckey(gen.secret(sim, 'eph'))
    nonce = hashlib.sha256(eph.ECDH(ct.pub(owner))).digest()
    msg = asset + abf
    committed = script
    minv, exp, bits = 1, 0, sim.pick((3, 4, 8), 'bits')
    must_fail = True
    vasset, vabf, vamt = asset, abf, amt
    if kind == 'other-asset':
        msg = ct.asset_tag(7) + abf
    elif kind == 'other-factor':
        msg = asset + gen.secret(sim, 'abf2')
    elif kind == 'short-message':
        msg = msg[:sim.draw(63, 'msg-len') + 1]
        # zero padded on the other side
        pad = (msg + b'\x00' * 64)[:64]
        must_fail = pad != asset + abf
    elif kind == 'no-message':
        msg = b''
        bits = sim.pick((0, 1, 2), 'bits')
        amt = vamt = 1 + sim.draw(2, 'tiny')
        exp = sim.pick((0, -1), 'exp')
    elif kind == 'huge-amount':
        vamt = sim.pick((MAX_MONEY + 1, 1 << 52, (1 << 63) - 1, 1 << 63, (1 << 64) - 1), 'huge')
    elif kind == 'edge-amount':
        vamt = sim.pick((MAX_MONEY, MAX_MONEY - 1), 'edge')
        amt = vamt
        must_fail = False
    elif kind == 'other-script':
        committed = ct.script(sim, 'p2wpkh') if sim.chance(1, 2, 'script-how') else b''
    elif kind == 'zero-amount':
        vamt = 0
        minv = 0
        must_fail = False
    elif kind == 'honest-own':
        exp = sim.pick((0, 1, 2), 'exp')
        minv = sim.draw(amt + 1, 'minv')
        must_fail = False
    elif kind == 'factor-overflow':
        abf = vabf = ZERO32
        msg = asset + b'\xff' * 32
    elif kind == 'explicit-asset':
        abf = vabf = ZERO32
        msg = asset + ZERO32
        must_fail = False
    elif kind == 'explicit-other-asset':
        # the asset can be seen, the message says something else
        abf = vabf = ZERO32
        msg = sim.pick((ct.asset_tag(7) + ZERO32, ct.asset_tag(7) + gen.secret(sim, 'abf2'), ZERO32 + ZERO32), 'lie')
    elif kind == 'explicit-other-factor':
        abf = vabf = ZERO32
        msg = asset + gen.secret(sim, 'abf2')
    elif kind == 'other-amount-commitment':
        pass
    g = n.generator(vasset, vabf)
    com = n.commit(vbf, vamt, g)
    if kind == 'other-amount-commitment':
        # proof of another commitment of the same owner
        com2 = n.commit(vbf, vamt + 1, g)
        rp = sign(com2, g, vbf, nonce, vamt + 1, msg, committed, minv, exp, bits)
    else:
        rp = sign(com, g, vbf, nonce, vamt, msg, committed, minv, exp, bits)
    if rp is None:
        return kind, None, True
    out = {'asset': b'\x01' + asset if kind.startswith('explicit-') else g, 'value': com, 'nonce': bytes(eph.pub),
           'script': script}
    return kind, Rec(out, rp, owner, None if must_fail else (asset, vamt, vbf, vabf)), must_fail


def damage(sim, recs, r):
    """-> (what, output, proof): anything that is not what the sender made"""
    out = dict(r.out)
    rp = r.rp
    k = sim.draw(15, 'damage')
    other = recs[sim.draw(len(recs), 'other')]
    if k == 0:
        rp = flip(sim, rp)
        what = 'proof-bit'
    elif k == 1:
        out['value'] = flip(sim, out['value'])
        what = 'value-bit'
    elif k == 2:
        out['asset'] = flip(sim, out['asset'])
        what = 'asset-bit'
    elif k == 3:
        out['nonce'] = flip(sim, out['nonce']) if out['nonce'] else b'\x02' + gen.nzbytes(sim, 32, 'n')
        what = 'nonce-bit'
    elif k == 4:
        if not out['nonce']:        # no script is committed to
            return None
        out['script'] = flip(sim, out['script']) if out['script'] else b'\x51'
        what = 'script-bit'
    elif k == 5:
        rp = rp[:sim.draw(len(rp), 'cut')]
        what = 'proof-cut'
    elif k == 6:
        rp = rp + gen.nzbytes(sim, sim.irange(1, 40, 'tail-len'), 'tail')
        what = 'proof-tail'
    elif k == 7:
        rp = other.rp
        what = 'proof-swapped'
    elif k == 8:
        out['value'] = other.out['value']
        what = 'value-swapped'
    elif k == 9:
        out['asset'] = other.out['asset']
        what = 'asset-swapped'
    elif k == 10:
        out['nonce'] = other.out['nonce']
        what = 'nonce-swapped'
    elif k == 11:
        if not out['nonce']:
            return None
        out['script'] = other.out['script'] if sim.chance(1, 2, 'how') else b''
        what = 'script-swapped'
    elif k == 12:
        out['nonce'] = b''
        what = 'nonce-removed'
    elif k == 13:
        f = sim.pick(('value', 'asset'), 'field')
        if f == 'value':
            out['value'] = b'\x01' + (r.truth[1] if r.truth else 5).to_bytes(8, 'big') if sim.chance(1, 2, 'how') else b''
        else:
            out['asset'] = b'\x01' + (r.truth[0] if r.truth else ct.asset_tag(0)) if sim.chance(1, 2, 'how') else b''
        what = f + '-explicit'
    else:
        rp = b'\x00' * len(rp) if sim.chance(1, 2, 'how') else gen.nzbytes(sim, len(rp), 'junk')
        what = 'proof-junk'
    if out == r.out and rp == r.rp:
        return None
    return what, out, rp


def flip(sim, b):
    if not b:
        return b'\x01'
    x = bytearray(b)
    # often in the first bytes, where headers are
    i = sim.draw(min(len(b), 12), 'at-head') if sim.chance(1, 3, 'head') else sim.draw(len(b), 'at')
    x[i] ^= 1 << sim.draw(8, 'bit')
    return bytes(x)


def run(sim):
    import elementstx.core as c
    ct.weigh(sim)
    if sim.chance(1, 20, 'together'):
        return jobs.together(sim, (jobs.unblind,), world.ELEMENTS_CHAINS)
    chain = sim.pick(world.ELEMENTS_CHAINS, 'chain')
    world.select(chain)
    recs = []
    owners = [gen.secret(sim, 'owner') for _ in range(sim.irange(2, 3, 'n-owners'))]
    issuers = []
    # honest senders
    for _ in range(sim.irange(1, 2, 'n-tx')):
        p = ct.plan(sim, max_in=2, max_out=3)
        ct.set_params(sim, p)
        for o in p.outs:
            if o['key'] is not None:
                o['key'] = owners[sim.draw(len(owners), 'owner-of')]
                if o['nonce']:
                    o['nonce'] = b''
        if not p.blind_outs():
            continue
        tx = p.build(sim.draw(6, 'style'))
        res = tx.blind(**p.request())
        sim.check(isinstance(res, c.BlindingSuccess), 'refused', '%s' % (res,))
        t, _ = ref.decode(tx.serialize())
        for k in p.blind_outs():
            o = p.outs[k]
            recs.append(Rec(t['vout'][k], t['outwit'][k]['rp'], o['key'],
                            (o['asset'], o['amount'], res.blinding_factors[k].data, res.asset_blinding_factors[k].data)))
        for i, what in p.blind_iss():
            x = p.iss[i]
            _, a, tok = p.ids(i)
            aid, amt, key, f, w = (a, x['amount'], x['akey'], 'amount', 'amount_rp') if what == 'amount' else \
                (tok, x['tokens'], x['tkey'], 'keys', 'keys_rp')
            out = {'asset': b'\x01' + aid, 'value': t['vin'][i]['iss'][f], 'nonce': b'',
                   'script': t['vout'][0]['script']}
            issuers.append(Rec(out, t['inwit'][i][w], key, (aid, amt, None, ZERO32)))
        sim.op('honest-tx', p.describe())
    if not recs:
        return
    everyone = recs + issuers
    # every owner looks at everything
    for r in everyone:
        u = ask(sim, c, r.key, r.out, r.rp, sim.chance(1, 4, 'bytearray'))
        sim.check(u.ok, 'owner-refused', 'owner cannot unblind: %s' % u.error)
        got = truth_of(u)
        want = tuple(g if w is None else w for g, w in zip(got, r.truth))
        sim.check(got == want, 'owner-wrong', 'owner recovers something else than what was sent')
        sim.probe('owner-success')
        sim.state('honest', len(r.rp), r in issuers)
    for _ in range(sim.irange(1, 8, 'n-attempts')):
        k = sim.draw(5, 'attempt')
        if k == 0:
            r = everyone[sim.draw(len(everyone), 'which')]
            key = sim.pick(owners, 'thief')
            if key == r.key:
                key = gen.secret(sim, 'thief-key')
            sim.op('foreign-key')
            u = ask(sim, c, key, r.out, r.rp)
            sim.check(not u.ok, 'foreign-success', 'a foreign key unblinds an output: %s' % (u,))
            sim.probe('foreign-refused')
            sim.state('foreign')
        elif k in (1, 2, 3):
            r = everyone[sim.draw(len(everyone), 'which')]
            d = damage(sim, everyone, r)
            if d is None:
                continue
            what, out, rp = d
            sim.op('damaged', what)
            sim.fault('channel-' + what)
            key = r.key
            if what in ('proof-swapped', 'value-swapped', 'asset-swapped', 'nonce-swapped') and sim.chance(1, 4, 'key'):
                key = sim.pick(owners, 'who')
            try:
                u = ask(sim, c, key, out, rp)
            except ValueError:
                # length of a commitment is not admitted
                u = None
            sim.state(what, type(u).__name__)
            if u is not None and u.ok:
                # only possible if it is, after all, what somebody sent
                same = [x for x in everyone if x.out['value'] == out['value'] and x.out['asset'] == out['asset']
                        and x.rp == rp and x.key == key]
                sim.check(bool(same), 'damaged-accepted', 'unblinded altered data (%s)' % what)
            sim.probe('damaged-refused')
        else:
            owner = sim.pick(owners, 'victim')
            kind, r, must_fail = evil(sim, owner)
            if r is None:
                continue
            sim.op('malicious', kind)
            sim.fault('malicious-' + kind)
            u = ask(sim, c, owner, r.out, r.rp)
            sim.state('evil', kind, u.ok)
            if must_fail:
                sim.check(not u.ok, 'deceived', 'malicious output (%s) was unblinded as %s' % (kind, u))
            else:
                sim.check(u.ok, 'owner-refused', 'owner cannot unblind a valid output (%s): %s' % (kind, u.error))
                sim.check(truth_of(u) == r.truth, 'owner-wrong', 'owner recovers something else (%s)' % kind)
            sim.probe('malicious-judged')
        sim.nontrivial = True


__all__ = ['unspendable']
