"""C13: legacy and segwit v0 signatures commit to what the Elements rules say"""

from sim import gen, jobs, ref
from sim.parties import Room
from sim.world import ELEMENTS_CHAINS, warm_native, select

ID = 'C13'
TECHNIQUE = ('simulated multi-party histories of editing, signing, exchanging and verifying over a faulty network; every hash is '
             'compared with an independent implementation of the network rules')
RUNS = {'quick': 5000, 'thorough': 40000}
RULE = ('one evaluation is one simulated history of two or three parties with diverging views of a transaction; non-trivial if at '
        'least one hash was signed; told apart by the hash of the event trace')
STATES = '(signature version, hash type, input index, script kind, number of inputs and outputs, mutability, refused or not)'
REAL = ['RawElementsSignatureHash, CElementsScript.sighash and raw_sighash', 'transaction classes and serialization',
        'CKey.sign / CPubKey.verify of bitcointx with the system libsecp256k1']
STUB = ['network between the parties', 'reference implementation of the signature hashes as oracle', 'secp256k1-zkp functions']
ASSUMPTIONS = ['scripts to be signed parse completely (others fail on the network before a signature is checked)',
               'spent outputs have a value (an output without a value cannot be in the ledger)',
               'reference hashes follow Elements Core: legacy hashes commit to issuances but not to peg-in flags or witnesses']

HT = (1, 2, 3, 0x81, 0x82, 0x83)


def warmup():
    warm_native()


def code(sim):
    """a script that is signed for; well formed"""
    k = sim.draw(8, 'code')
    if k == 0:
        return 'p2pkh', b'\x76\xa9\x14' + sim.bytes(20, 'code') + b'\x88\xac'
    if k == 1:
        return 'empty', b''
    if k == 2:
        return 'checksig', b'\x21\x02' + sim.bytes(32, 'code') + b'\xac'
    if k == 3:      # code separators between and inside of pushes
        return 'codesep', b'\xab\x51\xab\x02\xab\xab\x75\xab' + b'\x4c\x03\xab\x01\xab' + b'\xab\xac\xab'
    if k == 4:
        return 'pushes', b'\x4d\x04\x01' + sim.bytes(260, 'code') + b'\x75\xac'
    if k == 5:
        return 'long', b'\x61' * sim.pick((252, 253, 254, 520), 'code-len') + b'\xac'
    if k == 6:
        return 'p2sh', b'\xa9\x14' + sim.bytes(20, 'code') + b'\x87'
    n = sim.draw(12, 'ops')
    return 'ops', bytes(sim.pick((0x51, 0xac, 0xab, 0x61, 0x87, 0xc7, 0xd7, 0xe4), 'op') for _ in range(n))


class Scheme:
    def __init__(self, sim):
        self.sim = sim
        self.scripts = [code(sim) for _ in range(2)]
        self.coins = [gen.value_comm(sim, nullable=False) for _ in range(2)]

    def request(self, p):
        sim = self.sim
        kind, script = sim.pick(self.scripts, 'script')
        v0 = sim.chance(1, 2, 'v0')
        k = sim.draw(8, 'ht')
        ht = HT[k] if k < 6 else sim.pick((0, 4, 0x1f, 0x40, 0x41, 0x43, 0x80, 0x84, 0xe3, 0xff, 0x101, 0x7fffffff, -1,
                                           0x182, 0x23, 0x62), 'odd-ht')
        raw = k >= 6 or sim.chance(1, 4, 'raw')
        return {'v0': v0, 'kind': kind, 'script': script, 'ht': ht, 'raw': raw, 'amount': sim.pick(self.coins, 'amount'),
                'idx': gen.index(sim, len(p.t['vin'])), 'free': sim.chance(1, 3, 'free-function')}

    def key(self, r):
        return (r['v0'], r['kind'], r['ht'], r['raw'], r['idx'])

    def show(self, r):
        return '%s hash, type 0x%x, input %d, script %s, %s' % (
            'segwit v0' if r['v0'] else 'legacy', r['ht'] & 0xffffffff, r['idx'], r['kind'],
            'raw_sighash' if r['raw'] else 'sighash')

    def ref(self, r, t, spent):
        if r['idx'] >= len(t['vin']):
            return None
        if r['v0']:
            return ref.sighash_v0(t, r['script'], r['idx'], r['ht'], r['amount'])
        try:
            return ref.sighash_legacy(t, r['script'], r['idx'], r['ht'])
        except ref.RefError:
            return None

    def lib(self, r, obj, t, spent):
        sim = self.sim
        from elementstx.core.script import CElementsScript, RawElementsSignatureHash
        from bitcointx.core.script import SIGVERSION_BASE, SIGVERSION_WITNESS_V0, SIGHASH_Type
        c = gen.L()
        s = CElementsScript(r['script'])
        kw = {'amount': c.CConfidentialValue(r['amount']), 'sigversion': SIGVERSION_WITNESS_V0 if r['v0'] else SIGVERSION_BASE}
        if not r['v0'] and r['free']:
            kw = {}
        if r['raw']:
            if r['free']:
                h, err = RawElementsSignatureHash(s, obj, r['idx'], r['ht'], **kw)
            else:
                h, err = s.raw_sighash(obj, r['idx'], r['ht'], **kw)
            if err is not None:
                sim.eq(h, ref.ONE, 'wrong-hash', 'the hash of a type without a matching output')
                return None
            return h
        try:
            return s.sighash(obj, r['idx'], SIGHASH_Type(r['ht']) if r['free'] else r['ht'], **kw)
        except ValueError:
            return None

    def commit(self, r, t, spent):
        """what a signature commits to, independently of any hash"""
        base, acp, idx = r['ht'] & 0x1f, bool(r['ht'] & 0x80), r['idx']

        def inp(i, seq):
            iss = None if ref.iss_null(i['iss']) else gen.sorted_model(i['iss'])
            return (i['hash'], i['n'], iss, i['seq'] if seq else None)
        ins = t['vin']
        allseq = base not in (2, 3)
        c = [r['v0'], r['ht'], t['version'], t['locktime'], inp(ins[idx], True)]
        if r['v0']:
            c += [r['script'], r['amount']]
        else:
            c.append(ref.strip_codeseparators(r['script']))
            if not acp:
                c.append(idx)
        if not acp:
            c.append(tuple(inp(i, allseq) for i in ins))
        if base == 2:
            pass
        elif base == 3:
            if not r['v0']:
                c.append(idx)
            c.append(gen.sorted_model(t['vout'][idx]) if idx < len(t['vout']) else None)
        else:
            c.append(gen.sorted_model(t['vout']))
        return tuple(c)

    def sign(self, key, h):
        return key.sign(h)

    def verify(self, key, h, sig):
        return key.pub.verify(h, sig)


def run(sim):
    if sim.chance(1, 12, 'together'):
        return jobs.together(sim, (jobs.legacy,), ELEMENTS_CHAINS)
    with_params = sim.pick(('elements', 'elements/liquidv1'), 'chain')
    select(with_params)
    Room(sim, Scheme(sim)).run()
