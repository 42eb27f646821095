"""C14: taproot signatures commit to what the Elements rules say"""

from sim import gen, jobs, ref, taproot
from sim.parties import Room
from sim.world import ELEMENTS_CHAINS, warm_native, select

ID = 'C14'
TECHNIQUE = ('simulated multi-party histories of editing, signing, exchanging and verifying over a faulty network; every hash is '
             'compared with an independent implementation of the network rules, and taproot spends are validated by a reference node')
RUNS = {'quick': 6500, 'thorough': 60000}
RULE = ('one evaluation is one simulated history of two or three parties with diverging views of a transaction and of the outputs '
        'it spends; non-trivial if at least one hash was signed; told apart by the hash of the event trace')
STATES = '(key or script spend, hash type, annex, code separator, input index, number of inputs and outputs, mutability, refused)'
REAL = ['ElementsSignatureHashSchnorr, CElementsScript.sighash_schnorr, TaprootElementsScriptTree', 'transaction classes',
        'taproot tags of CoreElementsParams', 'Schnorr signatures of bitcointx with the system libsecp256k1']
STUB = ['network between the parties', 'reference implementation of the taproot hash and of the node as oracle']
ASSUMPTIONS = ['spent outputs have a value and an asset (others cannot be in the ledger)',
               'code separator positions are below 2**31', 'leaf version 0xc4 (the only one with defined semantics)']

HT = (None, 1, 2, 3, 0x81, 0x82, 0x83)


def warmup():
    warm_native()


class Scheme:
    def __init__(self, sim):
        self.sim = sim
        self.scripts = [gen.blob(sim, 'leaf') for _ in range(2)]
        self.genesis = [sim.bytes(32, 'genesis') for _ in range(2)]
        self.annexes = [sim.bytes(32, 'annex') for _ in range(2)]
        self.last = None

    def request(self, p):
        sim = self.sim
        r = {'ht': HT[sim.draw(7, 'ht')], 'idx': gen.index(sim, len(p.t['vin'])),
             'script': sim.pick(self.scripts, 'leaf') if sim.chance(1, 2, 'script-path') else None,
             'codesep': sim.pick((-1, 0, 1, 300, 0x7fffffff), 'codesep') if sim.chance(1, 3, 'cs') else -1,
             'annex': sim.pick(self.annexes, 'annex') if sim.chance(1, 3, 'with-annex') else None,
             'genesis': sim.pick(self.genesis, 'genesis'), 'free': sim.chance(1, 2, 'free-function'), 'bad': None,
             'tuple': sim.chance(1, 2, 'spent-as-tuple'), 'mut': sim.chance(1, 3, 'spent-mutable')}
        if self.last is not None and sim.chance(1, 3, 'near-last'):
            # one thing different from the last request
            r2 = dict(self.last)
            if r2['idx'] < len(p.t['vin']):
                f = sim.pick(('ht', 'script', 'codesep', 'annex', 'genesis'), 'vary')
                r2[f] = r[f]
                r = r2
        self.last = dict(r)
        if sim.chance(1, 10, 'bad'):
            r['bad'] = sim.pick(('int-ht', 'neg-idx', 'big-idx', 'few-spent', 'many-spent', 'short-leaf', 'short-annex',
                                 'short-genesis', 'no-leaf', 'no-codesep', 'sigversion', 'no-spent'), 'bad-kind')
        return r

    def key(self, r):
        return ('script' if r['script'] is not None else 'key', r['ht'], r['codesep'], r['annex'] is not None, r['bad'], r['idx'])

    def show(self, r):
        return 'taproot %s spend, type %s, input %d, code separator %d, annex %s, malformed: %s' % (
            'key' if r['script'] is None else 'script', r['ht'], r['idx'], r['codesep'], r['annex'] is not None, r['bad'])

    def ref(self, r, t, spent):
        if r['bad']:
            return None
        try:
            return ref.sighash_taproot(t, r['idx'], spent, r['ht'], r['genesis'],
                                       leaf=None if r['script'] is None else ref.tapleaf(r['script']),
                                       codesep=r['codesep'], annex_hash=r['annex'])
        except ref.RefError:
            return None

    def lib(self, r, obj, t, spent):
        sim = self.sim
        from elementstx.core.script import CElementsScript, ElementsSignatureHashSchnorr
        from bitcointx.core.script import SIGVERSION_TAPROOT, SIGVERSION_TAPSCRIPT, SIGVERSION_WITNESS_V0, SIGHASH_Type
        outs = [gen.lib_out(o, r['mut']) for o in spent]
        idx, ht = r['idx'], None if r['ht'] is None else SIGHASH_Type(r['ht'])
        kw = {'genesis_block_hash': r['genesis']}
        b = r['bad']
        if b == 'neg-idx':
            idx = -1
        elif b == 'big-idx':
            idx = len(t['vin'])
        elif b == 'few-spent':
            outs.pop()
        elif b == 'many-spent':
            outs.append(outs[0])
        elif b == 'no-spent':
            outs = []
        elif b == 'int-ht':
            ht = sim.pick((0, 1, 4, 0x80, 0x84, 255), 'int-ht')
        elif b == 'short-genesis':
            kw['genesis_block_hash'] = r['genesis'][:31]
        elif b == 'short-annex':
            kw['annex_hash'] = b'\x50' + b'\x00' * sim.pick((0, 30, 32), 'annex-len')
        if r['tuple']:
            outs = tuple(outs)
        if r['annex'] is not None and 'annex_hash' not in kw:
            kw['annex_hash'] = r['annex']
        if ht is not None or r['free']:
            kw['hashtype'] = ht
        leafy = r['script'] is not None
        low = b in ('short-leaf', 'no-leaf', 'no-codesep', 'sigversion')
        try:
            if leafy and not r['free'] and not low:
                if r['codesep'] != -1:
                    kw['codeseparator_pos'] = r['codesep']
                return CElementsScript(r['script']).sighash_schnorr(obj, idx, outs, **kw)
            if leafy or low:
                kw['sigversion'] = SIGVERSION_TAPSCRIPT
                kw['tapleaf_hash'] = ref.tapleaf(r['script'] or b'')
                kw['codeseparator_pos'] = r['codesep']
            if b == 'short-leaf':
                kw['tapleaf_hash'] = kw['tapleaf_hash'][:31]
            elif b == 'no-leaf':
                kw['tapleaf_hash'] = None
            elif b == 'no-codesep':
                kw['codeseparator_pos'] = None
            elif b == 'sigversion':
                kw['sigversion'] = SIGVERSION_WITNESS_V0
            elif not leafy and r['free']:
                kw['sigversion'] = SIGVERSION_TAPROOT
            return ElementsSignatureHashSchnorr(obj, idx, outs, **kw)
        except (ValueError, TypeError):
            if b is None:
                try:
                    self.ref_only(r, t, spent)
                except ref.RefError:
                    return None
                raise
            return None

    def ref_only(self, r, t, spent):
        ref.sighash_taproot(t, r['idx'], spent, r['ht'], r['genesis'])

    def commit(self, r, t, spent):
        """what a signature commits to, independently of any hash"""
        ht, idx = r['ht'], r['idx']
        base, acp = (1, False) if ht is None else (ht & 3, bool(ht & 0x80))

        def inp(k):
            i, o, w = t['vin'][k], spent[k], t['inwit'][k]
            null = ref.iss_null(i['iss'])
            iss = None if null else gen.sorted_model(i['iss'])
            # without an issuance there is nothing that its proofs could prove
            pr = None if null and acp else (w['amount_rp'], w['keys_rp'])
            return (i['hash'], i['n'], i['pegin'], iss, pr, i['seq'], o['asset'], o['value'], o['script'])
        c = [ht, r['genesis'], r['annex'], t['version'], t['locktime']]
        c += [inp(idx)] if acp else [idx] + [inp(k) for k in range(len(t['vin']))]
        if base == 1:
            c += [gen.sorted_model(t['vout']), gen.sorted_model(t['outwit'])]
        elif base == 3:
            c += [gen.sorted_model(t['vout'][idx]), gen.sorted_model(t['outwit'][idx])]
        c.append(None if r['script'] is None else (r['script'], r['codesep']))
        return tuple(c)

    def sign(self, key, h):
        return key.sign_schnorr_no_tweak(h, aux=self.sim.bytes(32, 'aux'))

    def verify(self, key, h, sig):
        ok = key.pub.verify_schnorr(h, sig)
        if ok != taproot.verify(bytes(key.pub)[1:], h, sig):
            self.sim.fail('signature-validity', 'library and node disagree')
        return ok


def spend(sim, room, p):
    """a coin in a taproot output is spent by key and by script; the reference
    node decides"""
    from bitcointx.wallet import CCoinKey, P2TRCoinAddress, CCoinAddress
    from bitcointx.core.key import XOnlyPubKey
    from bitcointx.core.script import SIGHASH_Type, TaprootScriptTree, CScript
    from elementstx.core.script import CElementsScript, ElementsSignatureHashSchnorr
    key = CCoinKey.from_secret_bytes(gen.secret(sim, 'internal'))
    x = XOnlyPubKey(key.pub)
    n = sim.draw(5, 'leaves')
    tree = None
    scripts = {}
    if n:
        leaves = []
        for k in range(n):
            s = CElementsScript(gen.blob(sim, 'leaf', lens=(1, 34, 75, 252, 253)) + bytes([0x61, k]), name='s%d' % k)
            scripts['s%d' % k] = bytes(s)
            leaves.append(s)
        if n > 2 and sim.chance(1, 2, 'nested'):
            leaves = [leaves[0], TaprootScriptTree(leaves[1:])]
        tree = TaprootScriptTree(leaves, internal_pubkey=x)
        sim.check(tree.leaf_version == 0xc4, 'leaf-version', hex(tree.leaf_version))
        spk = bytes(P2TRCoinAddress.from_xonly_output_pubkey(tree.output_pubkey).to_scriptPubKey())
        root = tree.merkle_root
    else:
        spk = bytes(P2TRCoinAddress.from_xonly_pubkey(x).to_scriptPubKey())
        root = b''
    want = taproot.output_key(bytes(x), root)
    sim.eq(spk, b'\x51\x20' + want[0], 'taproot-output', 'leaves %d' % n)
    idx = sim.draw(len(p.t['vin']), 'idx')
    p.spent[idx]['script'] = spk
    ht = HT[sim.draw(7, 'ht')]
    if ht is not None and ht & 3 == 3 and idx >= len(p.t['vout']):
        ht = None
    outs = [gen.lib_out(o) for o in p.spent]
    genesis = sim.bytes(32, 'genesis')
    kw = {'hashtype': None if ht is None else SIGHASH_Type(ht), 'genesis_block_hash': genesis}
    h = ElementsSignatureHashSchnorr(p.obj, idx, outs, **kw)
    sig = key.sign_schnorr_tweaked(h, merkle_root=root, aux=sim.bytes(32, 'aux'))
    sim.check(taproot.verify(want[0], ref.sighash_taproot(p.t, idx, p.spent, ht, genesis), sig), 'node-refuses-spend', 'key path')
    for name in sorted(scripts):
        got = tree.get_script_with_control_block(name)
        sim.check(got is not None and bytes(got[0]) == scripts[name], 'taproot-tree', name)
        ver = taproot.check_control(want[0], scripts[name], got[1])
        sim.check(ver == 0xc4, 'node-refuses-spend', 'control block of %s of %d leaves' % (name, n))
        h = got[0].sighash_schnorr(p.obj, idx, outs, **kw)
        sim.eq(h, ref.sighash_taproot(p.t, idx, p.spent, ht, genesis, leaf=ref.tapleaf(scripts[name])), 'wrong-hash', 'script path')
    sim.probe('taproot spend validated by the node')
    sim.nontrivial = True


def run(sim):
    if sim.chance(1, 12, 'together'):
        return jobs.together(sim, (jobs.taproot,), ELEMENTS_CHAINS)
    select(sim.pick(('elements', 'elements/liquidv1'), 'chain'))
    room = Room(sim, Scheme(sim))
    room.run()
    if sim.chance(1, 2, 'spend'):
        spend(sim, room, sim.pick([room.parties[n] for n in sorted(room.parties)], 'spender'))
