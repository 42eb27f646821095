"""Generators of transactions (as reference models) and the translation between
reference models and objects of the library under test."""

import hashlib

from sim import ref
from sim.tape import expand

SECP_N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
MAX_MONEY = 21000000 * 100000000


def nzbytes(sim, n, label):
    """n bytes, never all zero"""
    return expand(1 + sim.draw((1 << 32) - 1, label), n)


def secret(sim, label='secret'):
    return nzbytes(sim, 32, label)         # < N with overwhelming certainty


_pubs = {}


def key(sim, label='key'):
    from bitcointx.core.key import CKey
    return CKey(secret(sim, label))


LENS = (0, 1, 2, 22, 23, 34, 75, 76, 252, 253, 254, 300)
BIGLENS = (0xffff, 0x10000, 0x10001, 70000)


def blob(sim, label, big=False, lens=LENS):
    k = sim.draw(len(lens) + (1 if big else 0) + 1, label + '-len')
    if k < len(lens):
        n = lens[k]
    elif k == len(lens):
        n = sim.draw(120, label + '-n')
    else:
        n = BIGLENS[sim.draw(len(BIGLENS), label + '-big')]
    if n == 0:
        return b''
    return sim.bytes(n, label)


def script_pool(sim, label='script'):
    k = sim.draw(9, label + '-kind')
    if k == 0:
        return b''
    if k == 1:
        return b'\x00\x14' + sim.bytes(20, label)
    if k == 2:
        return b'\x76\xa9\x14' + sim.bytes(20, label) + b'\x88\xac'
    if k == 3:
        return b'\xa9\x14' + sim.bytes(20, label) + b'\x87'
    if k == 4:
        return b'\x51\x20' + sim.bytes(32, label)
    if k == 5:
        return b'\x6a' + bytes([min(75, 20)]) + sim.bytes(20, label)
    if k == 6:
        return b'\x00\x20' + sim.bytes(32, label)
    if k == 7:
        return b'\x51\xab\xac\xab' + sim.bytes(5, label)
    return blob(sim, label)


AMOUNTS = (0, 1, 2, 99999999, 100000000, MAX_MONEY, MAX_MONEY - 1, (1 << 63) - 1, 1 << 32, 255, 256)


def amount(sim, label='amount'):
    k = sim.draw(len(AMOUNTS) + 1, label + '-kind')
    if k < len(AMOUNTS):
        return AMOUNTS[k]
    return sim.draw(MAX_MONEY, label)


def value_comm(sim, label='value', nullable=True):
    k = sim.draw(4 if nullable else 3, label + '-kind')
    if k == 0:
        return b'\x01' + amount(sim, label).to_bytes(8, 'big')
    if k == 1:
        return b'\x08' + sim.bytes(32, label)
    if k == 2:
        return b'\x09' + sim.bytes(32, label)
    return b''


def asset_comm(sim, label='asset'):
    k = sim.draw(4, label + '-kind')
    return (b'\x01', b'\x0a', b'\x0b')[k] + sim.bytes(32, label) if k < 3 else b''


def nonce_comm(sim, label='nonce'):
    k = sim.draw(4, label + '-kind')
    return b'' if k == 0 else (b'\x02', b'\x03', b'\x01')[k - 1] + sim.bytes(32, label)


NS = (0, 1, 2, 3, 255, 256, 65536, 0x3ffffffe, 0x3fffffff)
U32 = (0, 1, 0xffffffff, 0xfffffffe, 0x7fffffff, 0x80000000, 499999999, 500000000, 0x00400000, 1 << 22)


def u32(sim, label):
    k = sim.draw(len(U32) + 1, label + '-kind')
    return U32[k] if k < len(U32) else sim.draw(1 << 32, label)


def version(sim):
    return sim.pick((2, 1, 0, -1, 0x7fffffff, -0x80000000, 3, 256), 'version')


def issuance(sim):
    k = sim.draw(6, 'iss-kind')
    if k < 2:
        return None
    iss = {'nonce': b'\x00' * 32, 'entropy': sim.bytes(32, 'entropy'),
           'amount': value_comm(sim, 'iss-amount'), 'keys': value_comm(sim, 'iss-keys')}
    if k == 5:
        iss['nonce'] = nzbytes(sim, 32, 'iss-nonce')
    return iss


def tx_in(sim, coinbase_ok=True):
    if coinbase_ok and sim.chance(1, 12, 'coinbase'):
        # (the marker is the index alone)
        h = sim.bytes(32, 'prevhash') if sim.chance(1, 4, 'marked') else b'\x00' * 32
        return {'hash': h, 'n': 0xffffffff, 'script': blob(sim, 'cb', lens=(2, 3, 20, 100)),
                'seq': u32(sim, 'seq'), 'iss': None, 'pegin': False}
    i = {'hash': sim.bytes(32, 'prevhash'), 'n': NS[sim.draw(len(NS), 'n')],
         'script': script_pool(sim, 'scriptSig'), 'seq': u32(sim, 'seq'),
         'iss': issuance(sim), 'pegin': sim.chance(1, 4, 'pegin')}
    if i['n'] == 0x3fffffff and i['pegin'] and not ref.iss_null(i['iss']):
        i['pegin'] = False          # on the wire this would be the coinbase marker
    return i


def tx_out(sim):
    return {'asset': asset_comm(sim), 'value': value_comm(sim), 'nonce': nonce_comm(sim),
            'script': script_pool(sim)}


def stack(sim, label, big=False):
    n = sim.wpick(((4, 0), (3, 1), (3, 2), (1, 3), (1, 5)), label + '-n')
    return [blob(sim, label, big) for _ in range(n)]


def in_wit(sim, big=False):
    w = ref.empty_inwit()
    k = sim.draw(16, 'inwit-kind')
    if k & 1:
        w['stack'] = stack(sim, 'wit', big)
    if k & 2:
        w['amount_rp'] = blob(sim, 'amount-rp', big)
    if k & 4:
        w['keys_rp'] = blob(sim, 'keys-rp', big)
    if k & 8:
        w['pegin'] = stack(sim, 'pegin-wit')
    return w


def out_wit(sim, big=False):
    w = ref.empty_outwit()
    k = sim.draw(4, 'outwit-kind')
    if k & 1:
        w['sp'] = blob(sim, 'sp', big)
    if k & 2:
        w['rp'] = blob(sim, 'rp', big)
    return w


def counts(sim, label, lo=0):
    k = sim.wpick(((6, 1), (5, 2), (3, 3), (2, 0), (1, 5), (1, 9)), label)
    return max(k, lo)


def tx(sim, big=False, min_in=0, min_out=0, coinbase_ok=True):
    t = {'version': version(sim), 'locktime': u32(sim, 'locktime')}
    t['vin'] = [tx_in(sim, coinbase_ok) for _ in range(counts(sim, 'nin', min_in))]
    t['vout'] = [tx_out(sim) for _ in range(counts(sim, 'nout', min_out))]
    wk = sim.draw(5, 'wit-kind')     # none / in / out / both / both
    t['inwit'] = [in_wit(sim, big) if wk in (1, 3, 4) else ref.empty_inwit() for _ in t['vin']]
    t['outwit'] = [out_wit(sim, big) if wk in (2, 3, 4) else ref.empty_outwit() for _ in t['vout']]
    if big and sim.chance(1, 40, 'many'):
        # list lengths that need a longer length prefix
        n = sim.pick((252, 253, 256), 'many-n')
        o = tx_out(sim)
        t['vout'] = [dict(o) for _ in range(n)]
        t['outwit'] = [ref.empty_outwit() for _ in t['vout']]
    return t


MANY = (16, 17, 33, 64, 127, 128, 129, 252, 253, 255, 256, 257, 300)


def index(sim, n, label='idx'):
    if n > 16 and sim.chance(2, 3, label + '-late'):
        return n - 1 - sim.draw(4, label)
    return sim.draw(n, label)


def enlarge(sim, t, of=('in', 'out', 'both')):
    """many inputs or outputs: each eighth is like one that was drawn, all have data of their own"""
    sides = sim.pick(of, 'enlarge')
    salt = sim.bytes(8, 'enlarge-salt')
    same = sim.pick(MANY, 'many') if sides == 'both' and sim.chance(2, 3, 'many-same') else 0
    for side, items, wits, empty in (('in', t['vin'], t['inwit'], ref.empty_inwit), ('out', t['vout'], t['outwit'], ref.empty_outwit)):
        if sides not in (side, 'both') or not items:
            continue
        n = same or sim.pick(MANY, 'many-' + side)
        m = len(items)
        wit = sim.chance(1, 2, 'many-wit')
        for k in range(m, n):
            h = ref.sha(salt + b'%s%d' % (side.encode(), k))
            if side == 'in':
                x = {'hash': h, 'n': h[0], 'seq': 0xffffff00 + h[1], 'script': h[:h[2] % 4], 'iss': None, 'pegin': h[3] < 32}
                if k % 8 == 0 and items[k % m]['iss'] is not None:
                    x['iss'] = dict(items[k % m]['iss'], entropy=ref.sha(h))
            elif k % 8 == 0:
                x = dict(items[k % m])
            else:
                x = {'asset': b'\x01' + ref.sha(salt), 'value': b'\x01\0\0' + h[:6], 'nonce': b'', 'script': b'\x00\x14' + h[:20]}
            at = len(items) if k % 2 else 0
            items.insert(at, x)
            wits.insert(at, dict(wits[-1]) if wit and k % 16 == 0 else empty())
    sim.probe('many-inputs-or-outputs')
    return t


def copy(t):
    return {'version': t['version'], 'locktime': t['locktime'],
            'vin': [dict(i, iss=None if i['iss'] is None else dict(i['iss'])) for i in t['vin']],
            'vout': [dict(o) for o in t['vout']],
            'inwit': [dict(w, stack=list(w['stack']), pegin=list(w['pegin'])) for w in t['inwit']],
            'outwit': [dict(w) for w in t['outwit']]}


def norm(t):
    """what survives the wire: an empty issuance is no issuance"""
    t = copy(t)
    for i in t['vin']:
        if ref.iss_null(i['iss']):
            i['iss'] = None
    return t


# ------------------------------------------------------------- to the library

def L():
    import elementstx.core as c
    return c


def lib_iss(iss):
    c = L()
    if iss is None:
        return c.CAssetIssuance()
    from bitcointx.core import Uint256
    return c.CAssetIssuance(Uint256(iss['nonce']), Uint256(iss['entropy']),
                            c.CConfidentialValue(iss['amount']), c.CConfidentialValue(iss['keys']))


def lib_stack(items):
    from bitcointx.core.script import CScriptWitness
    return CScriptWitness(items)


def lib_in(i, mutable=False):
    c = L()
    from elementstx.core.script import CElementsScript
    cls = c.CElementsMutableTxIn if mutable else c.CElementsTxIn
    ocls = c.CElementsMutableOutPoint if mutable else c.CElementsOutPoint
    return cls(ocls(i['hash'], i['n']), CElementsScript(i['script']), i['seq'],
               lib_iss(i['iss']), i['pegin'])


def lib_out(o, mutable=False):
    c = L()
    from elementstx.core.script import CElementsScript
    cls = c.CElementsMutableTxOut if mutable else c.CElementsTxOut
    return cls(c.CConfidentialValue(o['value']), CElementsScript(o['script']),
               c.CConfidentialAsset(o['asset']), c.CConfidentialNonce(o['nonce']))


def lib_inwit(w, mutable=False):
    c = L()
    cls = c.CElementsMutableTxInWitness if mutable else c.CElementsTxInWitness
    return cls(lib_stack(w['stack']), w['amount_rp'], w['keys_rp'], lib_stack(w['pegin']))


def lib_outwit(w, mutable=False):
    c = L()
    cls = c.CElementsMutableTxOutWitness if mutable else c.CElementsTxOutWitness
    return cls(w['sp'], w['rp'])


def lib_wit(t, mutable=False, trim=0):
    """trim&1: leave the list of input witnesses empty if they are all empty,
    trim&2: same with output witnesses"""
    c = L()
    cls = c.CElementsMutableTxWitness if mutable else c.CElementsTxWitness
    ins = [lib_inwit(w, mutable) for w in t['inwit']]
    outs = [lib_outwit(w, mutable) for w in t['outwit']]
    if trim & 1 and all(ref.inwit_null(w) for w in t['inwit']):
        ins = []
    if trim & 2 and all(ref.outwit_null(w) for w in t['outwit']):
        outs = []
    return cls(ins, outs)


def lib_tx(t, mutable=False, style=0):
    """style: bits select among equivalent ways of building the object"""
    c = L()
    cls = c.CElementsMutableTransaction if mutable else c.CElementsTransaction
    inner = mutable ^ bool(style & 4)
    if not ref.has_witness(t) and style & 8:
        wit = None
    else:
        wit = lib_wit(t, mutable=inner, trim=style & 3)
        if mutable is False and wit is not None and wit.is_null() and style & 16:
            wit = None
    return cls([lib_in(i, inner) for i in t['vin']], [lib_out(o, inner) for o in t['vout']],
               t['locktime'], t['version'], wit)


# ----------------------------------------------------------- from the library

def from_iss(a):
    iss = {'nonce': a.assetBlindingNonce.data, 'entropy': a.assetEntropy.data,
           'amount': bytes(a.nAmount.commitment), 'keys': bytes(a.nInflationKeys.commitment)}
    return None if ref.iss_null(iss) else iss


def from_in(i):
    return {'hash': bytes(i.prevout.hash), 'n': i.prevout.n, 'script': bytes(i.scriptSig),
            'seq': i.nSequence, 'iss': from_iss(i.assetIssuance), 'pegin': i.is_pegin}


def from_out(o):
    return {'asset': bytes(o.nAsset.commitment), 'value': bytes(o.nValue.commitment),
            'nonce': bytes(o.nNonce.commitment), 'script': bytes(o.scriptPubKey)}


def from_inwit(w):
    return {'amount_rp': bytes(w.issuanceAmountRangeproof), 'keys_rp': bytes(w.inflationKeysRangeproof),
            'stack': [bytes(x) for x in w.scriptWitness.stack],
            'pegin': [bytes(x) for x in w.pegin_witness.stack]}


def from_outwit(w):
    return {'sp': bytes(w.surjectionproof), 'rp': bytes(w.rangeproof)}


def from_lib(tx):
    t = {'version': tx.nVersion, 'locktime': tx.nLockTime,
         'vin': [from_in(i) for i in tx.vin], 'vout': [from_out(o) for o in tx.vout],
         'inwit': [from_inwit(w) for w in tx.wit.vtxinwit],
         'outwit': [from_outwit(w) for w in tx.wit.vtxoutwit]}
    while len(t['inwit']) < len(t['vin']):
        t['inwit'].append(ref.empty_inwit())
    while len(t['outwit']) < len(t['vout']):
        t['outwit'].append(ref.empty_outwit())
    return t


def digest(t):
    return hashlib.sha256(repr(sorted_model(t)).encode()).hexdigest()[:16]


def sorted_model(t):
    if isinstance(t, dict):
        return tuple((k, sorted_model(v)) for k, v in sorted(t.items()))
    if isinstance(t, (list, tuple)):
        return tuple(sorted_model(x) for x in t)
    return t


def diff(a, b, path=''):
    """first difference between two models, for messages"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return '%s.%s missing' % (path, k)
            d = diff(a[k], b[k], path + '.' + k)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s: %d != %d entries' % (path, len(a), len(b))
        for n, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, '%s[%d]' % (path, n))
            if d:
                return d
        return None
    if a != b:
        return '%s: %s != %s' % (path, str(a)[:120], str(b)[:120])
    return None
