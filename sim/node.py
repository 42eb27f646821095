"""The network's view: an Elements node that knows nothing of the library.

It decodes transactions with sim.ref, checks amounts, range proofs and
surjection proofs with the node_* functions of the native stand-in, and keeps
the set of unspent outputs."""

import ctypes

from sim import native, ref
from sim.tape import HarnessError

MAX_MONEY = 21000000 * 100000000
ZERO32 = b'\x00' * 32


class Native:
    def __init__(self):
        self.ctl = native.Control()
        self.lib = self.ctl.lib
        self._gen = {}
        self._ctx = None

    def zkp(self):
        """the library as other software uses it: handle and context of its own"""
        l = self.lib
        if self._ctx is None:
            P, B, U64, SZ = ctypes.c_void_p, ctypes.c_char_p, ctypes.c_uint64, ctypes.c_size_t
            l.secp256k1_context_create.restype, l.secp256k1_context_create.argtypes = P, [ctypes.c_uint]
            l.secp256k1_context_randomize.argtypes = [P, B]
            l.secp256k1_pedersen_commitment_parse.argtypes = l.secp256k1_generator_parse.argtypes = [P, B, B]
            l.secp256k1_rangeproof_sign.argtypes = [P, B, P, U64, B, B, B, ctypes.c_int, ctypes.c_int, U64, B, SZ, B, SZ, B]
            l.secp256k1_rangeproof_rewind.argtypes = [P, B, P, B, P, B, P, P, B, B, SZ, B, SZ, B]
            self._ctx = l.secp256k1_context_create(0x301)
            if l.secp256k1_context_randomize(self._ctx, bytes(31) + b'\1') != 1:
                raise HarnessError('context')
        return l, self._ctx

    def _parsed(self, commit33, gen33):
        l, c = self.zkp()
        com, g = ctypes.create_string_buffer(64), ctypes.create_string_buffer(64)
        if l.secp256k1_pedersen_commitment_parse(c, com, commit33) != 1 or l.secp256k1_generator_parse(c, g, gen33) != 1:
            return None
        return com.raw, g.raw

    def range_sign(self, commit33, gen33, vbf, nonce, amount, msg, script, minv, exp, bits):
        """a range proof by other software; None if it is impossible"""
        p = self._parsed(commit33, gen33)
        if p is None:
            return None
        l, c = self.zkp()
        n = ctypes.c_size_t(5134)
        buf = ctypes.create_string_buffer(5134)
        r = l.secp256k1_rangeproof_sign(c, buf, ctypes.byref(n), minv, p[0], vbf, nonce, exp, bits, amount,
                                        msg, len(msg), script or None, len(script), p[1])
        return buf.raw[:n.value] if r == 1 else None

    def rewind(self, commit33, gen33, rp, nonce, script):
        """-> (amount, vbf, message) or None"""
        p = self._parsed(commit33, gen33)
        if p is None:
            return None
        l, c = self.zkp()
        msg = ctypes.create_string_buffer(4096)
        size = ctypes.c_size_t(64)
        vbf = ctypes.create_string_buffer(32)
        v, lo, hi = ctypes.c_uint64(), ctypes.c_uint64(), ctypes.c_uint64()
        if l.secp256k1_rangeproof_rewind(c, vbf, ctypes.byref(v), msg, ctypes.byref(size), nonce, ctypes.byref(lo), ctypes.byref(hi),
                                         p[0], rp, len(rp), script or None, len(script), p[1]) != 1:
            return None
        return v.value, vbf.raw, msg.raw[:size.value]

    def generator(self, asset, abf=None):
        """33-byte serialised generator of asset id [blinded]"""
        if abf == ZERO32:
            abf = None
        key = (asset, abf)
        if key not in self._gen:
            out = ctypes.create_string_buffer(33)
            if self.lib.node_generator(out, asset, abf) != 1:
                raise HarnessError('node_generator')
            self._gen[key] = out.raw
        return self._gen[key]

    def commit(self, vbf, value, gen33):
        out = ctypes.create_string_buffer(33)
        if self.lib.node_commit(out, vbf, ctypes.c_uint64(value), gen33) != 1:
            return None
        return out.raw

    def rangeproof(self, commit33, proof, script, gen33):
        """(min, max) or None"""
        lo, hi = ctypes.c_uint64(), ctypes.c_uint64()
        r = self.lib.node_rangeproof_verify(
            ctypes.byref(lo), ctypes.byref(hi), commit33, proof, ctypes.c_size_t(len(proof)),
            script, ctypes.c_size_t(len(script)), gen33)
        return (lo.value, hi.value) if r == 1 else None

    def surjection(self, proof, gens, out33):
        return self.lib.node_surjection_verify(
            proof, ctypes.c_size_t(len(proof)), b''.join(gens), ctypes.c_size_t(len(gens)), out33) == 1

    def tally(self, ins, outs):
        return self.lib.node_tally(b''.join(ins), ctypes.c_size_t(len(ins)),
                                   b''.join(outs), ctypes.c_size_t(len(outs))) == 1

    def gen_valid(self, g):
        return len(g) == 33 and self.lib.node_generator_valid(g) == 1

    def commit_valid(self, c):
        return len(c) == 33 and self.lib.node_commit_valid(c) == 1


_nat = []


def nat():
    if not _nat:
        _nat.append(Native())
    return _nat[0]


def unspendable(script):
    return len(script) == 0 or script[0] == 0x6a or len(script) > 10000


def explicit_asset(a):
    return a[1:] if len(a) == 33 and a[0] == 1 else None


class Reject(Exception):
    pass


def _asset_gen(a):
    n = nat()
    e = explicit_asset(a)
    if e is not None:
        return n.generator(e)
    if len(a) == 33 and a[0] in (10, 11) and n.gen_valid(a):
        return a
    raise Reject('bad asset')


def _value_commit(v, gen, allow_zero=False):
    n = nat()
    e = ref.explicit_amount(v)
    if e is not None:
        if e > MAX_MONEY:
            raise Reject('amount out of range')
        if e == 0:
            if allow_zero:
                return None
            raise Reject('zero amount')
        return n.commit(ZERO32, e, gen)
    if len(v) == 33 and v[0] in (8, 9) and n.commit_valid(v):
        return v
    raise Reject('bad value')


def issuance_ids(t, i):
    """(entropy, asset, token) of the issuance of input i"""
    iss = t['vin'][i]['iss']
    if iss['nonce'] == ZERO32:
        ent = ref.asset_entropy(t['vin'][i]['hash'], t['vin'][i]['n'], iss['entropy'])
    else:
        ent = iss['entropy']
    conf = len(iss['amount']) == 33
    return ent, ref.asset_id(ent), ref.token_id(ent, conf)


def verify_amounts(t, coins):
    """raises Reject; t: reference model, coins: one dict per input"""
    n = nat()
    ins, targets = [], []
    for i, vin in enumerate(t['vin']):
        c = coins[i]
        gen = _asset_gen(c['asset'])
        targets.append(gen)
        ins.append(_value_commit(c['value'], gen))
        iss = vin['iss']
        if ref.iss_null(iss):
            continue
        ent, asset, token = issuance_ids(t, i)
        if iss['nonce'] != ZERO32:
            if c['asset'] != n.generator(token, iss['nonce']):
                raise Reject('reissuance of input %d: the input is not the token' % i)
            if iss['keys']:
                raise Reject('reissuance of input %d creates tokens' % i)
        w = t['inwit'][i]
        for what, val, aid, rp in (('amount', iss['amount'], asset, w['amount_rp']),
                                   ('tokens', iss['keys'], token, w['keys_rp'])):
            if not val:
                if rp:
                    raise Reject('issuance %s of input %d: proof without value' % (what, i))
                continue
            g = n.generator(aid)
            c33 = _value_commit(val, g)
            if len(val) == 33:
                if n.rangeproof(c33, rp, b'', g) is None:
                    raise Reject('issuance %s of input %d: bad range proof' % (what, i))
            elif rp:
                raise Reject('issuance %s of input %d: proof of an explicit value' % (what, i))
            targets.append(g)
            ins.append(c33)
    outs = []
    for k, o in enumerate(t['vout']):
        w = t['outwit'][k]
        gen = _asset_gen(o['asset'])
        c33 = _value_commit(o['value'], gen, allow_zero=unspendable(o['script']))
        if c33 is not None:
            outs.append(c33)
        if len(o['value']) == 33:
            r = n.rangeproof(c33, w['rp'], o['script'], gen)
            if r is None:
                raise Reject('output %d: bad range proof' % k)
            if r[0] < 1 and not unspendable(o['script']):
                raise Reject('output %d: range proof allows zero' % k)
        elif w['rp']:
            raise Reject('output %d: range proof of an explicit value' % k)
        if explicit_asset(o['asset']) is None:
            if not n.surjection(w['sp'], targets, gen):
                raise Reject('output %d: bad surjection proof' % k)
        elif w['sp']:
            raise Reject('output %d: surjection proof of an explicit asset' % k)
    if not n.tally(ins, outs):
        raise Reject('amounts do not balance')


class Node:
    """ledger"""

    def __init__(self):
        self.utxo = {}
        self.seen = set()
        self.spent = {}         # (hash, n) -> txid that spent it
        self.entropies = set()
        self.txs = []

    def fund(self, h, n, coin):
        self.utxo[(h, n)] = coin

    def submit(self, raw):
        """-> txid; raises Reject"""
        try:
            t, pos = ref.decode(raw)
        except ref.RefError as e:
            raise Reject('does not decode: %s' % e)
        if pos != len(raw):
            raise Reject('trailing data')
        tid = ref.txid(t)
        if tid in self.seen:
            return tid
        if not t['vin'] or not t['vout']:
            raise Reject('empty vectors')
        points = [(i['hash'], i['n']) for i in t['vin']]
        if len(set(points)) != len(points):
            raise Reject('duplicate inputs')
        for p in points:
            if p not in self.utxo:
                raise Reject('missing or spent input')
        verify_amounts(t, [self.utxo[p] for p in points])
        for i in range(len(t['vin'])):
            iss = t['vin'][i]['iss']
            if not ref.iss_null(iss) and iss['nonce'] == ZERO32:
                ent = issuance_ids(t, i)[0]
                if ent in self.entropies:
                    raise Reject('asset issued twice')
                self.entropies.add(ent)
        for p in points:
            del self.utxo[p]
            self.spent[p] = tid
        for k, o in enumerate(t['vout']):
            if not unspendable(o['script']):
                self.utxo[(tid, k)] = dict(o, rp=t['outwit'][k]['rp'])
        self.seen.add(tid)
        self.txs.append((tid, t))
        return tid
