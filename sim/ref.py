"""Reference implementation of the Elements transaction format, written from
the format's specification and independent of the code under test.

Transactions are plain dictionaries:
  {'version', 'locktime', 'vin': [...], 'vout': [...], 'inwit': [...], 'outwit': [...]}
  vin:    {'hash','n','script','seq','pegin', 'iss': None | {'nonce','entropy','amount','keys'}}
  vout:   {'asset','value','nonce','script'}          (commitment bytes, b'' for null)
  inwit:  {'amount_rp','keys_rp','stack':[...],'pegin':[...]}
  outwit: {'sp','rp'}
inwit/outwit are always as long as vin/vout here."""

import hashlib
import struct

MAX_SIZE = 0x02000000


class RefError(Exception):
    pass


def sha(b):
    return hashlib.sha256(b).digest()


def dsha(b):
    return sha(sha(b))


def varint(n):
    if n < 0xfd:
        return bytes([n])
    if n <= 0xffff:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n <= 0xffffffff:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


def vbytes(b):
    return varint(len(b)) + bytes(b)


def enc_stack(items):
    return varint(len(items)) + b''.join(vbytes(i) for i in items)


def enc_comm(c):
    return bytes(c) if len(c) else b'\x00'


def iss_null(iss):
    return iss is None or (not iss['amount'] and not iss['keys'])


def enc_iss(iss):
    return iss['nonce'] + iss['entropy'] + enc_comm(iss['amount']) + enc_comm(iss['keys'])


def enc_outpoint(i):
    return i['hash'] + struct.pack('<I', i['n'])


def enc_in(i, flags=True):
    n = i['n']
    has = False
    if n != 0xffffffff:
        has = not iss_null(i['iss'])
        if flags:
            n |= (0x80000000 if has else 0) | (0x40000000 if i['pegin'] else 0)
    out = i['hash'] + struct.pack('<I', n) + vbytes(i['script']) + struct.pack('<I', i['seq'])
    if has:
        out += enc_iss(i['iss'])
    return out


def enc_out(o):
    return enc_comm(o['asset']) + enc_comm(o['value']) + enc_comm(o['nonce']) + vbytes(o['script'])


def enc_inwit(w):
    return vbytes(w['amount_rp']) + vbytes(w['keys_rp']) + enc_stack(w['stack']) + enc_stack(w['pegin'])


def enc_outwit(w):
    return vbytes(w['sp']) + vbytes(w['rp'])


def inwit_null(w):
    return not (w['amount_rp'] or w['keys_rp'] or w['stack'] or w['pegin'])


def outwit_null(w):
    return not (w['sp'] or w['rp'])


def has_witness(t):
    return any(not inwit_null(w) for w in t['inwit']) or any(not outwit_null(w) for w in t['outwit'])


def enc_base(t, flag):
    return (struct.pack('<i', t['version']) + flag
            + varint(len(t['vin'])) + b''.join(enc_in(i) for i in t['vin'])
            + varint(len(t['vout'])) + b''.join(enc_out(o) for o in t['vout'])
            + struct.pack('<I', t['locktime']))


def encode(t, witness=True):
    if witness and has_witness(t):
        return (enc_base(t, b'\x01') + b''.join(enc_inwit(w) for w in t['inwit'])
                + b''.join(enc_outwit(w) for w in t['outwit']))
    return enc_base(t, b'\x00')


def txid(t):
    return dsha(enc_base(t, b'\x00'))


def whash(t):
    return dsha(encode(t))


def empty_inwit():
    return {'amount_rp': b'', 'keys_rp': b'', 'stack': [], 'pegin': []}


def empty_outwit():
    return {'sp': b'', 'rp': b''}


class Rd:
    def __init__(self, b):
        self.b = bytes(b)
        self.p = 0

    def take(self, n):
        if n > MAX_SIZE:
            raise RefError('too big')
        if self.p + n > len(self.b):
            self.p = len(self.b)
            raise RefError('truncated')
        r = self.b[self.p:self.p + n]
        self.p += n
        return r

    def u8(self):
        return self.take(1)[0]

    def varint(self):
        a = self.u8()
        if a < 0xfd:
            return a
        k, low = {0xfd: (2, 0xfd), 0xfe: (4, 0x10000), 0xff: (8, 0x100000000)}[a]
        v = int.from_bytes(self.take(k), 'little')
        if v < low or v > MAX_SIZE:
            raise RefError('bad compact size')
        return v

    def vbytes(self):
        return self.take(self.varint())

    def stack(self):
        return [self.vbytes() for _ in range(self.varint())]

    def comm(self, explicit, a, b):
        v = self.u8()
        if v == 0:
            return b''
        if v == 1:
            return b'\x01' + self.take(explicit - 1)
        if v in (a, b):
            return bytes([v]) + self.take(32)
        raise RefError('bad commitment prefix')


def dec_iss(r):
    return {'nonce': r.take(32), 'entropy': r.take(32),
            'amount': r.comm(9, 8, 9), 'keys': r.comm(9, 8, 9)}


def dec_in(r):
    h = r.take(32)
    n = struct.unpack('<I', r.take(4))[0]
    script = r.vbytes()
    seq = struct.unpack('<I', r.take(4))[0]
    iss = None
    pegin = False
    if n != 0xffffffff:
        pegin = bool(n & 0x40000000)
        if n & 0x80000000:
            iss = dec_iss(r)
        n &= 0x3fffffff
    return {'hash': h, 'n': n, 'script': script, 'seq': seq, 'iss': iss, 'pegin': pegin}


def dec_out(r):
    a = r.comm(33, 10, 11)
    v = r.comm(9, 8, 9)
    n = r.comm(33, 2, 3)
    return {'asset': a, 'value': v, 'nonce': n, 'script': r.vbytes()}


def dec_inwit(r):
    a = r.vbytes()
    k = r.vbytes()
    s = r.stack()
    p = r.stack()
    return {'amount_rp': a, 'keys_rp': k, 'stack': s, 'pegin': p}


def dec_outwit(r):
    s = r.vbytes()
    p = r.vbytes()
    return {'sp': s, 'rp': p}


def decode(b, pos=0):
    """-> (tx, end position); raises RefError"""
    r = Rd(b)
    r.p = pos
    ver = struct.unpack('<i', r.take(4))[0]
    flag = r.u8()
    if flag not in (0, 1):
        raise RefError('flags')
    vin = [dec_in(r) for _ in range(r.varint())]
    vout = [dec_out(r) for _ in range(r.varint())]
    lt = struct.unpack('<I', r.take(4))[0]
    t = {'version': ver, 'locktime': lt, 'vin': vin, 'vout': vout,
         'inwit': [empty_inwit() for _ in vin], 'outwit': [empty_outwit() for _ in vout]}
    if flag == 1:
        t['inwit'] = [dec_inwit(r) for _ in vin]
        t['outwit'] = [dec_outwit(r) for _ in vout]
        if not has_witness(t):
            raise RefError('superfluous witness')
    return t, r.p


# ----------------------------------------------------------- sighashes

ALL, NONE, SINGLE, ACP = 1, 2, 3, 0x80
ONE = b'\x01' + b'\x00' * 31


def strip_codeseparators(script):
    """FindAndDelete(OP_CODESEPARATOR) of the legacy sighash: at opcode borders;
    an unparsable tail is kept"""
    out = b''
    p = 0
    n = len(script)
    while p < n:
        op = script[p]
        size = 1
        if op < 76:
            size += op
        elif op == 76:
            if p + 1 >= n:
                return out + script[p:]
            size += 1 + script[p + 1]
        elif op == 77:
            if p + 2 >= n:
                return out + script[p:]
            size += 2 + int.from_bytes(script[p + 1:p + 3], 'little')
        elif op == 78:
            if p + 4 >= n:
                return out + script[p:]
            size += 4 + int.from_bytes(script[p + 1:p + 5], 'little')
        if p + size > n:
            return out + script[p:]
        if op != 0xab:
            out += script[p:p + size]
        p += size
    return out


def sighash_legacy(t, script, idx, ht):
    """-> 32 bytes; RefError stands for the "1" hash of the SINGLE bug"""
    if idx >= len(t['vin']):
        raise RefError('inIdx')
    base = ht & 0x1f
    if base == SINGLE and idx >= len(t['vout']):
        raise RefError('outIdx')
    script = strip_codeseparators(script)
    acp = bool(ht & 0x80)
    ins = [t['vin'][idx]] if acp else t['vin']
    body = struct.pack('<i', t['version']) + varint(len(ins))
    for k, i in enumerate(t['vin']):
        if acp and k != idx:
            continue
        seq = i['seq'] if k == idx or base not in (NONE, SINGLE) else 0
        body += i['hash'] + struct.pack('<I', i['n'])
        body += vbytes(script if k == idx else b'') + struct.pack('<I', seq)
        if i['n'] != 0xffffffff and not iss_null(i['iss']):
            body += enc_iss(i['iss'])
    if base == NONE:
        body += varint(0)
    elif base == SINGLE:
        body += varint(idx + 1) + b'\x00\x00\x00\x00' * idx + enc_out(t['vout'][idx])
    else:
        body += varint(len(t['vout'])) + b''.join(enc_out(o) for o in t['vout'])
    body += struct.pack('<I', t['locktime']) + struct.pack('<i', ht)
    return dsha(body)


def sighash_v0(t, script, idx, ht, amount):
    base = ht & 0x1f
    acp = bool(ht & 0x80)
    z = b'\x00' * 32
    hp = hs = hi = ho = z
    if not acp:
        hp = dsha(b''.join(enc_outpoint(i) for i in t['vin']))
        hi = dsha(b''.join(b'\x00' if iss_null(i['iss']) else enc_iss(i['iss']) for i in t['vin']))
        if base not in (SINGLE, NONE):
            hs = dsha(b''.join(struct.pack('<I', i['seq']) for i in t['vin']))
    if base not in (SINGLE, NONE):
        ho = dsha(b''.join(enc_out(o) for o in t['vout']))
    elif base == SINGLE and idx < len(t['vout']):
        ho = dsha(enc_out(t['vout'][idx]))
    i = t['vin'][idx]
    body = (struct.pack('<i', t['version']) + hp + hs + hi + enc_outpoint(i) + vbytes(script)
            + amount + struct.pack('<I', i['seq'])
            + (b'' if iss_null(i['iss']) else enc_iss(i['iss']))
            + ho + struct.pack('<I', t['locktime']) + struct.pack('<i', ht))
    return dsha(body)


def tagged(tag, data):
    h = sha(tag)
    return sha(h + h + data)


def tapleaf(script, ver=0xc4):
    return tagged(b'TapLeaf/elements', bytes([ver]) + vbytes(script))


def sighash_taproot(t, idx, spent, ht, genesis, leaf=None, codesep=-1, annex_hash=None):
    """ht None or 0..: default; spent: list of vout dicts"""
    if ht is not None and ht not in (1, 2, 3, 0x81, 0x82, 0x83):
        raise RefError('hash type')
    if idx >= len(t['vin']) or len(spent) != len(t['vin']):
        raise RefError('index')
    base = ALL if ht is None else ht & 3
    acp = ht is not None and bool(ht & 0x80)

    def flagb(i):
        return bytes([(0x80 if not iss_null(i['iss']) else 0) | (0x40 if i['pegin'] else 0)])

    def issb(i):
        return b'\x00' if iss_null(i['iss']) else enc_iss(i['iss'])

    def wit(k):
        return vbytes(t['inwit'][k]['amount_rp']) + vbytes(t['inwit'][k]['keys_rp'])

    b = bytes([0 if ht is None else ht]) + struct.pack('<i', t['version']) + struct.pack('<I', t['locktime'])
    if not acp:
        b += sha(b''.join(flagb(i) for i in t['vin']))
        b += sha(b''.join(enc_outpoint(i) for i in t['vin']))
        b += sha(b''.join(enc_comm(o['asset']) + enc_comm(o['value']) for o in spent))
        b += sha(b''.join(vbytes(o['script']) for o in spent))
        b += sha(b''.join(struct.pack('<I', i['seq']) for i in t['vin']))
        b += sha(b''.join(issb(i) for i in t['vin']))
        b += sha(b''.join(wit(k) for k in range(len(t['vin']))))
    if base == ALL:
        b += sha(b''.join(enc_out(o) for o in t['vout']))
        b += sha(b''.join(enc_outwit(w) for w in t['outwit']))
    b += bytes([(2 if leaf is not None else 0) + (1 if annex_hash is not None else 0)])
    if acp:
        i = t['vin'][idx]
        o = spent[idx]
        b += flagb(i) + enc_outpoint(i) + enc_comm(o['asset']) + enc_comm(o['value'])
        b += vbytes(o['script']) + struct.pack('<I', i['seq']) + issb(i)
        if not iss_null(i['iss']):
            b += sha(wit(idx))
    else:
        b += struct.pack('<I', idx)
    if annex_hash is not None:
        b += annex_hash
    if base == SINGLE:
        if idx >= len(t['vout']):
            raise RefError('outIdx')
        b += sha(enc_out(t['vout'][idx])) + sha(enc_outwit(t['outwit'][idx]))
    if leaf is not None:
        b += leaf + b'\x00' + struct.pack('<i', codesep)
    return tagged(b'TapSighash/elements', genesis * 2 + b)


# ------------------------------------------------------- issuance identities

_K = []


def _k():
    if not _K:
        # first 32 bits of the fractional parts of the cube roots of primes
        primes = []
        n = 2
        while len(primes) < 64:
            if all(n % p for p in primes):
                primes.append(n)
            n += 1
        for p in primes:
            v = p << 96
            x = int(round(v ** (1 / 3)))
            while x * x * x > v:
                x -= 1
            while (x + 1) ** 3 <= v:
                x += 1
            _K.append(x & 0xffffffff)
    return _K


def midstate(block64):
    """SHA256 compression of one 64-byte block"""
    k = _k()
    m = 0xffffffff
    w = list(struct.unpack('>16I', block64))

    def ror(x, n):
        return ((x >> n) | (x << (32 - n))) & m
    for i in range(16, 64):
        s0 = ror(w[i - 15], 7) ^ ror(w[i - 15], 18) ^ (w[i - 15] >> 3)
        s1 = ror(w[i - 2], 17) ^ ror(w[i - 2], 19) ^ (w[i - 2] >> 10)
        w.append((w[i - 16] + s0 + w[i - 7] + s1) & m)
    iv = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19]
    a, b, c, d, e, f, g, h = iv
    for i in range(64):
        t1 = (h + (ror(e, 6) ^ ror(e, 11) ^ ror(e, 25)) + ((e & f) ^ (~e & m & g)) + k[i] + w[i]) & m
        t2 = ((ror(a, 2) ^ ror(a, 13) ^ ror(a, 22)) + ((a & b) ^ (a & c) ^ (b & c))) & m
        h, g, f, e, d, c, b, a = g, f, e, (d + t1) & m, c, b, a, (t1 + t2) & m
    return struct.pack('>8I', *[(x + y) & m for x, y in zip(iv, (a, b, c, d, e, f, g, h))])


def asset_entropy(prevhash, n, contract):
    return midstate(dsha(prevhash + struct.pack('<I', n)) + contract)


def asset_id(entropy):
    return midstate(entropy + b'\x00' * 32)


def token_id(entropy, confidential):
    return midstate(entropy + bytes([2 if confidential else 1]) + b'\x00' * 31)


def explicit_amount(v):
    """value bytes -> amount or None"""
    if len(v) == 9 and v[0] == 1:
        return int.from_bytes(v[1:], 'big')
    return None
