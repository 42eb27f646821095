"""Independent codec of Elements and Bitcoin address strings"""

import hashlib

B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
B32 = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'


def _dsha(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def b58enc(b):
    n = int.from_bytes(b, 'big')
    s = ''
    while n:
        n, r = divmod(n, 58)
        s = B58[r] + s
    return '1' * (len(b) - len(b.lstrip(b'\0'))) + s


def b58dec(s):
    """-> bytes or None"""
    n = 0
    for c in s:
        k = B58.find(c)
        if k < 0:
            return None
        n = n * 58 + k
    z = len(s) - len(s.lstrip('1'))
    return b'\0' * z + n.to_bytes((n.bit_length() + 7) // 8, 'big')


def b58check(b):
    return b58enc(b + _dsha(b)[:4])


def b58check_dec(s):
    b = b58dec(s)
    if b is None or len(b) < 4 or _dsha(b[:-4])[:4] != b[-4:]:
        return None
    return b[:-4]


# bech32 and blech32: residues of polynomials over GF(32)
BECH = {'gen': (0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3), 'n': 6, 'm': 0x2bc830a3, 'max': 90}
BLECH = {'gen': (0x7d52fba40bd886, 0x5e8dbf1a03950c, 0x1c3a3c74072a18, 0x385d72fa0e5139, 0x7093e5a608865b),
         'n': 12, 'm': 0x455972a3350f7a1, 'max': 1000}


def polymod(code, values):
    c = 1
    w = 5 * (code['n'] - 1)
    for v in values:
        t = c >> w
        c = (c & ((1 << w) - 1)) << 5 ^ v
        for k in range(5):
            if t >> k & 1:
                c ^= code['gen'][k]
    return c


def hrpx(hrp):
    return [ord(c) >> 5 for c in hrp] + [0] + [ord(c) & 31 for c in hrp]


def to5(b):
    n = int.from_bytes(b, 'big') if b else 0
    bits = len(b) * 8
    pad = -bits % 5
    n <<= pad
    bits += pad
    return [n >> (bits - 5 * (k + 1)) & 31 for k in range(bits // 5)]


def to8(v):
    """-> (bytes, padding bits ok)"""
    n = 0
    for x in v:
        n = n << 5 | x
    bits = 5 * len(v)
    extra = bits % 8
    ok = extra < 5 and n & ((1 << extra) - 1) == 0
    return (n >> extra).to_bytes(bits // 8, 'big'), ok


def enc32(code, hrp, values, const):
    """values: 5-bit groups including the version"""
    p = polymod(code, hrpx(hrp) + values + [0] * code['n']) ^ const
    return hrp + '1' + ''.join(B32[v] for v in values + [p >> 5 * (code['n'] - 1 - k) & 31 for k in range(code['n'])])


def seg(code, hrp, ver, prog):
    return enc32(code, hrp, [ver] + to5(prog), 1 if ver == 0 else code['m'])


def dec32(code, hrp, s):
    """-> (version, program, const) or None"""
    if any(not 33 <= ord(c) <= 126 for c in s) or s.lower() != s and s.upper() != s:
        return None
    s = s.lower()
    if len(s) > code['max'] or not s.startswith(hrp + '1') or any(c not in B32 for c in s[len(hrp) + 1:]):
        return None
    v = [B32.index(c) for c in s[len(hrp) + 1:]]
    if len(v) < code['n'] + 1:
        return None
    const = polymod(code, hrpx(hrp) + v)
    ver = v[0]
    if ver > 16 or const != (1 if ver == 0 else code['m']):
        return None
    prog, ok = to8(v[1:-code['n']])
    return (ver, prog) if ok else None


CHAIN = {
    'elements': {'p2sh': 75, 'p2pkh': 235, 'conf': 4, 'hrp': 'ert', 'bhrp': 'el'},
    'elements/elementsregtest': {'p2sh': 75, 'p2pkh': 235, 'conf': 4, 'hrp': 'ert', 'bhrp': 'el'},
    'elements/liquidv1': {'p2sh': 39, 'p2pkh': 57, 'conf': 12, 'hrp': 'ex', 'bhrp': 'lq'},
    'bitcoin': {'p2sh': 5, 'p2pkh': 0, 'conf': None, 'hrp': 'bc', 'bhrp': None},
    'bitcoin/mainnet': {'p2sh': 5, 'p2pkh': 0, 'conf': None, 'hrp': 'bc', 'bhrp': None},
    'bitcoin/testnet': {'p2sh': 196, 'p2pkh': 111, 'conf': None, 'hrp': 'tb', 'bhrp': None},
    'bitcoin/regtest': {'p2sh': 196, 'p2pkh': 111, 'conf': None, 'hrp': 'bcrt', 'bhrp': None},
}
TYPES = ('p2pkh', 'p2sh', 'p2wpkh', 'p2wsh', 'p2tr')
WIT = {'p2wpkh': (0, 20), 'p2wsh': (0, 32), 'p2tr': (1, 32)}


def script(typ, prog):
    if typ == 'p2pkh':
        return b'\x76\xa9\x14' + prog + b'\x88\xac'
    if typ == 'p2sh':
        return b'\xa9\x14' + prog + b'\x87'
    ver = WIT[typ][0]
    return bytes([0x50 + ver if ver else 0, len(prog)]) + prog


def encode(chain, typ, prog, key=None):
    """address string; with a blinding key the confidential one"""
    c = CHAIN[chain]
    if typ in WIT:
        if key is None:
            return seg(BECH, c['hrp'], WIT[typ][0], prog)
        return seg(BLECH, c['bhrp'], WIT[typ][0], key + prog)
    if key is None:
        return b58check(bytes([c[typ]]) + prog)
    return b58check(bytes([c['conf'], c[typ]]) + key + prog)


def decode(chain, s):
    """-> (type, program, blinding key or None) or None"""
    c = CHAIN[chain]
    b = b58check_dec(s)
    if b is not None:
        for typ in ('p2sh', 'p2pkh'):
            if len(b) == 21 and b[0] == c[typ]:
                return typ, b[1:], None
            if len(b) == 55 and c['conf'] is not None and b[0] == c['conf'] and b[1] == c[typ]:
                return typ, b[35:], b[2:35]
        return None
    for code, hrp, k in ((BECH, c['hrp'], 0), (BLECH, c['bhrp'], 33)):
        if hrp is None:
            continue
        r = dec32(code, hrp, s)
        if r is not None:
            for typ, (ver, n) in WIT.items():
                if r[0] == ver and len(r[1]) == n + k:
                    return typ, r[1][k:], r[1][:k] or None
    return None
