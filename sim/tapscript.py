"""The node's tapscript interpreter: the Elements opcodes by their consensus
numbers, and what else is needed to write conditions"""

import ctypes
import hashlib

from sim import ref, taproot


class Fail(Exception):
    pass


MASK = (1 << 64) - 1


def num(b):
    """script number -> int"""
    if len(b) > 4:
        raise Fail('long number')
    if not b:
        return 0
    n = int.from_bytes(b, 'little')
    if b[-1] & 0x7f == 0 and (len(b) < 2 or not b[-2] & 0x80):
        raise Fail('not minimal')
    if b[-1] & 0x80:
        return -(n & ~(0x80 << 8 * (len(b) - 1)))
    return n


def enc(n):
    if n == 0:
        return b''
    a = abs(n)
    out = bytearray(a.to_bytes((a.bit_length() + 7) // 8, 'little'))
    if out[-1] & 0x80:
        out.append(0x80 if n < 0 else 0)
    elif n < 0:
        out[-1] |= 0x80
    return bytes(out)


def truth(b):
    return any(b[:-1]) or bool(b and b[-1] not in (0, 0x80))


def le64(n):
    return (n & MASK).to_bytes(8, 'little')


def s64(b):
    if len(b) != 8:
        raise Fail('not 8 bytes')
    return int.from_bytes(b, 'little', signed=True)


def i64(n):
    return n.to_bytes(8, 'little', signed=True)


def fits(n):
    return -(1 << 63) <= n < 1 << 63


def point(b):
    l, ctx = taproot.lib()
    out = ctypes.create_string_buffer(64)
    if len(b) != 33 or l.secp256k1_ec_pubkey_parse(ctx, out, b, ctypes.c_size_t(33)) != 1:
        raise Fail('not a point')
    return out


def flat(p):
    l, ctx = taproot.lib()
    out = ctypes.create_string_buffer(33)
    n = ctypes.c_size_t(33)
    l.secp256k1_ec_pubkey_serialize(ctx, out, ctypes.byref(n), p, ctypes.c_uint(258))
    return out.raw


def mul(p, k):
    l, ctx = taproot.lib()
    if len(k) != 32:
        raise Fail('scalar')
    q = point(p)
    if l.secp256k1_ec_pubkey_tweak_mul(ctx, q, k) != 1:
        raise Fail('scalar')
    return flat(q)


def tweaked(p, k):
    l, ctx = taproot.lib()
    if len(k) != 32:
        raise Fail('scalar')
    q = point(p)
    if l.secp256k1_ec_pubkey_tweak_add(ctx, q, k) != 1:
        raise Fail('scalar')
    return flat(q)


def ops(script):
    """(opcode, pushed data or None)"""
    p = 0
    while p < len(script):
        op = script[p]
        p += 1
        if op > 78:
            yield op, None
            continue
        n = op
        if op > 75:
            w = 1 << (op - 76)
            if p + w > len(script):
                raise Fail('cut')
            n = int.from_bytes(script[p:p + w], 'little')
            p += w
        if p + n > len(script):
            raise Fail('cut')
        yield op, script[p:p + n]
        p += n


def comm(c, size):
    """a value or an asset as the introspection opcodes show it: [data, prefix]"""
    if not c:
        return [b'', b'']
    if c[0] == 1:
        return [c[1:][::-1] if size == 8 else c[1:], b'\x01']
    return [c[1:], bytes(c[:1])]


def spk(s):
    """[program, version]"""
    if 4 <= len(s) <= 42 and (s[0] == 0 or 0x51 <= s[0] <= 0x60) and s[1] == len(s) - 2:
        return [s[2:], enc(s[0] - 0x50 if s[0] else 0)]
    return [hashlib.sha256(s).digest(), enc(-1)]


def weight(t):
    return 3 * len(ref.encode(t, False)) + len(ref.encode(t))


class Env:
    """what a script is executed in"""

    def __init__(self, t, idx, spent, genesis, script, annex=None):
        self.t = t
        self.idx = idx
        self.spent = spent
        self.genesis = genesis
        self.script = script
        self.annex = annex

    def sighash(self, ht, codesep):
        return ref.sighash_taproot(self.t, self.idx, self.spent, ht, self.genesis, leaf=ref.tapleaf(self.script), codesep=codesep,
                                   annex_hash=self.annex)


def execute(env, stack):
    """-> True or False"""
    try:
        st = list(stack)
        _run(env, st)
        return len(st) == 1 and truth(st[0])
    except (Fail, IndexError):
        return False


def _run(env, st):
    t = env.t
    codesep = -1
    streams = {}

    def pop():
        return st.pop()

    def b(v):
        st.append(b'\x01' if v else b'')

    def inp():
        n = num(pop())
        if not 0 <= n < len(t['vin']):
            raise Fail('input index')
        return n

    def out():
        n = num(pop())
        if not 0 <= n < len(t['vout']):
            raise Fail('output index')
        return t['vout'][n]

    def checksig(sig, key, h):
        if len(key) != 32:
            raise Fail('key')
        if not sig:
            return False
        if not taproot.verify(key, h, sig):
            raise Fail('signature')
        return True

    def stream(c):
        if c not in streams:
            raise Fail('not a context')
        return streams[c]

    def keep(data):
        c = b'ctx' + hashlib.sha256(b'midstate' + data).digest()
        streams[c] = data
        st.append(c)
        if len(data) > 520 * 4:
            raise Fail('too long')

    pos = -1
    for op, data in ops(env.script):
        pos += 1
        if data is not None:
            st.append(bytes(data))
        elif op == 0x4f:
            st.append(b'\x81')
        elif 0x51 <= op <= 0x60:
            st.append(bytes([op - 0x50]))
        elif op == 0x61:
            pass
        elif op == 0x69:                                # VERIFY
            if not truth(pop()):
                raise Fail('verify')
        elif op == 0x75:                                # DROP
            pop()
        elif op == 0x76:                                # DUP
            st.append(st[-1])
        elif op == 0x77:                                # NIP
            del st[-2]
        elif op == 0x7c:                                # SWAP
            st[-1], st[-2] = st[-2], st[-1]
        elif op in (0x87, 0x88):                        # EQUAL(VERIFY)
            r = pop() == pop()
            if op == 0x88:
                if not r:
                    raise Fail('equalverify')
            else:
                b(r)
        elif op == 0xa5:                                # WITHIN
            hi, lo, x = num(pop()), num(pop()), num(pop())
            b(lo <= x < hi)
        elif op == 0xa8:                                # SHA256
            st.append(hashlib.sha256(pop()).digest())
        elif op == 0xab:                                # CODESEPARATOR
            codesep = pos
        elif op in (0xac, 0xad):                        # CHECKSIG(VERIFY)
            key, sig = pop(), pop()
            ht = None
            if len(sig) == 65:
                ht = sig[64]
                if ht == 0:
                    raise Fail('hash type')
                sig = sig[:64]
            try:
                h = env.sighash(ht, codesep)
            except ref.RefError:
                raise Fail('hash')
            r = checksig(sig, key, h)
            if op == 0xad:
                if not r:
                    raise Fail('checksigverify')
            else:
                b(r)
        elif op == 0xc0:                                # DETERMINISTICRANDOM (a stand-in for the generator of the network)
            hi, lo, seed = num(pop()), num(pop()), pop()
            if hi < lo:
                raise Fail('range')
            st.append(enc(lo + int.from_bytes(hashlib.sha256(seed).digest(), 'big') % (hi - lo + 1)))
        elif op in (0xc1, 0xc2):                        # CHECKSIGFROMSTACK(VERIFY)
            key, msg, sig = pop(), pop(), pop()
            l = sig and len(msg) != 32
            r = checksig(sig, key, msg) if not l else _raise()
            if op == 0xc2:
                if not r:
                    raise Fail('checksigfromstackverify')
            else:
                b(r)
        elif op == 0xc3:                                # SUBSTR_LAZY
            n, at, s = num(pop()), num(pop()), pop()
            st.append(s[max(at, 0):max(at, 0) + max(n, 0)])
        elif op == 0xc4:                                # SHA256INITIALIZE
            keep(pop())
        elif op == 0xc5:                                # SHA256UPDATE
            x = pop()
            keep(stream(pop()) + x)
        elif op == 0xc6:                                # SHA256FINALIZE
            x = pop()
            st.append(hashlib.sha256(stream(pop()) + x).digest())
        elif op == 0xc7:                                # INSPECTINPUTOUTPOINT
            i = t['vin'][inp()]
            st += [i['hash'], i['n'].to_bytes(4, 'little'),
                   bytes([(0x80 if not ref.iss_null(i['iss']) else 0) | (0x40 if i['pegin'] else 0)])]
        elif op == 0xc8:
            st += comm(env.spent[inp()]['asset'], 32)
        elif op == 0xc9:
            st += comm(env.spent[inp()]['value'], 8)
        elif op == 0xca:
            st += spk(env.spent[inp()]['script'])
        elif op == 0xcb:
            st.append(t['vin'][inp()]['seq'].to_bytes(4, 'little'))
        elif op == 0xcc:                                # INSPECTINPUTISSUANCE
            iss = t['vin'][inp()]['iss']
            if ref.iss_null(iss):
                st.append(b'')
            else:
                st += comm(iss['keys'], 8) if iss['keys'] else [b'\x00' * 8, b'\x01']
                st += comm(iss['amount'], 8) if iss['amount'] else [b'\x00' * 8, b'\x01']
                st += [iss['entropy'], iss['nonce']]
        elif op == 0xcd:
            st.append(enc(env.idx))
        elif op == 0xce:
            st += comm(out()['asset'], 32)
        elif op == 0xcf:
            st += comm(out()['value'], 8)
        elif op == 0xd0:
            st.append(out()['nonce'])
        elif op == 0xd1:
            st += spk(out()['script'])
        elif op == 0xd2:
            st.append((t['version'] & 0xffffffff).to_bytes(4, 'little'))
        elif op == 0xd3:
            st.append(t['locktime'].to_bytes(4, 'little'))
        elif op == 0xd4:
            st.append(enc(len(t['vin'])))
        elif op == 0xd5:
            st.append(enc(len(t['vout'])))
        elif op == 0xd6:
            st.append(le64(weight(t)))
        elif op in (0xd7, 0xd8, 0xd9, 0xda):            # ADD64 SUB64 MUL64 DIV64
            y, x = s64(st[-1]), s64(st[-2])
            if op == 0xda:
                if y == 0 or (x == -(1 << 63) and y == -1):
                    b(0)
                    continue
                r = x % abs(y)                          # Euclidean
                q = (x - r) // y
                del st[-2:]
                st += [i64(r), i64(q), b'\x01']
                continue
            v = x + y if op == 0xd7 else x - y if op == 0xd8 else x * y
            if not fits(v):
                b(0)
            else:
                del st[-2:]
                st += [i64(v), b'\x01']
        elif op == 0xdb:
            x = s64(st[-1])
            if not fits(-x):
                b(0)
            else:
                st[-1:] = [i64(-x), b'\x01']
        elif 0xdc <= op <= 0xdf:
            y, x = s64(pop()), s64(pop())
            b((x < y, x <= y, x > y, x >= y)[op - 0xdc])
        elif op == 0xe0:
            st.append(i64(num(pop())))
        elif op == 0xe1:
            st.append(enc(s64(pop())))
        elif op == 0xe2:
            x = pop()
            if len(x) != 4:
                raise Fail('not 4 bytes')
            st.append(x + b'\x00' * 4)
        elif op == 0xe3:                                # ECMULSCALARVERIFY
            k, p, q = pop(), pop(), pop()
            point(q)
            if mul(p, k) != q:
                raise Fail('ecmul')
        elif op == 0xe4:                                # TWEAKVERIFY
            p, k, q = pop(), pop(), pop()
            point(q)
            if tweaked(b'\x02' + p, k) != q:
                raise Fail('tweak')
        else:
            raise Fail('opcode %#x' % op)


def _raise():
    raise Fail('message')


