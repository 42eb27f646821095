"""Script execution as the network does it: the opcodes that ordinary wallets
and the contracts of the example programs use, of Elements and Bitcoin before
taproot.  Nothing of the package is used."""

import ctypes
import hashlib
import struct

from sim import ref, taproot
from sim.tapscript import Fail, ops


class Bad(Exception):
    pass


def hash160(b):
    return hashlib.new('ripemd160', hashlib.sha256(b).digest()).digest()


def ecdsa(pub, h, der):
    """low-S DER signature"""
    l, ctx = taproot.lib()
    p = ctypes.create_string_buffer(64)
    s = ctypes.create_string_buffer(64)
    if len(pub) not in (33, 65) or l.secp256k1_ec_pubkey_parse(ctx, p, bytes(pub), ctypes.c_size_t(len(pub))) != 1:
        return False
    if l.secp256k1_ecdsa_signature_parse_der(ctx, s, bytes(der), ctypes.c_size_t(len(der))) != 1:
        return False
    return l.secp256k1_ecdsa_verify(ctx, s, h, p) == 1


def num(b):
    if len(b) > 4:
        raise Bad('number too long')
    if not b:
        return 0
    v = int.from_bytes(b, 'little')
    top = 0x80 << (8 * (len(b) - 1))
    return -(v & ~top) if v & top else v


def truth(b):
    return any(b[:-1]) or (len(b) > 0 and b[-1] not in (0, 0x80))


def execute(script, st, sighash, seq, version, elements, minimal):
    """sighash(script, type) -> hash of the transaction; st: the stack, changed"""
    cond = []

    def pop():
        if not st:
            raise Bad('empty stack')
        return st.pop()

    def checksig(sig, key):
        if not sig:
            return False
        if sig[-1] & ~0x80 not in (1, 2, 3):
            raise Bad('hash type')
        return ecdsa(key, sighash(script, sig[-1]), sig[:-1])

    for op, data in ops(script):
        on = all(cond)
        if data is not None:
            if on:
                st.append(data)
            continue
        if op in (0x63, 0x64):
            v = False
            if on:
                x = pop()
                if minimal and x not in (b'', b'\x01'):
                    raise Bad('minimal if')
                v = truth(x)
                if op == 0x64:
                    v = not v
            cond.append(v)
            continue
        if op == 0x67:
            if not cond:
                raise Bad('else')
            cond[-1] = not cond[-1]
            continue
        if op == 0x68:
            if not cond:
                raise Bad('endif')
            cond.pop()
            continue
        if not on:
            continue
        if 0x51 <= op <= 0x60:
            st.append(bytes([op - 0x50]))
        elif op == 0x69:
            if not truth(pop()):
                raise Bad('verify')
        elif op == 0x75:
            pop()
        elif op == 0x76:
            x = pop()
            st += [x, x]
        elif op == 0x7c:
            a, b = pop(), pop()
            st += [a, b]
        elif op == 0x7e and elements:
            a, b = pop(), pop()
            if len(a + b) > 520:
                raise Bad('size')
            st.append(b + a)
        elif op in (0x87, 0x88):
            v = pop() == pop()
            if op == 0x87:
                st.append(b'\x01' if v else b'')
            elif not v:
                raise Bad('equalverify')
        elif op == 0xa9:
            st.append(hash160(pop()))
        elif op in (0xac, 0xad):
            key, sig = pop(), pop()
            v = checksig(sig, key)
            if sig and not v:
                raise Bad('nullfail')
            if op == 0xac:
                st.append(b'\x01' if v else b'')
            elif not v:
                raise Bad('checksigverify')
        elif op == 0xb2:
            n = num(st[-1]) if st else None
            if n is None or n < 0:
                raise Bad('sequence')
            if not n & (1 << 31):
                if version < 2 or seq & (1 << 31) or (n ^ seq) & (1 << 22) or n & 0xffff > seq & 0xffff:
                    raise Bad('sequence')
        elif op in (0xc1, 0xc2) and elements:
            key, msg, sig = pop(), pop(), pop()
            v = bool(sig) and ecdsa(key, hashlib.sha256(msg).digest(), sig)
            if sig and not v:
                raise Bad('nullfail')
            if op == 0xc1:
                st.append(b'\x01' if v else b'')
            elif not v:
                raise Bad('checksigfromstackverify')
        elif op == 0x6a:
            raise Bad('return')
        else:
            raise Bad('opcode %x' % op)
    if cond:
        raise Bad('open if')


def verify(spk, t, i, value, elements):
    """input i of t may spend an output with this script and value (its
    encoding).  t: model of sim.ref, or that of sim.daemon for Bitcoin"""
    vin = t['vin'][i]
    wit = t['inwit'][i]['stack'] if elements else t['inwit'][i]
    used = [False]

    def base(script, ht):
        if not elements:
            raise Bad('not simulated')
        return ref.sighash_legacy(t, script, i, ht)

    def v0(script, ht):
        if elements:
            return ref.sighash_v0(t, script, i, ht, value)
        from sim import daemon
        return daemon.btc_sighash_v0(t, script, i, ht, value)

    def witness(script):
        prog = script[2:]
        if len(prog) == 20:
            if len(wit) != 2:
                raise Bad('witness of p2wpkh')
            run(b'\x76\xa9\x14' + prog + b'\x88\xac', list(wit), v0, True)
        else:
            if not wit or hashlib.sha256(wit[-1]).digest() != prog:
                raise Bad('witness script')
            run(wit[-1], list(wit[:-1]), v0, True)
        used[0] = True

    def run(script, st, sh, clean):
        execute(script, st, sh, vin['seq'], t['version'], elements, clean)
        if not st or not truth(st[-1]) or (clean and len(st) != 1):
            raise Bad('false')
        return st

    try:
        if is_witness(spk):
            if vin['script']:
                raise Bad('scriptSig of a witness program')
            witness(spk)
        else:
            st = []
            for op, data in ops(vin['script']):
                if data is None and not 0x51 <= op <= 0x60:
                    raise Bad('scriptSig has an operation')
                st.append(data if data is not None else bytes([op - 0x50]))
            copy = list(st)
            run(spk, st, base, False)
            if len(spk) == 23 and spk[:2] == b'\xa9\x14' and spk[-1] == 0x87:
                redeem = copy.pop()
                if is_witness(redeem):
                    if copy:
                        raise Bad('scriptSig of a wrapped witness program')
                    witness(redeem)
                else:
                    run(redeem, copy, base, True)
            elif len(st) != 1:
                raise Bad('stack not clean')
        if wit and not used[0]:
            raise Bad('unexpected witness')
    except (ref.RefError, Fail, IndexError, struct.error) as e:
        raise Bad(str(e))


def is_witness(s):
    return s[:1] == b'\0' and len(s) in (22, 34) and s[1] == len(s) - 2
