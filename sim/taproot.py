"""The node's side of taproot: output keys, control blocks and signatures, by
the rules of Elements and with the system libsecp256k1 directly"""

import ctypes

from sim import ref

_lib = []


def lib():
    if not _lib:
        l = ctypes.CDLL('libsecp256k1.so.1')
        l.secp256k1_context_create.restype = ctypes.c_void_p
        l.secp256k1_context_create.argtypes = [ctypes.c_uint]
        for f in ('secp256k1_xonly_pubkey_parse', 'secp256k1_xonly_pubkey_tweak_add_check', 'secp256k1_schnorrsig_verify',
                  'secp256k1_ecdsa_verify', 'secp256k1_ec_pubkey_parse', 'secp256k1_ecdsa_signature_parse_der',
                  'secp256k1_xonly_pubkey_tweak_add', 'secp256k1_xonly_pubkey_from_pubkey', 'secp256k1_xonly_pubkey_serialize'):
            getattr(l, f).restype = ctypes.c_int
        _lib.append((l, ctypes.c_void_p(l.secp256k1_context_create(0x301))))
    return _lib[0]


def parse(x):
    l, ctx = lib()
    out = ctypes.create_string_buffer(64)
    return out if len(x) == 32 and l.secp256k1_xonly_pubkey_parse(ctx, out, x) == 1 else None


def tweak(internal, root=b''):
    return ref.tagged(b'TapTweak/elements', internal + root)


def output_key(internal, root=b''):
    """-> (output key, parity)"""
    l, ctx = lib()
    p = parse(internal)
    out = ctypes.create_string_buffer(64)
    x = ctypes.create_string_buffer(64)
    par = ctypes.c_int()
    s = ctypes.create_string_buffer(32)
    if p is None or l.secp256k1_xonly_pubkey_tweak_add(ctx, out, p, tweak(internal, root)) != 1:
        return None
    l.secp256k1_xonly_pubkey_from_pubkey(ctx, x, ctypes.byref(par), out)
    l.secp256k1_xonly_pubkey_serialize(ctx, s, x)
    return s.raw, par.value


def verify(x, h, sig):
    l, ctx = lib()
    p = parse(x)
    return p is not None and len(sig) == 64 and \
        l.secp256k1_schnorrsig_verify(ctx, bytes(sig), bytes(h), ctypes.c_size_t(32), p) == 1


def check_control(output, script, control):
    """a script-path spend: -> leaf version, or None"""
    if len(control) < 33 or (len(control) - 33) % 32:
        return None
    ver = control[0] & 0xfe
    internal = control[1:33]
    k = ref.tapleaf(script, ver)
    for p in range(33, len(control), 32):
        e = control[p:p + 32]
        k = ref.tagged(b'TapBranch/elements', min(k, e) + max(k, e))
    r = output_key(internal, k)
    if r is None or r[0] != output or r[1] != control[0] & 1:
        return None
    return ver
