"""C02: damaged or cut-short data never passes for a transaction"""

import struct

from sim import gen, ref
from sim.tape import HarnessError
from sim.world import Stream, InjectedIOError, select, warm_native, CHAINS

ID = 'C02'
TECHNIQUE = 'storage and channel faults (bit flips, splices, truncation, I/O errors, torn writes) against a reference decoder'
RUNS = {'quick': 7000, 'thorough': 100000}
RULE = ('one evaluation is one simulated history of records that are written, damaged by the simulated storage or channel and '
        'read back; it counts as non-trivial if at least one damaged, cut-short or faulted record was decided; histories are '
        'told apart by the hash of their event trace')
STATES = 'digests of (damage kinds, verdict of the reference decoder, record shape, reading class)'
REAL = ['elementstx.core deserialization and serialization', 'bitcointx serializers']
STUB = ['disk and network streams (simulated)', 'reference decoder (sim/ref.py) as oracle']
ASSUMPTIONS = ['the reference decoder in sim/ref.py states which bytes the Elements wire format admits']


def warmup():
    warm_native()


# ---- an encoder that tells its tokens apart, so that damage can hit structure
def tok_stack(items):
    out = [('count', ref.varint(len(items)))]
    for i in items:
        out += tok_bytes(i)
    return out


def tok_bytes(b):
    return [('len', ref.varint(len(b)))] + ([('bytes', b)] if b else [])


def tok_comm(c):
    if not c:
        return [('prefix', b'\x00')]
    return [('prefix', c[:1]), ('bytes', c[1:])]


def tok_iss(i):
    return [('bytes', i['nonce']), ('bytes', i['entropy'])] + tok_comm(i['amount']) + tok_comm(i['keys'])


def tok_tx(t, flag=None):
    w = ref.has_witness(t) if flag is None else flag
    out = [('ver', struct.pack('<i', t['version'])), ('flag', b'\x01' if w else b'\x00'),
           ('count', ref.varint(len(t['vin'])))]
    for i in t['vin']:
        e = ref.enc_in(i)
        out += [('bytes', e[:32]), ('n', e[32:36])] + tok_bytes(i['script'])
        out += [('u32', struct.pack('<I', i['seq']))]
        if i['n'] != 0xffffffff and not ref.iss_null(i['iss']):
            out += tok_iss(i['iss'])
    out += [('count', ref.varint(len(t['vout'])))]
    for o in t['vout']:
        out += tok_comm(o['asset']) + tok_comm(o['value']) + tok_comm(o['nonce']) + tok_bytes(o['script'])
    out += [('u32', struct.pack('<I', t['locktime']))]
    if w:
        for x in t['inwit']:
            out += tok_bytes(x['amount_rp']) + tok_bytes(x['keys_rp']) + tok_stack(x['stack']) + tok_stack(x['pegin'])
        for x in t['outwit']:
            out += tok_bytes(x['sp']) + tok_bytes(x['rp'])
    return out


def odd_varint(sim, n):
    """encodings of lengths that must not be believed"""
    k = sim.draw(8, 'odd-len')
    if k == 0:
        return b'\xfd' + struct.pack('<H', n & 0xffff)          # non-canonical if n < 0xfd
    if k == 1:
        return b'\xfe' + struct.pack('<I', n)
    if k == 2:
        return b'\xff' + struct.pack('<Q', n)
    if k == 3:
        return b'\xfe' + struct.pack('<I', ref.MAX_SIZE + sim.draw(2, 'over'))
    if k == 4:
        return b'\xff' + struct.pack('<Q', sim.pick((1 << 32, 1 << 63, (1 << 64) - 1), 'huge'))
    if k == 5:
        return ref.varint(n + 1)
    if k == 6:
        return ref.varint(max(0, n - 1))
    return b'\xfd' + struct.pack('<H', sim.pick((0xfc, 0xfd, 0xffff), 'v'))


def damage_tokens(sim, toks):
    """one structural fault; -> kind"""
    for _ in range(4):
        j = sim.draw(len(toks), 'token')
        kind, b = toks[j]
        if kind == 'flag':
            toks[j] = (kind, bytes([sim.pick((1, 0, 2, 3, 128, 129, 255, sim.draw(256, 'flag')), 'flag-kind')]))
            return 'flag'
        if kind in ('len', 'count'):
            try:
                n = ref.Rd(b).varint()
            except ref.RefError:        # damaged before
                n = 1
            toks[j] = (kind, odd_varint(sim, n))
            return 'odd-length'
        if kind == 'prefix':
            toks[j] = (kind, bytes([sim.pick((0, 1, 2, 3, 8, 9, 10, 11, 4, 7, 12, 0x12, 0xff, sim.draw(256, 'p')), 'prefix')]))
            return 'prefix'
        if kind == 'n':
            toks[j] = (kind, struct.pack('<I', struct.unpack('<I', b)[0] ^ sim.pick(
                (0x80000000, 0x40000000, 0xc0000000), 'nflag')))
            return 'outpoint-flag'
        if kind == 'bytes' and b and sim.chance(1, 2, 'drop'):
            toks[j] = (kind, b[:sim.draw(len(b), 'keep')])
            return 'lost-bytes'
    j = sim.draw(len(toks), 'token')
    k = sim.draw(3, 'tokop')
    if k == 0:
        del toks[j]
        return 'lost-field'
    if k == 1:
        toks.insert(j, toks[j])
        return 'repeated-field'
    i = sim.draw(len(toks), 'token')
    toks[i], toks[j] = toks[j], toks[i]
    return 'swapped-fields'


def damage_bytes(sim, b, other):
    b = bytearray(b)
    k = sim.draw(7, 'damage')
    at = sim.draw(len(b), 'at') if b else 0
    if k == 0 and b:
        b[at] ^= 1 << sim.draw(8, 'bit')
        return bytes(b), 'bit-flip'
    if k == 1 and b:
        b[at] = sim.draw(256, 'byte')
        return bytes(b), 'byte-change'
    if k == 2:
        return bytes(b[:at]), 'truncation'
    if k == 3:
        ins = sim.bytes(1 + sim.draw(4, 'ins-n'), 'ins')
        return bytes(b[:at]) + ins + bytes(b[at:]), 'insertion'
    if k == 4:
        n = 1 + sim.draw(4, 'del-n')
        return bytes(b[:at] + b[at + n:]), 'deletion'
    if k == 5 and other:
        o = sim.draw(len(other), 'splice-at')
        return bytes(b[:at]) + other[o:], 'splice'
    if k == 6 and b:
        n = sim.draw(min(64, len(b) - at), 'zero-n') + 1
        b[at:at + n] = b'\x00' * len(b[at:at + n])
        return bytes(b), 'zeroed-sector'
    return bytes(b), 'none'


def verdict(dec, b):
    try:
        return dec(b)
    except RecursionError:
        raise HarnessError('recursion')
    except (ref.RefError, struct.error, IndexError):
        return None


def compare(sim, o, m, what):
    sim.eq(o.serialize(), ref.encode(gen.norm(m)), 'decoded-content', what)
    d = gen.diff(gen.norm(gen.from_lib(o)), gen.norm(m))
    sim.check(d is None, 'decoded-content', '%s: %s' % (what, d))


def decide(sim, cls, data, kinds):
    """read one record from a healthy stream that contains damaged data"""
    want = verdict(ref.decode, data)
    sim.nontrivial = True
    sim.log('decide', '+'.join(kinds), cls.__name__, 'admitted' if want else 'refused', data)
    sim.state(tuple(sorted(kinds)), want is not None, cls.__name__)
    sim.probe('admitted' if want else 'refused')
    s = Stream(sim, data)
    try:
        o = cls.stream_deserialize(s)
    except Exception as e:      # noqa
        sim.check(want is None, 'refused-valid', lambda: 'valid data (%s) were refused: %r: %s' % (
            kinds, e, data.hex()[:600]))
        sim.check(not isinstance(e, (MemoryError, RecursionError)), 'resource-exhaustion', repr(e))
    else:
        sim.check(want is not None, 'accepted-invalid',
                  lambda: 'data that the format does not admit (%s) were read as a transaction: %s' % (
                      kinds, data.hex()[:600]))
        m, end = want
        sim.eq(s.pos, end, 'consumed', 'length of the record')
        compare(sim, o, m, 'stream')
    # as a whole message: trailing data are an error
    try:
        o = cls.deserialize(data)
    except Exception:      # noqa
        sim.check(want is None or want[1] != len(data), 'refused-valid', 'deserialize() refused valid data')
    else:
        sim.check(want is not None and want[1] == len(data), 'accepted-invalid',
                  'deserialize() accepted %s' % ('trailing data' if want else 'invalid data'))
        compare(sim, o, want[0], 'message')


PREFIX = {'value': (9, 8, 9), 'asset': (33, 10, 11), 'nonce': (33, 2, 3)}


def raw_part(sim, cls, name, data):
    """a commitment that another program handed over as bytes"""
    n, a, b = PREFIX[name]
    what = '%s of %s' % (name, data.hex())
    try:
        o = cls(bytearray(data) if sim.chance(1, 2, 'bytearray') else data)
    except ValueError:
        sim.check(len(data) not in (0, n, 33), 'refused-valid', what)
        return
    sim.check(len(data) in (0, n, 33), 'accepted-invalid', what)
    sim.eq(o.commitment, data, 'decoded-content', what)
    expl = len(data) == n and data[0] == 1
    comm = len(data) == 33 and data[0] in (a, b)
    sim.eq((o.is_null(), o.is_explicit(), o.is_commitment(), o.is_valid()), (not data, expl, comm, not data or expl or comm),
           'decoded-content', what)
    sim.check(isinstance(str(o), str) and isinstance(repr(o), str), 'decoded-content', what)
    if name == 'nonce':
        return
    get = o.to_amount if name == 'value' else o.to_asset
    try:
        v = get()
    except TypeError:
        sim.check(not expl, 'refused-valid', 'content of an explicit ' + what)
    else:
        sim.check(expl, 'accepted-invalid', lambda: 'content %r of a %s that is not explicit' % (v, what))
        sim.eq(v if name == 'value' else v.data, struct.unpack('>q', data[1:])[0] if name == 'value' else data[1:], 'decoded-content', what)


def component(sim, m, kinds_out):
    """parts are subject to the same"""
    c = gen.L()
    ins, outs = m['vin'], m['vout']
    opts = []
    if ins:
        i = ins[sim.draw(len(ins), 'which')]
        opts.append((c.CElementsTxIn, ref.enc_in(i), ref.dec_in, gen.from_in, 'input'))
        opts.append((c.CElementsMutableTxIn, ref.enc_in(i), ref.dec_in, gen.from_in, 'input'))
        if not ref.iss_null(i['iss']):
            opts.append((c.CAssetIssuance, ref.enc_iss(i['iss']), ref.dec_iss, gen.from_iss, 'issuance'))
        w = m['inwit'][0]
        opts.append((c.CElementsTxInWitness, ref.enc_inwit(w), ref.dec_inwit, gen.from_inwit, 'inwit'))
        opts.append((c.CElementsOutPoint, ref.enc_outpoint(i),
                     lambda r: {'hash': r.take(32), 'n': int.from_bytes(r.take(4), 'little')},
                     lambda o: {'hash': o.hash, 'n': o.n}, 'outpoint'))
    if outs:
        o = outs[sim.draw(len(outs), 'which')]
        opts.append((c.CElementsTxOut, ref.enc_out(o), ref.dec_out, gen.from_out, 'output'))
        opts.append((c.CElementsMutableTxOut, ref.enc_out(o), ref.dec_out, gen.from_out, 'output'))
        w = m['outwit'][0]
        opts.append((c.CElementsTxOutWitness, ref.enc_outwit(w), ref.dec_outwit, gen.from_outwit, 'outwit'))
        for f, cls, n, a, b in (('value', c.CConfidentialValue, 9, 8, 9), ('asset', c.CConfidentialAsset, 33, 10, 11),
                                ('nonce', c.CConfidentialNonce, 33, 2, 3)):
            opts.append((cls, ref.enc_comm(o[f]), lambda r, n=n, a=a, b=b: {'c': r.comm(n, a, b)},
                         lambda x: {'c': bytes(x.commitment)}, f))
    if not opts:
        return
    cls, enc, dec, frm, name = opts[sim.draw(len(opts), 'component')]
    data = enc
    kinds = []
    for _ in range(1 + sim.draw(2, 'n-damage')):
        data, k = damage_bytes(sim, data, enc)
        kinds.append(k)
        sim.fault(k)
    if sim.chance(1, 3, 'first-byte') and name in ('value', 'asset', 'nonce'):
        data = bytes([sim.draw(256, 'first')]) + data[1:]
        kinds.append('prefix')

    def full(b):
        r = ref.Rd(b)
        v = dec(r)
        if name == 'input' and ref.iss_null(v['iss']):
            v['iss'] = None
        return v, r.p
    if name in PREFIX and sim.chance(1, 2, 'raw-part'):
        raw_part(sim, cls, name, data if sim.chance(1, 2, 'with-null') else data[:sim.pick((33, 9, 32, 34, 8, 10, 1), 'size')])
    want = verdict(full, data)
    if name == 'issuance' and want and ref.iss_null(want[0]):
        return
    sim.nontrivial = True
    sim.log('component', name, '+'.join(kinds), 'admitted' if want else 'refused', data)
    sim.state('component', name, tuple(kinds), want is not None)
    s = Stream(sim, data)
    try:
        o = cls.stream_deserialize(s)
    except Exception as e:      # noqa
        sim.check(want is None, 'refused-valid', lambda: 'valid %s refused: %r: %s' % (name, e, data.hex()[:600]))
    else:
        sim.check(want is not None, 'accepted-invalid',
                  lambda: 'data that the format does not admit were read as %s: %s' % (name, data.hex()[:600]))
        sim.eq(s.pos, want[1], 'consumed', name)
        d = gen.diff(frm(o), want[0])
        sim.check(d is None, 'decoded-content', '%s: %s' % (name, d))


def writes(sim, m):
    """the device fails while a transaction is written"""
    o = gen.lib_tx(m, sim.chance(1, 2, 'mutable'), sim.draw(32, 'style'))
    enc = ref.encode(m)
    s = Stream(sim)
    o.stream_serialize(s)
    sim.eq(bytes(s.out), enc, 'encoding', 'before the fault')
    n = s.writes
    k = 1 + sim.draw(n, 'write-at')
    torn = sim.chance(1, 2, 'torn')
    f = Stream(sim, **{('short_write' if torn else 'fail_write'): k})
    sim.op('write-with-fault', k, n)
    try:
        o.stream_serialize(f)
    except InjectedIOError:
        pass
    else:
        if f.fired:
            sim.fail('swallowed-io-error', 'an error of the device did not reach the caller of stream_serialize')
    sim.check(enc.startswith(bytes(f.out)), 'written-prefix', 'what was written before the error is not a prefix')
    sim.eq(o.serialize(), enc, 'changed-by-fault', 'after the failed write')
    sim.nontrivial = True


def reads(sim, cls, m, data):
    """the device fails or the connection ends while a transaction is read"""
    s = Stream(sim, data)
    cls.stream_deserialize(s)
    n = s.reads
    k = 1 + sim.draw(n, 'read-at')
    short = sim.chance(1, 2, 'short')
    sim.op('read-with-fault', k, n, short)
    f = Stream(sim, data, **{('short_read' if short else 'fail_read'): k})
    try:
        o = cls.stream_deserialize(f)
    except InjectedIOError:
        sim.check(f.fired == 'read-error', 'harness')
    except Exception as e:      # noqa
        sim.check(f.fired != 'read-error', 'swallowed-io-error', lambda: 'turned into %r' % (e,))
        sim.check(f.fired is not None, 'refused-valid', repr(e))
    else:
        sim.check(f.fired != 'read-error', 'swallowed-io-error', 'an error of the device did not reach the caller')
        want = verdict(ref.decode, f.data)
        sim.check(want is not None, 'accepted-invalid', 'a record that was cut short was accepted')
        compare(sim, o, want[0], 'read')
    sim.nontrivial = True


def run(sim):
    c = gen.L()
    from bitcointx.core import CTransaction, CMutableTransaction
    chain = sim.pick(CHAINS, 'chain')
    select(chain)
    classes = [c.CElementsTransaction, c.CElementsMutableTransaction]
    if chain.startswith('elements'):
        classes += [CTransaction, CMutableTransaction]
    last = b''
    for _ in range(sim.irange(3, 9, 'nrec')):
        m = gen.tx(sim, big=sim.chance(1, 20, 'big'))
        if sim.chance(1, 100, 'enlarged'):
            gen.enlarge(sim, m)
        cls = sim.pick(classes, 'class')
        enc = ref.encode(m)
        sim.op('record', gen.digest(m))
        k = sim.draw(8, 'what')
        if k == 0:
            writes(sim, m)
        elif k == 1:
            reads(sim, cls, m, enc)
        elif k == 2:
            for _ in range(4):
                component(sim, m, None)
        elif k == 3:
            # cut short everywhere (or at many places, if it is long)
            cuts = range(len(enc)) if len(enc) <= 300 else sorted(
                {sim.draw(len(enc), 'cut') for _ in range(60)})
            for p in cuts:
                try:
                    cls.stream_deserialize(Stream(sim, enc[:p]))
                except Exception:      # noqa
                    continue
                sim.fail('accepted-invalid', 'the first %d of %d bytes of a record were accepted: %s' % (
                    p, len(enc), enc.hex()[:600]))
            sim.fault('truncation', len(cuts))
            sim.nontrivial = True
        elif k in (4, 5):
            flag = None
            if not ref.has_witness(m) and sim.chance(1, 4, 'superfluous'):
                flag = True
            toks = tok_tx(m, flag)
            if flag is None and b''.join(b for _, b in toks) != enc:
                raise HarnessError('token encoder')
            kinds = ['superfluous-witness'] if flag else []
            for _ in range(sim.irange(0 if flag else 1, 2, 'n-damage')):
                kinds.append(damage_tokens(sim, toks))
            for x in kinds:
                sim.fault(x)
            decide(sim, cls, b''.join(b for _, b in toks), kinds)
        else:
            data = enc
            kinds = []
            for _ in range(sim.wpick(((4, 1), (2, 2), (1, 4), (1, 0)), 'n-damage')):
                data, kd = damage_bytes(sim, data, last)
                kinds.append(kd)
                sim.fault(kd)
            if sim.chance(1, 4, 'more'):
                data += last      # the next record follows
            decide(sim, cls, data, kinds)
        last = enc
        sim.advance(1000)
