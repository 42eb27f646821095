"""C16: a mistyped or foreign confidential address is refused"""

from sim import gen, jobs, refaddr as R
from sim.world import select, warm_native

ID = 'C16'
TECHNIQUE = ('simulated senders and receivers who pass address strings over faulty channels (typing, truncation, encoding and chain '
             'mix-ups, crafted strings with valid checksums); acceptance is compared with an independent codec')
RUNS = {'quick': 32000, 'thorough': 200000}
RULE = ('one evaluation is one simulated history of an address book whose strings are passed on, damaged, and parsed under changing '
        'chains; non-trivial if a damaged or foreign string was parsed; told apart by the hash of the event trace')
STATES = '(chain of the string, chain in use, address type, confidential or not, channel faults, parsed by, accepted or not)'
REAL = ['elementstx.wallet, elementstx.blech32, elementstx.liquid_addr', 'address classes of bitcointx']
STUB = ['users and channels (simulated)', 'independent base58, bech32 and blech32 codecs as oracle']
ASSUMPTIONS = ['that the 33 bytes of the blinding key field are a point of the curve is checked when the key is used, not when the '
               'string is parsed', 'plain base58 strings of a wrong length are refused by bitcointx with TypeError']

CH = ('elements', 'elements/liquidv1', 'elements/elementsregtest')
FOREIGN = ('bitcoin', 'bitcoin/testnet', 'bitcoin/regtest')
LOOKALIKE = {'0': 'O', 'O': '0', 'l': '1', 'I': 'l', '1': 'l', 'o': '0', 'b': '6', '8': 'B', 'u': 'v', 'i': '1', 'B': '8',
             '5': 'S', 's': '5', 'z': '2', '2': 'z', 'q': '9', '9': 'q', 'g': 'q', 'n': 'm', 'm': 'n', 'V': 'v'}


def warmup():
    import elementstx                   # noqa
    import elementstx.wallet            # noqa
    warm_native()


def pubkey(sim):
    if sim.chance(1, 8, 'odd-key'):
        return sim.bytes(33, 'key')
    return bytes([2 + sim.draw(2, 'parity')]) + sim.bytes(32, 'key')


def program(sim, typ):
    n = R.WIT[typ][1] if typ in R.WIT else 20
    k = sim.draw(6, 'prog-kind')
    return b'\0' * n if k == 0 else b'\xff' * n if k == 1 else sim.bytes(n, 'prog')


def valid(sim):
    ch = sim.pick(CH + FOREIGN if sim.chance(1, 6, 'foreign') else CH, 'chain')
    typ = sim.pick(R.TYPES, 'type')
    key = pubkey(sim) if ch in CH and sim.chance(5, 6, 'conf') else None
    return R.encode(ch, typ, program(sim, typ), key), (ch, typ, key is not None)


def damage(sim, s):
    """one fault of a channel or a typist -> (string, kind)"""
    k = sim.draw(15, 'damage')
    n = len(s)
    if k == 0:
        return s, 'none'
    if k == 1 and n:
        p = sim.draw(n, 'at')
        al = R.B32 if sim.chance(1, 2, 'al') else R.B58
        return s[:p] + al[sim.draw(len(al), 'char')] + s[p + 1:], 'substitution'
    if k == 2 and n > 1:
        p = sim.draw(n - 1, 'at')
        return s[:p] + s[p + 1] + s[p] + s[p + 2:], 'transposition'
    if k == 3 and n:
        p = sim.draw(n, 'at')
        return s[:p] + s[p + 1:], 'deletion'
    if k == 4:
        p = sim.draw(n + 1, 'at')
        return s[:p] + sim.pick(R.B32 + R.B58, 'char') + s[p:], 'insertion'
    if k == 5 and n:
        p = sim.draw(n, 'at')
        return s[:p] + s[p].swapcase() + s[p + 1:], 'case-of-one'
    if k == 6:
        return s.upper() if sim.chance(1, 2, 'upper') else s.lower(), 'case-of-all'
    if k == 7 and n:
        p = sim.draw(n, 'at')
        return s[:p] + LOOKALIKE.get(s[p], '0') + s[p + 1:], 'look-alike'
    if k == 8 and n:
        return (s[:sim.draw(n, 'cut')] if sim.chance(1, 2, 'tail') else s[sim.draw(n, 'cut'):]), 'truncation'
    if k == 9:
        w = sim.pick((' ', '\n', '\t', '\u200b', '\0', '-', '\u0131', '\u017f', '\u212a', '\x7f', 'é'), 'space')
        p = sim.pick((0, n, n // 2), 'at')
        return s[:p] + w + s[p:], 'stray-character'
    if k == 10 and n:
        p = sim.draw(n, 'at')
        return s[:p] + s[p] + s[p:], 'doubled'
    if k == 12 and n:
        # case of a part: often what comes before or after the separator
        cuts = [0, 1, 2, n // 2, n - 12, n - 6, n - 1, n] + [s.find('1') + d for d in (0, 1)] * 3
        a, b = sorted(max(0, sim.pick(cuts, 'cut')) for _ in range(2))
        f = sim.pick((str.upper, str.lower, str.swapcase), 'case')
        return s[:a] + f(s[a:b]) + s[b:], 'case-of-part'
    if k == 13 and n > 3:
        # a burst of errors
        p = sim.draw(n - 2, 'at')
        m = sim.irange(2, 6, 'burst')
        return s[:p] + ''.join(sim.pick(R.B32, 'char') for _ in s[p:p + m]) + s[p + m:], 'burst'
    if k == 11:
        # the last characters of a bech32 string before a final 'p'
        p = max(0, n - 1)
        return s[:p] + sim.pick(('q', 'qq', ''), 'q') + s[p:], 'insertion-before-last'
    return s[:3] + s[3:][::-1], 'reversal'


def crafted(sim):
    """a string with a good checksum in which one thing is out of order"""
    ch = sim.pick(CH, 'chain')
    c = R.CHAIN[ch]
    typ = sim.pick(R.TYPES, 'type')
    key = pubkey(sim)
    prog = program(sim, typ)
    k = sim.draw(15, 'craft')
    if typ in R.WIT:
        ver = R.WIT[typ][0]
        body = key + prog
        if k == 0:
            ver = sim.draw(32, 'ver')
            const = 1 if ver == 0 else R.BLECH['m']
            return R.enc32(R.BLECH, c['bhrp'], [ver] + R.to5(body), const), (ch, typ, 'version')
        if k == 1:
            n = sim.pick((0, 1, 2, 20, 32, 33, 34, 52, 54, 64, 66, 73, 74, 100, 600), 'len')
            return R.seg(R.BLECH, c['bhrp'], ver, (body * 20)[:n]), (ch, typ, 'length')
        if k == 2:
            return R.enc32(R.BLECH, c['bhrp'], [ver] + R.to5(body), R.BLECH['m'] if ver == 0 else 1), (ch, typ, 'constant')
        if k == 3:
            const = sim.pick((0, 2, R.BECH['m'], R.BLECH['m'] ^ 1, R.BLECH['m'] ^ (1 << 59), 1 << 55), 'const')
            return R.enc32(R.BLECH, c['bhrp'], [ver] + R.to5(body), const), (ch, typ, 'strange constant')
        if k == 4:
            hrp = sim.pick(('lq', 'el', 'ex', 'ert', 'bc', 'tlq', 'e', 'l', 'ell', 'lq1', 'tex', 'bcrt', 'qp'), 'hrp')
            return R.seg(R.BLECH, hrp, ver, body), (ch, typ, 'hrp ' + hrp)
        if k == 5:      # bech32 checksum under the blech32 name
            return R.seg(R.BECH, c['bhrp'], ver, body), (ch, typ, 'bech32 checksum')
        if k == 6:      # confidential payload in a plain segwit address
            return R.seg(R.BECH, c['hrp'], ver, body), (ch, typ, 'payload in bech32')
        if k == 7:      # plain payload in a confidential address
            return R.seg(R.BLECH, c['bhrp'], ver, prog), (ch, typ, 'no key')
        if k == 8:      # padding bits
            v = R.to5(body)
            free = 5 * len(v) - 8 * len(body)
            if free:
                v[-1] |= 1 + sim.draw((1 << free) - 1, 'pad') if free > 1 else 1
            return R.enc32(R.BLECH, c['bhrp'], [ver] + v, 1 if ver == 0 else R.BLECH['m']), (ch, typ, 'padding bits')
        if k == 9:      # a group too many
            v = R.to5(body) + [0] * sim.irange(1, 3, 'groups')
            return R.enc32(R.BLECH, c['bhrp'], [ver] + v, 1 if ver == 0 else R.BLECH['m']), (ch, typ, 'extra groups')
        if k == 10:
            v = R.to5(body)[:-sim.irange(1, 3, 'groups')]
            return R.enc32(R.BLECH, c['bhrp'], [ver] + v, 1 if ver == 0 else R.BLECH['m']), (ch, typ, 'missing groups')
        if k == 11:     # in base58
            return R.b58check(bytes([ver]) + body), (ch, typ, 'base58')
        if k == 12:
            s = R.encode(ch, typ, prog, key)
            return s.replace('1', sim.pick(('', '11', 'l'), 'sep'), 1), (ch, typ, 'separator')
        if k == 13:
            s = R.encode(ch, typ, prog, key)
            h = len(c['bhrp'])
            return s[:h].upper() + s[h:], (ch, typ, 'case of the prefix')
        return R.enc32(R.BLECH, c['bhrp'], [] if sim.chance(1, 2, 'empty') else [ver], 1 if ver == 0 else R.BLECH['m']), \
            (ch, typ, 'empty')
    pfx = [c['conf'], c[typ]]
    if k == 0:
        pfx[0] = sim.draw(256, 'pfx')
    elif k == 1:
        pfx[1] = sim.draw(256, 'pfx')
    elif k == 2:
        pfx.reverse()
    elif k == 3:
        pfx = pfx[1:]
    elif k == 4:
        pfx = pfx[:1]
    elif k == 5:
        o = R.CHAIN[sim.pick(CH, 'other')]
        pfx = sim.pick(([o['conf'], c[typ]], [c['conf'], o[typ]], [o['conf'], 0], [c['conf'], c['conf']]), 'mix')
    elif k in (6, 7, 8):
        n = sim.pick((0, 1, 19, 20, 21, 32, 33, 34, 52, 54, 65, 200), 'len')
        b = bytes(pfx) + ((key + prog) * 5)[:n]
        return R.b58check(b), (ch, typ, 'length')
    elif k == 9:
        return R.b58check(bytes(pfx[1:]) + prog), (ch, typ, 'plain')
    elif k == 10:
        return '1' * sim.irange(1, 3, 'ones') + R.b58check(bytes(pfx) + key + prog), (ch, typ, 'leading ones')
    elif k == 11:
        b = bytes(pfx) + key + prog
        from hashlib import sha256
        return R.b58enc(b + sha256(b).digest()[:4]), (ch, typ, 'single hash')
    elif k == 12:
        b = bytes(pfx) + key + prog
        return R.b58enc(b + R._dsha(b)[:3]), (ch, typ, 'short checksum')
    elif k == 13:
        pfx = pfx + [sim.draw(256, 'more')]
    return R.b58check(bytes(pfx) + key + prog), (ch, typ, 'prefix' if k not in (14,) else 'good')


def parsers():
    import bitcointx.wallet as bw
    import elementstx.wallet as ew
    r = [('any', None, bw.CCoinAddress, None), ('conf', None, ew.CCoinConfidentialAddress, True)]
    for ch, n in (('elements', 'Elements'), ('elements/liquidv1', 'ElementsLiquidV1')):
        r.append(('chain', ch, getattr(ew, 'C%sAddress' % n), None))
        r.append(('chain-conf', ch, getattr(ew, 'C%sConfidentialAddress' % n), True))
        r.append(('b58-conf', ch, getattr(ew, 'CBase58%sConfidentialAddress' % n), 'b58'))
        r.append(('blech-conf', ch, getattr(ew, 'CBlech32%sConfidentialAddress' % n), 'seg'))
        for t in R.TYPES:
            r.append((t, ch, getattr(ew, '%s%sConfidentialAddress' % (t.upper(), n)), t))
    return r


_p = []


def want(kind, s, chain):
    """what a parser must make of the string -> decoded or None"""
    d = R.decode(chain, s)
    if d is None:
        return None
    if kind is None:
        return d
    if d[2] is None:
        return None
    if kind == 'b58':
        return d if d[0] not in R.WIT else None
    if kind == 'seg':
        return d if d[0] in R.WIT else None
    if kind is True or kind == d[0]:
        return d
    return None


def attempt(sim, s, ambient, meta, faults):
    from bitcointx.wallet import CCoinAddressError
    from bitcointx.core import AddressDataEncodingError
    from elementstx.wallet import CCoinConfidentialAddress
    if not _p:
        _p.extend(parsers())
    # the generic parsers, and one of the specific ones
    for name, chain, cls, kind in _p[:2] + [_p[2 + sim.draw(len(_p) - 2, 'parser')]]:
        ch = chain or ambient
        if name == 'conf' and ambient in FOREIGN:
            w = None
        else:
            w = want(kind, s, ch)
        plain_len = False
        # an intermediate class of a chain that is not in use may refuse everything
        off = chain is not None and chain.split('/')[-1] != ambient.replace('elements/elementsregtest', 'elements').split('/')[-1] \
            and kind not in R.TYPES
        try:
            a = cls(s)
        except (CCoinAddressError, AddressDataEncodingError):
            a = None
        except TypeError:
            b = R.b58check_dec(s)
            c = R.CHAIN[ch]
            if off:
                a = None
            elif b and b[0] in (c['p2sh'], c['p2pkh']) and kind is None and len(b) != 21:
                plain_len = True
                a = None
            else:
                raise
        what = '%s (%s) as %s under %s' % (s, meta, cls.__name__, ambient)
        sim.state(meta[0], ambient, meta[1], str(meta[2])[:12], tuple(faults), name, a is not None)
        if w is None or (off and a is None):
            sim.check(a is None, 'bad-address-accepted', lambda: '%s -> %r' % (what, bytes(a).hex()))
        else:
            sim.check(a is not None, 'good-address-refused', what)
            sim.eq(bytes(a), (w[2] or b'') + w[1], 'address-content', what)
            sim.check(isinstance(a, CCoinConfidentialAddress) == (w[2] is not None), 'address-content', what)
            sim.eq(bytes(a.to_scriptPubKey()), R.script(w[0], w[1]), 'address-script', what)
            if w[2] is not None:
                sim.eq(bytes(a.blinding_pubkey), w[2], 'blinding-key', what)
                sim.eq(str(a.to_unconfidential()), R.encode(ch, w[0], w[1]), 'unconfidential', what)
            canon = s.lower() if w[0] in R.WIT else s
            sim.check(str(a) == canon, 'address-not-reproduced', lambda: '%s -> %s' % (what, a))
        sim.log('parse', name, a is not None, plain_len)


def strings(sim, chain):
    """strings that one of several threads parses"""
    todo = []
    for _ in range(sim.irange(1, 4, 'n-strings')):
        s, meta = crafted(sim) if sim.chance(1, 4, 'crafted') else valid(sim)
        kind = 'none'
        if sim.chance(1, 2, 'damaged'):
            s, kind = damage(sim, s)
        todo.append((s, meta, kind))

    def fn(sim):
        for s, meta, kind in todo:
            attempt(sim, s, chain, meta, [kind])
            yield
        return ()
    return jobs.Job(sim, 'strings', chain, fn)


_raw = {}


def raw(sim, s, meta):
    """the decoder of confidential segwit strings itself, and what a user makes of it for a network of his own"""
    from elementstx import liquid_addr
    from elementstx.blech32 import Blech32Error, CBlech32Data
    hrp = sim.pick(('el', 'lq', 'tlq', 'e', 'lq1'), 'raw-hrp')
    k = sim.draw(6, 'raw')
    if k < 3:
        hrp = sim.pick(('el', 'lq', 'tlq', 'e', 'lq1', 'x' * 83, 'q'), 'own-hrp')
        ver = sim.draw(17 if k else 32, 'own-ver')
        prog = sim.bytes(sim.pick((53, 65, 53, 65, 1, 2, 3, 35, 43, 52, 54, 72, 73, 74, 75, 500), 'own-len'), 'own-prog')
        const = (1 if ver == 0 else R.BLECH['m']) ^ (sim.pick((0, 1 ^ R.BLECH['m']), 'own-const') if k == 2 else 0)
        s = R.enc32(R.BLECH, hrp, [ver] + R.to5(prog), const)
        if k == 1:
            e = liquid_addr.encode(hrp, ver, prog)
            good = 2 <= len(prog) <= 73 and (ver or len(prog) in (53, 65))
            sim.check(e == (s if good else None), 'raw-encode', lambda: '%s %d %s -> %r' % (hrp, ver, prog.hex(), e))
        if sim.chance(1, 3, 'raw-damage'):
            s, _ = damage(sim, s)
        hrp = hrp if sim.chance(7, 8, 'right-hrp') else hrp[1:] + 'l'
    w = R.dec32(R.BLECH, hrp, s)
    if w is not None and not (2 <= len(w[1]) <= 73 and (w[0] or len(w[1]) in (53, 65))):
        w = None
    g = liquid_addr.decode(hrp, s)
    what = '%s (%s) with prefix %s' % (s, meta, hrp)
    sim.state('raw', w and (min(w[0], 2), len(w[1])), k < 3)
    sim.eq((g[0], g[1] if g[1] is None else bytes(g[1])), w or (None, None), 'raw-decode', what)
    if hrp not in _raw:
        _raw[hrp] = type('COwnData', (CBlech32Data,), {'blech32_hrp': hrp}), \
            type('COwnData0', (CBlech32Data,), {'blech32_hrp': hrp, 'blech32_witness_version': 0, '_data_length': 53})
    for own, ok in zip(_raw[hrp], (w is not None, w is not None and (w[0], len(w[1])) == (0, 53))):
        try:
            a = own(s)
        except Blech32Error:
            a = None
        sim.check((a is not None) == ok, 'raw-class', lambda: '%s: %s -> %r' % (own.__name__, what, a))
        if ok:
            sim.eq((a.blech32_witness_version, bytes(a), a.to_bytes(), str(a)), (w[0], w[1], w[1], s.lower()), 'raw-class', what)
            sim.eq(str(own.from_bytes(w[1], witver=w[0])), s.lower(), 'raw-class', what)
            if own.blech32_witness_version == 0:
                sim.eq(str(own.from_bytes(w[1])), s.lower(), 'raw-class', what)
            for bad in (-1, 17, 1 if own.blech32_witness_version == 0 else 17):
                try:
                    b = own.from_bytes(w[1], witver=bad)
                except ValueError:
                    continue
                sim.fail('raw-class', '%s: made %r of version %d' % (own.__name__, b, bad))


def run(sim):
    if sim.chance(1, 30, 'together'):
        return jobs.together(sim, (strings,), CH, 3, ['bitcointx/wallet.py', 'bitcointx/base58.py'])
    ambient = sim.pick(CH, 'ambient')
    select(ambient)
    for step in range(sim.irange(3, 12, 'steps')):
        if sim.chance(1, 4, 'switch'):
            ambient = sim.pick(CH + (FOREIGN if sim.chance(1, 4, 'to-foreign') else ()), 'ambient')
            select(ambient)
            sim.op('select', ambient)
        faults = []
        if sim.chance(2, 5, 'crafted'):
            s, meta = crafted(sim)
            sim.fault('crafted string')
            faults.append('crafted')
        else:
            s, meta = valid(sim)
        n = sim.wpick(((3, 0), (6, 1), (3, 2), (1, 4)), 'damages')
        for _ in range(n):
            s, kind = damage(sim, s)
            if kind != 'none':
                faults.append(kind)
                sim.fault(kind)
        if faults or meta[0] != ambient:
            sim.nontrivial = True
        sim.op('pass', meta[0], meta[1], len(s))
        attempt(sim, s, ambient, meta, faults[:2])
        if sim.chance(1, 4, 'raw-too'):
            raw(sim, s, meta)
