"""C17: confidential and plain forms of an address denote the same destination"""

from sim import gen, jobs, refaddr as R
from sim.tape import HarnessError
from sim.world import select, warm_native

ID = 'C17'
TECHNIQUE = ('simulated histories of wallets that create, convert, store, restore and print addresses while chains are switched '
             '(permanently, temporarily, with exceptions) and wallets crash; invariants over all addresses after every step')
RUNS = {'quick': 20000, 'thorough': 200000}
RULE = ('one evaluation is one simulated history; non-trivial if an address was converted after a switch of the chain or a restart; '
        'told apart by the hash of the event trace')
STATES = '(operation, chain of the address, chain in use, address type, confidential, class used, accepted or not)'
REAL = ['elementstx.wallet address classes, elementstx.blech32', 'bitcointx wallet base classes and class dispatch']
STUB = ['wallet storage (simulated disk)', 'independent codec and script rules as oracle']
ASSUMPTIONS = ['the size of a plain output is counted without its asset, as the existing tests define it',
               'names of scriptPubKey types are only defined for classes that declare them']

EL = ('elements', 'elements/liquidv1')
ALL = EL + ('elements/elementsregtest', 'bitcoin', 'bitcoin/testnet')
FAM = {'elements/elementsregtest': 'elements'}
PRE = {'elements': 'Elements', 'elements/liquidv1': 'ElementsLiquidV1', 'bitcoin': 'Bitcoin', 'bitcoin/testnet': 'BitcoinTestnet'}
SPK = {'p2pkh': 'pubkeyhash', 'p2sh': 'scripthash', 'p2wpkh': 'witness_v0_keyhash', 'p2wsh': 'witness_v0_scripthash',
       'p2tr': 'witness_v1_taproot'}


def warmup():
    warm_native()


def cls_of(chain, typ, conf):
    import bitcointx.wallet as bw
    import elementstx.wallet as ew
    n = '%s%s%sAddress' % (typ.upper(), PRE[chain], 'Confidential' if conf else '')
    return getattr(ew if chain in EL else bw, n)


def compactsize(n):
    return 1 if n < 253 else 3


class Ent:
    def __init__(self, obj, chain, typ, prog, key):
        self.obj, self.chain, self.typ, self.prog, self.key = obj, chain, typ, prog, key

    def string(self):
        return R.encode(self.chain, self.typ, self.prog, self.key)


class World:
    def __init__(self, sim):
        self.sim = sim
        self.ents = []
        self.book = []          # on disk: strings with the chain they were made for
        self.ambient = None
        self.depth = 0
        self.disturbed = False
        self.pub = gen.key(sim).pub

    def fam(self):
        return FAM.get(self.ambient, self.ambient)

    def add(self, obj, chain, typ, prog, key, what):
        e = Ent(obj, chain, typ, prog, None if key is None else bytes(key))
        self.ents.append(e)
        self.verify(e, what, full=True)
        if len(self.ents) > 8:
            self.ents.pop(self.sim.draw(len(self.ents) - 1, 'forget'))
        return e

    def verify(self, e, what, full=False):
        sim = self.sim
        o = e.obj
        msg = lambda: '%s: %s under %s' % (what, e.string(), self.ambient)      # noqa: E731
        sim.check(type(o) is cls_of(e.chain, e.typ, e.key is not None), 'address-class',
                  lambda: '%s: is a %s' % (msg(), type(o).__name__))
        sim.eq(bytes(o), (e.key or b'') + e.prog, 'address-content', what)
        sim.eq(str(o), e.string(), 'address-string', what)
        sim.eq(bytes(o.to_scriptPubKey()), R.script(e.typ, e.prog), 'address-script', what)
        from elementstx.core.script import CElementsScript
        sim.check(isinstance(o.to_scriptPubKey(), CElementsScript) == (e.chain in EL), 'script-class', msg)
        if not full and not sim.chance(1, 3, 'full'):
            return
        try:
            red = bytes(o.to_redeemScript())
        except NotImplementedError:
            red = None
        want = b'\x76\xa9\x14' + e.prog + b'\x88\xac' if e.typ in ('p2pkh', 'p2wpkh') else None
        sim.check(red == want, 'redeem-script', lambda: '%s: %s' % (msg(), red))
        if e.chain in EL:
            n = 1 + len(R.script(e.typ, e.prog)) + (99 if e.key is not None else 9 + 1 + 1)
            sim.check(o.get_output_size() == n and type(o).get_output_size() == n, 'output-size',
                      lambda: '%s: %d, real output has %d' % (msg(), o.get_output_size(), n))
        if e.chain in EL:
            from elementstx.wallet import CCoinConfidentialAddress
            ch = sim.pick(EL, 'other-chain')
            typ = sim.pick(R.TYPES, 'other-type')
            sim.check(isinstance(o, cls_of(e.chain, e.typ, False)), 'address-kind', msg)
            sim.check(isinstance(o, cls_of(ch, typ, False)) == ((ch, typ) == (e.chain, e.typ)), 'address-kind',
                      lambda: '%s, as %s of %s' % (msg(), typ, ch))
            sim.check(isinstance(o, CCoinConfidentialAddress) == (e.key is not None), 'address-kind', msg)
        if e.key is not None:
            sim.eq(bytes(o.blinding_pubkey), e.key, 'blinding-key', what)
            u = o.to_unconfidential()
            sim.check(type(u) is cls_of(e.chain, e.typ, False), 'address-class', lambda: '%s: plain form %s' % (msg(), type(u).__name__))
            sim.eq(bytes(u), e.prog, 'unconfidential', what)
            sim.eq(str(u), R.encode(e.chain, e.typ, e.prog), 'unconfidential', what)
            back = type(o).from_unconfidential(u, o.blinding_pubkey)
            sim.check(back == o and type(back) is type(o) and str(back) == str(o), 'conversion-and-back', msg)
        else:
            sim.check(type(o).get_scriptPubKey_type() == SPK[e.typ], 'scriptPubKey-type', msg)
            a = type(o).from_scriptPubKey(o.to_scriptPubKey())
            sim.check(a == o and type(a) is type(o), 'from-scriptPubKey', msg)

    # ---- operations
    def create(self):
        sim = self.sim
        import bitcointx.wallet as bw
        from bitcointx.wallet import CCoinAddress
        k = sim.draw(7, 'create')
        fam = self.fam()
        typ = sim.pick(R.TYPES, 'type')
        n = R.WIT[typ][1] if typ in R.WIT else 20
        prog = sim.bytes(n, 'prog')
        what = 'create%d' % k
        if k == 0:          # parse in the chain in use
            key = bytes(self.pub) if fam in EL and sim.chance(1, 2, 'conf') else None
            s = R.encode(self.ambient, typ, prog, key)
            self.add(CCoinAddress(s), fam, typ, prog, key, what)
        elif k == 1:        # the class of any chain
            ch = sim.pick(EL, 'chain')
            conf = sim.chance(1, 2, 'conf')
            key = bytes(self.pub) if conf else None
            self.add(cls_of(ch, typ, conf).from_bytes((key or b'') + prog), ch, typ, prog, key, what)
        elif k == 2:
            from bitcointx.core.script import CScript
            a = CCoinAddress.from_scriptPubKey(CScript(R.script(typ, prog)))
            self.add(a, fam, typ, prog, None, what)
        elif k == 3:
            typ = sim.pick(('p2pkh', 'p2wpkh'), 'pk-type')
            cls, ch = self.some_class(typ)
            a = cls.from_pubkey(self.pub)
            prog = bw.bitcointx.core.Hash160(self.pub)
            self.add(a, ch, typ, prog, None, what)
        elif k == 4:
            typ = sim.pick(('p2sh', 'p2wsh'), 'redeem-type')
            cls, ch = self.some_class(typ)
            from bitcointx.core.script import CScript
            red = CScript(gen.blob(sim, 'redeem', lens=(0, 1, 22, 75, 252)))
            a = cls.from_redeemScript(red)
            import hashlib
            prog = bw.bitcointx.core.Hash160(red) if typ == 'p2sh' else hashlib.sha256(red).digest()
            self.add(a, ch, typ, prog, None, what)
        elif k == 5:
            from bitcointx.core.key import XOnlyPubKey
            x = XOnlyPubKey(self.pub)
            cls, ch = self.some_class('p2tr')
            if sim.chance(1, 2, 'tweaked'):
                from sim import taproot, ref
                a = cls.from_xonly_pubkey(x)
                tag = b'TapTweak/elements' if ch in EL else b'TapTweak'
                t = ref.tagged(tag, bytes(x))
                l, ctx = taproot.lib()
                prog = self.tweaked(l, ctx, bytes(x), t)
            else:
                a = cls.from_xonly_output_pubkey(x)
                prog = bytes(x)
            self.add(a, ch, 'p2tr', prog, None, what)
        else:
            # parse a string of a certain class, whatever the chain in use
            ch = sim.pick(EL, 'chain')
            conf = sim.chance(1, 2, 'conf')
            key = bytes(self.pub) if conf else None
            self.add(cls_of(ch, typ, conf)(R.encode(ch, typ, prog, key)), ch, typ, prog, key, what)
        e = self.ents[-1]
        sim.op('create', k, e.chain, e.typ, e.key is not None)
        sim.state('create', k, e.chain, self.ambient, e.typ, e.key is not None)

    def tweaked(self, l, ctx, x, t):
        import ctypes
        from sim import taproot
        out, xo, s = ctypes.create_string_buffer(64), ctypes.create_string_buffer(64), ctypes.create_string_buffer(32)
        if l.secp256k1_xonly_pubkey_tweak_add(ctx, out, taproot.parse(x), t) != 1:
            raise HarnessError('tweak')
        l.secp256k1_xonly_pubkey_from_pubkey(ctx, xo, None, out)
        l.secp256k1_xonly_pubkey_serialize(ctx, s, xo)
        return s.raw

    def some_class(self, typ):
        """the generic class (chain in use) or that of a chain"""
        import bitcointx.wallet as bw
        if self.sim.chance(1, 2, 'generic'):
            return getattr(bw, '%sCoinAddress' % typ.upper()), self.fam()
        ch = self.sim.pick(EL, 'cls-chain')
        return cls_of(ch, typ, False), ch

    def convert(self):
        """plain -> confidential, with a class that may or may not fit"""
        sim = self.sim
        import elementstx.wallet as ew
        from bitcointx.wallet import CCoinAddressError
        if not self.ents:
            return
        e = self.ents[sim.draw(len(self.ents), 'which')]
        k = sim.draw(8, 'cls')
        chain = sim.pick((e.chain if e.chain in EL else 'elements',) + EL, 'cls-chain')
        typ = sim.pick((e.typ, e.typ) + R.TYPES, 'cls-type')
        n = PRE[chain]
        ok = e.key is None and e.chain in EL
        if k < 2:
            cls, ok = ew.CCoinConfidentialAddress, ok and e.chain == self.fam()
            chain = None
        elif k == 2:
            cls, ok = getattr(ew, 'C%sConfidentialAddress' % n), ok and e.chain == chain
        elif k == 3:
            cls = getattr(ew, 'CBase58%sConfidentialAddress' % n)
            ok = ok and e.chain == chain and e.typ not in R.WIT
        elif k == 4:
            cls = getattr(ew, 'CBlech32%sConfidentialAddress' % n)
            ok = ok and e.chain == chain and e.typ in R.WIT
        elif k == 5:
            cls, chain = getattr(ew, '%sCoinConfidentialAddress' % typ.upper()), None
            ok = ok and e.typ == typ and e.chain == self.fam()
        else:
            cls, ok = cls_of(chain, typ, True), ok and e.typ == typ and e.chain == chain
        key = self.pub
        kk = sim.draw(8, 'key')
        if kk == 0:
            key = bytes(self.pub)
        elif kk == 1:
            key = bytearray(self.pub)
        elif kk == 2:
            ok = False
            key = sim.pick((b'', bytes(33), b'\x02' + b'\xff' * 32, bytes(self.pub)[:32], b'\x05' + bytes(self.pub)[1:],
                            bytes(self.pub) + b'\0'), 'bad-key')
        elif kk == 3:
            # a valid key that is not compressed does not fit in an address
            from bitcointx.core.key import CKey
            key = CKey.from_secret_bytes(gen.secret(sim, 'long-key'), compressed=False).pub \
                if hasattr(CKey, 'from_secret_bytes') else self.pub
            if len(key) != 33:
                ok = False
        try:
            a = cls.from_unconfidential(e.obj, key)
        except (ValueError, TypeError, CCoinAddressError):
            a = None
        what = '%s.from_unconfidential(%s) under %s with key %d' % (cls.__name__, e.string(), self.ambient, kk)
        sim.op('convert', k, e.chain, e.typ, ok)
        sim.state('convert', k, chain, e.chain, self.ambient, e.typ, typ, ok)
        if self.disturbed:
            sim.nontrivial = True
        if not ok:
            sim.check(a is None, 'bad-conversion-accepted', lambda: '%s -> %s' % (what, a))
        else:
            sim.check(a is not None, 'good-conversion-refused', what)
            self.add(a, e.chain, e.typ, e.prog, bytes(key), what)

    def unconvert(self):
        sim = self.sim
        c = [e for e in self.ents if e.key is not None]
        if not c:
            return
        e = sim.pick(c, 'which')
        if self.disturbed:
            sim.nontrivial = True
        self.add(e.obj.to_unconfidential(), e.chain, e.typ, e.prog, None, 'to_unconfidential')
        sim.op('unconvert', e.chain, e.typ)

    def from_spk(self):
        """a confidential address cannot come from a script"""
        sim = self.sim
        from bitcointx.wallet import CCoinAddressError, CCoinAddress
        c = [e for e in self.ents if e.chain in EL]
        if not c:
            return
        e = sim.pick(c, 'which')
        spk = e.obj.to_scriptPubKey()
        try:
            a = cls_of(e.chain, e.typ, True).from_scriptPubKey(spk)
        except CCoinAddressError:
            a = None
        sim.check(a is None, 'confidential-from-script', e.string())
        if self.fam() == e.chain:
            a = CCoinAddress.from_scriptPubKey(spk)
            sim.check(type(a) is cls_of(e.chain, e.typ, False) and bytes(a) == e.prog, 'from-scriptPubKey', e.string())
        sim.op('from-script', e.chain, e.typ)

    def store(self):
        if self.ents:
            e = self.sim.pick(self.ents, 'store')
            self.book.append((str(e.obj), e.chain, e.typ, e.prog, e.key))
            self.sim.op('store', e.chain)

    def crash(self):
        """all objects are lost; the wallet comes back under another chain and
        reads its address book"""
        from bitcointx import ChainParams
        from bitcointx.wallet import CCoinAddress
        sim = self.sim
        sim.fault('crash')
        self.ents = []
        self.disturbed = True
        sim.op('crash', len(self.book))
        if self.depth == 0:
            self.switch()
        for s, ch, typ, prog, key in self.book[-4:]:
            if sim.chance(1, 2, 'by-class'):
                a = cls_of(ch, typ, key is not None)(s)
            else:
                with ChainParams(ch):
                    a = CCoinAddress(s)
            self.add(a, ch, typ, prog, key, 'restore')

    def switch(self):
        self.ambient = self.sim.pick(ALL, 'chain')
        select(self.ambient)
        self.disturbed = True
        self.sim.op('select', self.ambient)

    def temporary(self, steps):
        from bitcointx import ChainParams
        sim = self.sim
        old = self.ambient
        new = sim.pick(ALL, 'temporary')
        self.disturbed = True
        sim.op('enter', new)
        self.depth += 1
        try:
            with ChainParams(new):
                self.ambient = new
                for _ in range(steps):
                    self.step()
                if sim.chance(1, 3, 'exception'):
                    sim.fault('exception in temporary selection')
                    raise KeyError('simulated')
        except KeyError:
            pass
        self.depth -= 1
        self.ambient = old
        sim.op('leave', old)

    def step(self):
        sim = self.sim
        k = sim.draw(16, 'step')
        if k < 4:
            self.create()
        elif k < 9:
            self.convert()
        elif k == 9:
            self.unconvert()
        elif k == 10:
            self.from_spk()
        elif k == 11:
            self.store()
        elif k == 12 and self.depth == 0:
            self.switch()
        elif k == 13 and self.depth < 2:
            self.temporary(sim.irange(1, 3, 'inner'))
        elif k == 14:
            self.crash()
        else:
            self.create()
        for e in self.ents:
            if sim.chance(1, 3, 'verify'):
                self.verify(e, 'later')


def run(sim):
    if sim.chance(1, 10, 'together'):
        return jobs.together(sim, (jobs.forms,), jobs.CHAINS)
    w = World(sim)
    w.ambient = sim.pick(ALL, 'chain')
    select(w.ambient)
    w.create()
    for _ in range(sim.irange(3, 14, 'steps')):
        w.step()
    for e in w.ents:
        w.verify(e, 'end', full=True)
