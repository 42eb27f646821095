"""Parties that edit, sign, exchange and verify a transaction together.

Every party has its own view: a reference model, and an object of the library
that must be the same.  Views diverge and converge as the messages come in."""

from sim import gen, ref
from sim.sched import Net
from sim.tape import HarnessError, Violation
from sim.world import Disk


def edit_in(sim, i):
    """-> what was edited; i is a model"""
    k = sim.draw(7, 'edit-in')
    if k == 0:
        i['hash'] = sim.bytes(32, 'prevhash')
        return 'prevhash'
    if k == 1:
        i['n'] = gen.NS[sim.draw(len(gen.NS), 'n')]
        return 'n'
    if k == 2:
        i['seq'] = gen.u32(sim, 'seq')
        return 'seq'
    if k == 3:
        i['script'] = gen.script_pool(sim, 'scriptSig')
        return 'scriptSig'
    if k == 4:
        i['pegin'] = not i['pegin']
        return 'pegin'
    if k == 5:
        i['iss'] = gen.issuance(sim)
        return 'issuance'
    iss = dict(i['iss']) if i['iss'] else {'nonce': b'\0' * 32, 'entropy': sim.bytes(32, 'entropy'),
                                          'amount': b'\x01' + b'\0' * 7 + b'\x05', 'keys': b''}
    f = sim.pick(('nonce', 'entropy', 'amount', 'keys'), 'iss-field')
    iss[f] = gen.value_comm(sim, 'iss') if f in ('amount', 'keys') else sim.bytes(32, 'iss')
    i['iss'] = iss
    return 'issuance.' + f


def edit_out(sim, o):
    f = sim.pick(('asset', 'value', 'nonce', 'script'), 'edit-out')
    o[f] = {'asset': lambda: gen.asset_comm(sim), 'value': lambda: gen.value_comm(sim),
            'nonce': lambda: gen.nonce_comm(sim), 'script': lambda: gen.script_pool(sim)}[f]()
    return f


def legal(i):
    """inputs whose wire form is ambiguous in the network itself are left out"""
    if i['n'] == 0x3fffffff and i['pegin'] and not ref.iss_null(i['iss']):
        i['pegin'] = False


class Party:
    def __init__(self, room, name, t, spent):
        self.room = room
        self.sim = room.sim
        self.name = name
        self.disk = Disk(room.sim)
        self.persisted = None
        self.t = t
        self.spent = spent
        self.obj = None
        self.rebuild()
        self.persist()

    # ---- the library object for the current model
    def rebuild(self):
        sim = self.sim
        self.mutable = sim.chance(2, 3, 'mutable')
        self.obj = gen.lib_tx(self.t, self.mutable, sim.draw(32, 'style'))

    def persist(self):
        self.persisted = (ref.encode(self.t), [dict(o) for o in self.spent])

    def restart(self):
        b, sp = self.persisted
        self.t = ref.decode(b)[0]
        self.spent = [dict(o) for o in sp]
        self.obj = self.read(b)
        self.same('restart')

    def read(self, b):
        c = gen.L()
        self.mutable = self.sim.chance(2, 3, 'mutable')
        cls = c.CElementsMutableTransaction if self.mutable else c.CElementsTransaction
        if self.sim.chance(1, 3, 'generic-class'):
            # through the class dispatch of the current chain
            import bitcointx.core as bc
            cls = bc.CMutableTransaction if self.mutable else bc.CTransaction
        return cls.deserialize(b)

    def same(self, what):
        d = gen.diff(gen.norm(gen.from_lib(self.obj)), gen.norm(self.t))
        self.sim.check(d is None, 'view-differs', lambda: '%s after %s: %s' % (self.name, what, d))

    # ---- edits of model and object
    def edit(self):
        sim = self.sim
        t = self.t
        inplace = self.mutable and sim.chance(3, 4, 'in-place')
        inwit_open = len(self.obj.wit.vtxinwit) == len(t['vin'])
        outwit_open = len(self.obj.wit.vtxoutwit) == len(t['vout'])
        k = sim.draw(13, 'edit')
        what = None
        if k == 0:
            t['version'] = gen.version(sim)
            what = 'version'
            if inplace:
                self.obj.nVersion = t['version']
        elif k == 1:
            t['locktime'] = gen.u32(sim, 'locktime')
            what = 'locktime'
            if inplace:
                self.obj.nLockTime = t['locktime']
        elif k in (2, 3, 4):
            n = sim.draw(len(t['vin']), 'which-in')
            what = 'in%d.%s' % (n, edit_in(sim, t['vin'][n]))
            legal(t['vin'][n])
            if inplace:
                i = t['vin'][n]
                o = self.obj.vin[n]
                if not o.is_mutable() or sim.chance(1, 3, 'replace-part'):
                    self.obj.vin[n] = gen.lib_in(i, True)
                else:
                    L = gen.lib_in(i, sim.chance(1, 2, 'part-mutability'))
                    o.prevout = L.prevout
                    o.scriptSig = L.scriptSig
                    o.nSequence = L.nSequence
                    o.assetIssuance = L.assetIssuance
                    o.is_pegin = L.is_pegin
        elif k in (5, 6):
            if not t['vout']:
                return None
            n = sim.draw(len(t['vout']), 'which-out')
            what = 'out%d.%s' % (n, edit_out(sim, t['vout'][n]))
            if inplace:
                o = self.obj.vout[n]
                if not o.is_mutable() or sim.chance(1, 3, 'replace-part'):
                    self.obj.vout[n] = gen.lib_out(t['vout'][n], True)
                else:
                    L = gen.lib_out(t['vout'][n], sim.chance(1, 2, 'part-mutability'))
                    o.nAsset = L.nAsset
                    o.nValue = L.nValue
                    o.nNonce = L.nNonce
                    o.scriptPubKey = L.scriptPubKey
        elif k == 7:
            i = gen.tx_in(sim, False)
            w = gen.in_wit(sim) if sim.chance(1, 2, 'wit') else ref.empty_inwit()
            at = sim.draw(len(t['vin']) + 1, 'at')
            t['vin'].insert(at, i)
            t['inwit'].insert(at, w)
            self.spent.insert(at, self.room.coin())
            what = 'in%d.new' % at
            inplace = inplace and (inwit_open or (not self.obj.wit.vtxinwit and ref.inwit_null(w)))
            if inplace:
                self.obj.vin.insert(at, gen.lib_in(i, True))
                if inwit_open:
                    self.obj.wit.vtxinwit.insert(at, gen.lib_inwit(w, True))
        elif k == 8:
            o = gen.tx_out(sim)
            w = gen.out_wit(sim) if sim.chance(1, 2, 'wit') else ref.empty_outwit()
            at = sim.draw(len(t['vout']) + 1, 'at')
            t['vout'].insert(at, o)
            t['outwit'].insert(at, w)
            what = 'out%d.new' % at
            inplace = inplace and (outwit_open or (not self.obj.wit.vtxoutwit and ref.outwit_null(w)))
            if inplace:
                self.obj.vout.insert(at, gen.lib_out(o, True))
                if outwit_open:
                    self.obj.wit.vtxoutwit.insert(at, gen.lib_outwit(w, True))
        elif k == 9:
            if len(t['vin']) < 2:
                return None
            at = sim.draw(len(t['vin']), 'at')
            for x in (t['vin'], t['inwit'], self.spent):
                del x[at]
            what = 'in%d.removed' % at
            if inplace:
                del self.obj.vin[at]
                if inwit_open:
                    del self.obj.wit.vtxinwit[at]
        elif k == 10:
            if not t['vout']:
                return None
            at = sim.draw(len(t['vout']), 'at')
            for x in (t['vout'], t['outwit']):
                del x[at]
            what = 'out%d.removed' % at
            if inplace:
                del self.obj.vout[at]
                if outwit_open:
                    del self.obj.wit.vtxoutwit[at]
        elif k == 11:
            n = sim.draw(len(t['vin']), 'which-in')
            f = sim.pick(('amount_rp', 'keys_rp', 'stack', 'pegin'), 'wit-field')
            t['inwit'][n][f] = gen.stack(sim, 'wit') if f in ('stack', 'pegin') else gen.blob(sim, 'proof')
            what = 'inwit%d.%s' % (n, f)
            if inplace and inwit_open:
                self.obj.wit.vtxinwit[n] = gen.lib_inwit(t['inwit'][n], sim.chance(1, 2, 'part-mutability'))
            else:
                inplace = False
        else:
            if not t['vout']:
                return None
            n = sim.draw(len(t['vout']), 'which-out')
            f = sim.pick(('sp', 'rp'), 'wit-field')
            t['outwit'][n][f] = gen.blob(sim, 'proof')
            what = 'outwit%d.%s' % (n, f)
            if inplace and outwit_open:
                self.obj.wit.vtxoutwit[n] = gen.lib_outwit(t['outwit'][n], sim.chance(1, 2, 'part-mutability'))
            else:
                inplace = False
        if not inplace:
            self.rebuild()
        sim.op('edit', self.name, what, inplace)
        return what

    def convert(self):
        """to the other mutability, or through the wire"""
        sim = self.sim
        c = gen.L()
        k = sim.draw(4, 'convert')
        if k == 0:
            self.obj = self.obj.to_mutable()
            self.mutable = True
        elif k == 1:
            self.obj = self.obj.to_immutable()
            self.mutable = False
        elif k == 2:
            self.mutable = sim.chance(1, 2, 'to')
            self.obj = (c.CElementsMutableTransaction if self.mutable else c.CElementsTransaction).from_tx(self.obj)
        else:
            self.obj = self.read(self.obj.serialize())
        sim.op('convert', self.name, k)

    def snapshot(self):
        o = self.obj
        return (o.serialize(), type(o.vin), type(o.vout), [id(x) for x in o.vin], [id(x) for x in o.vout],
                [id(x.assetIssuance) for x in o.vin], id(o.wit), [id(x) for x in o.wit.vtxinwit],
                [id(x) for x in o.wit.vtxoutwit])


class Room:
    """scheme: kind-specific requests, see props/c13.py and props/c14.py"""

    def __init__(self, sim, scheme):
        self.sim = sim
        self.scheme = scheme
        self.sigs = []

    def coin(self):
        """an output that is spent: it has a value and an asset"""
        sim = self.sim
        return {'asset': gen.asset_comm(sim) or b'\x01' + sim.bytes(32, 'asset'),
                'value': gen.value_comm(sim, nullable=False), 'nonce': b'', 'script': gen.script_pool(sim)}

    def run(self, nmin=2, nmax=3, actions=10):
        sim = self.sim
        faults = sim.pick(('corrupt', 'corrupt', None), 'faults')
        t = gen.tx(sim, coinbase_ok=False, min_in=1)
        if sim.chance(1, 25, 'enlarged'):
            gen.enlarge(sim, t, ('in', 'out', 'both', 'both'))
        spent = [self.coin() for _ in t['vin']]
        names = ['p%d' % k for k in range(sim.irange(nmin, nmax, 'parties'))]
        self.net = Net(sim, names, faults)
        self.parties = {}
        for n in names:
            self.parties[n] = Party(self, n, gen.copy(t), [dict(o) for o in spent])
            self.net.handlers[n] = self.handler(n)
        self.left = {x: sim.irange(2, actions, 'actions') for x in names}
        self.spentbox = {}
        for n in names:
            self.net.timer(n, 1 + sim.draw(2000, 'start'), 'act')
        self.net.run()

    def handler(self, name):
        def h(src, msg):
            p = self.parties[name]
            if src is None:
                if msg == 'restart':
                    self.net.down[name] = False
                    p.restart()
                else:
                    self.left[name] -= 1
                    self.act(p)
                if self.left[name] > 0 and not self.net.down.get(name):
                    self.net.timer(name, 1 + self.sim.draw(2000, 'think'), 'act')
            else:
                self.receive(p, src, msg)
        return h

    def act(self, p):
        sim = self.sim
        k = sim.draw(10, 'act')
        if k < 3:
            p.edit()
            if sim.chance(1, 2, 'recheck'):
                self.recheck(p)
        elif k == 3:
            p.convert()
            p.same('conversion')
        elif k < 7:
            self.sign(p)
        elif k == 7:
            # pass the transaction on
            dst = sim.pick([n for n in self.parties if n != p.name], 'to')
            b = p.obj.serialize()
            sim.eq(b, ref.encode(p.t), 'wire', p.name)
            self.spentbox[b] = [dict(o) for o in p.spent]
            sim.op('send', p.name, dst)
            self.net.send(p.name, dst, b)
        elif k == 8:
            if sim.chance(1, 2, 'persist'):
                p.persist()
            else:
                sim.fault('crash')
                sim.op('crash', p.name)
                self.net.down[p.name] = True
                self.net.timer(p.name, 1 + sim.draw(5000, 'downtime'), 'restart')
        else:
            self.recheck(p)

    def receive(self, p, src, b):
        sim = self.sim
        try:
            m, end = ref.decode(b)
            if end != len(b):
                raise ref.RefError('trailing')
        except ref.RefError:
            m = None
        was = p.mutable
        try:
            o = p.read(b)
        except (HarnessError, Violation):
            raise
        except Exception:       # noqa     (what data are refused with is not specified)
            if m is not None:
                raise
            o = None
        sim.check((m is None) == (o is None), 'wire-decode', lambda: '%s: reference %s, library %s' % (
            p.name, 'refuses' if m is None else 'accepts', 'refuses' if o is None else 'accepts'))
        if m is None or not m['vin']:
            p.mutable = was
            return
        sp = self.spentbox.get(b)
        if sp is None:
            sp = [self.coin() for _ in m['vin']]
        p.t, p.spent, p.obj = m, [dict(x) for x in sp], o
        p.same('receive')
        sim.op('adopt', p.name, src)
        self.recheck(p)

    # ---- signing
    def compute(self, p, req, when):
        """hash by the library == hash by the rules; -> hash or None"""
        sim = self.sim
        before = p.snapshot()
        want = self.scheme.ref(req, p.t, p.spent)
        got = self.scheme.lib(req, p.obj, p.t, p.spent)
        if want is None:
            sim.check(got is None, 'undefined-hash-computed', lambda: '%s %s' % (when, self.scheme.show(req)))
        else:
            sim.check(got is not None, 'hash-refused', lambda: '%s %s' % (when, self.scheme.show(req)))
            sim.eq(got, want, 'wrong-hash', '%s %s' % (when, self.scheme.show(req)))
        after = p.snapshot()
        sim.check(before == after, 'hashing-has-side-effects', lambda: '%s %s' % (when, self.scheme.show(req)))
        return want

    def sign(self, p):
        sim = self.sim
        req = self.scheme.request(p)
        h = self.compute(p, req, 'sign')
        sim.op('sign', p.name, self.scheme.key(req))
        sim.state(*self.scheme.key(req), len(p.t['vin']), len(p.t['vout']), p.mutable, h is None)
        if h is None:
            return
        if sim.data.get('keys') is None:
            sim.data['keys'] = [gen.key(sim) for _ in range(2)]
        key = sim.pick(sim.data['keys'], 'key')
        sig = self.scheme.sign(key, h)
        rec = {'req': req, 'commit': self.scheme.commit(req, p.t, p.spent), 'key': key, 'sig': sig, 'hash': h,
               'by': p.name}
        self.sigs.append(rec)
        sim.nontrivial = True
        self.validate(p, rec)

    def validate(self, p, rec):
        """a party checks a signature against its own view"""
        sim = self.sim
        req = rec['req']
        if req['idx'] >= len(p.t['vin']):
            return
        h = self.compute(p, req, 'verify')
        same = h is not None and self.scheme.commit(req, p.t, p.spent) == rec['commit']
        if (h == rec['hash']) != same:
            raise HarnessError('commitment oracle and reference hash disagree: %s' % self.scheme.show(req))
        if h is None:
            return
        ok = self.scheme.verify(rec['key'], h, rec['sig'])
        sim.check(ok == same, 'signature-validity',
                  lambda: 'signature by %s is %s for %s although the parts it commits to are %s: %s' % (
                      rec['by'], 'valid' if ok else 'invalid', p.name, 'the same' if same else 'different',
                      self.scheme.show(req)))
        sim.probe('signature still valid' if same else 'signature no longer valid')

    def recheck(self, p):
        for rec in self.sigs[-4:]:
            self.validate(p, rec)
