"""C03: immutable objects never change and copies never share state"""

from sim import gen, ref
from sim.world import select, warm_native, CHAINS

ID = 'C03'
TECHNIQUE = 'simulated histories of parties that build, convert, alias and edit objects; invariants after every step'
RUNS = {'quick': 14000, 'thorough': 80000}
RULE = ('one evaluation is one simulated history in which several parties build, convert, edit and observe transactions and '
        'their parts, re-using each other\'s objects, lists and buffers; it counts as non-trivial if an immutable object was '
        'observed after an edit of something it was made from or converted to; told apart by the hash of the event trace')
STATES = 'digests of (operation, kinds and mutability of the objects involved)'
REAL = ['elementstx.core classes, constructors and conversions', 'bitcointx base classes']
STUB = ['the parties (scripted by the simulator)', 'reference models of all objects as oracle']
ASSUMPTIONS = ['sharing that the user asks for by assignment (appending one mutable object to two lists) is not sharing in the sense '
               'of the property', 'hash arguments of outpoints are given as bytes (they are kept by bitcointx code)']


def warmup():
    warm_native()


class Ent:
    """an object with its reference model; the model of a mutable object that
    is part of another mutable object is shared with it"""

    def __init__(self, kind, obj, model):
        self.kind = kind
        self.obj = obj
        self.model = model
        self.mutable = bool(obj.is_mutable())
        self.snap = None


ENC = {'tx': ref.encode, 'in': ref.enc_in, 'out': ref.enc_out, 'inwit': ref.enc_inwit, 'outwit': ref.enc_outwit,
       'op': lambda m: m['hash'] + m['n'].to_bytes(4, 'little'),
       'wit': lambda m: b''.join(ref.enc_inwit(w) for w in m['in']) + b''.join(ref.enc_outwit(w) for w in m['out'])}
FRM = {'tx': gen.from_lib, 'in': gen.from_in, 'out': gen.from_out, 'inwit': gen.from_inwit, 'outwit': gen.from_outwit,
       'op': lambda o: {'hash': bytes(o.hash), 'n': o.n},
       'wit': lambda o: {'in': [gen.from_inwit(w) for w in o.vtxinwit], 'out': [gen.from_outwit(w) for w in o.vtxoutwit]}}


def cp(kind, m):
    if kind == 'tx':
        return gen.copy(m)
    if kind == 'in':
        return dict(m, iss=None if m['iss'] is None else dict(m['iss']))
    if kind == 'inwit':
        return dict(m, stack=list(m['stack']), pegin=list(m['pegin']))
    if kind == 'wit':
        return {'in': [cp('inwit', w) for w in m['in']], 'out': [dict(w) for w in m['out']]}
    return dict(m)


def nrm(kind, m):
    if kind == 'tx':
        return gen.norm(m)
    if kind == 'in' and ref.iss_null(m['iss']):
        return dict(m, iss=None)
    return m


class World:
    def __init__(self, sim):
        self.sim = sim
        self.ents = []
        self.buffers = []
        self.lists = []
        self.dict = {}
        self.edited = False

    # ---- invariants
    def add(self, kind, obj, model):
        e = Ent(kind, obj, model)
        self.ents.append(e)
        self.verify(e, 'new')
        return e

    def verify(self, e, when):
        sim = self.sim
        raw = e.obj.serialize()
        sim.eq(raw, ENC[e.kind](e.model), 'content-of-mutable' if e.mutable else 'immutable-changed',
               '%s %s' % (when, e.kind))
        d = gen.diff(nrm(e.kind, FRM[e.kind](e.obj)), nrm(e.kind, e.model))
        sim.check(d is None, 'content-of-mutable' if e.mutable else 'immutable-changed',
                  lambda: '%s %s: %s' % (when, e.kind, d))
        ids = [e.obj.GetHash(), hash(e.obj)]
        if e.kind == 'tx':
            ids.append(e.obj.GetTxid())
            sim.eq(ids[2], ref.txid(e.model), 'stale-identifier', '%s txid' % when)
            if e.mutable:
                sim.check(isinstance(e.obj.vin, list) and isinstance(e.obj.vout, list), 'container', 'of mutable')
            else:
                sim.check(type(e.obj.vin) is tuple and type(e.obj.vout) is tuple, 'container', 'of immutable')
                for p in list(e.obj.vin) + list(e.obj.vout) + [e.obj.wit] + [i.prevout for i in e.obj.vin] \
                        + list(e.obj.wit.vtxinwit) + list(e.obj.wit.vtxoutwit):
                    sim.check(not p.is_mutable(), 'container', 'a part of an immutable transaction is mutable')
        if e.kind == 'wit' and not e.mutable:
            sim.check(type(e.obj.vtxinwit) is tuple and type(e.obj.vtxoutwit) is tuple, 'container', 'of immutable witness')
        sim.eq(ids[0], ref.dsha(raw), 'stale-identifier', '%s hash of %s' % (when, e.kind))
        sim.check(ids[1] == hash(raw), 'stale-identifier', '%s python hash of %s' % (when, e.kind))
        sim.check(bool(e.obj.is_mutable()) == e.mutable, 'mutability')
        if not e.mutable:
            if e.snap is None:
                e.snap = (raw, repr(e.obj), str(e.obj))
            else:
                sim.eq(raw, e.snap[0], 'immutable-changed', when)
                if self.edited:
                    sim.nontrivial = True
            self.dict.setdefault(id(e), {e.obj: e})

    def verify_all(self, when):
        for e in self.ents:
            self.verify(e, when)

    # ---- making things
    def buf(self, b):
        """proofs may be given in a bytearray; the caller goes on to use it"""
        if self.sim.chance(1, 2, 'bytearray'):
            a = bytearray(b)
            self.buffers.append(a)
            return a
        return b

    def inwit(self, m, mutable):
        c = gen.L()
        cls = c.CElementsMutableTxInWitness if mutable else c.CElementsTxInWitness
        st = [self.buf(x) for x in m['stack']]
        pg = [self.buf(x) for x in m['pegin']]
        self.lists += [st, pg]
        return cls(gen.lib_stack(st), self.buf(m['amount_rp']), self.buf(m['keys_rp']), gen.lib_stack(pg))

    def outwit(self, m, mutable):
        c = gen.L()
        cls = c.CElementsMutableTxOutWitness if mutable else c.CElementsTxOutWitness
        return cls(self.buf(m['sp']), self.buf(m['rp']))

    def comm(self, cls, b):
        return cls(b)

    def part(self, kind, m, mutable):
        if kind == 'in':
            return gen.lib_in(m, mutable)
        if kind == 'out':
            return gen.lib_out(m, mutable)
        if kind == 'inwit':
            return self.inwit(m, mutable)
        if kind == 'outwit':
            return self.outwit(m, mutable)
        c = gen.L()
        return (c.CElementsMutableOutPoint if mutable else c.CElementsOutPoint)(m['hash'], m['n'])


def new_part(sim, w, kind):
    if kind == 'in':
        m = gen.tx_in(sim)
    elif kind == 'out':
        m = gen.tx_out(sim)
    elif kind == 'inwit':
        m = gen.in_wit(sim)
    elif kind == 'outwit':
        m = gen.out_wit(sim)
    else:
        m = {'hash': sim.bytes(32, 'h'), 'n': sim.draw(5, 'n')}
    return w.add(kind, w.part(kind, m, sim.chance(1, 2, 'mut')), m)


def some(sim, w, kind, lo=0):
    """a few entities of a kind, new or existing, as constructor arguments"""
    have = [e for e in w.ents if e.kind == kind]
    out = []
    for _ in range(sim.irange(lo, 3, 'n-' + kind)):
        if have and sim.chance(2, 3, 'reuse'):
            out.append(have[sim.draw(len(have), 'which')])
        else:
            out.append(new_part(sim, w, kind))
    return out


def build(sim, w):
    c = gen.L()
    mutable = sim.chance(1, 2, 'mutable')
    ins = some(sim, w, 'in')
    outs = some(sim, w, 'out')
    la, lb = [e.obj for e in ins], [e.obj for e in outs]
    cls = c.CElementsMutableTransaction if mutable else c.CElementsTransaction
    m = {'version': gen.version(sim), 'locktime': gen.u32(sim, 'lt'),
         'vin': [cp('in', e.model) for e in ins], 'vout': [cp('out', e.model) for e in outs],
         'inwit': [ref.empty_inwit() for _ in ins], 'outwit': [ref.empty_outwit() for _ in outs]}
    wit = None
    if sim.chance(2, 3, 'wit') and (ins or outs):
        wi = [new_part(sim, w, 'inwit') for _ in ins]
        wo = [new_part(sim, w, 'outwit') for _ in outs]
        l1, l2 = [e.obj for e in wi], [e.obj for e in wo]
        wm = sim.chance(1, 2, 'wit-mut')
        wcls = c.CElementsMutableTxWitness if wm else c.CElementsTxWitness
        wit = wcls(l1, l2)
        w.lists += [l1, l2]
        we = {'in': [cp('inwit', e.model) for e in wi], 'out': [cp('outwit', e.model) for e in wo]}
        w.add('wit', wit, we)
        m['inwit'] = [cp('inwit', x) for x in we['in']]
        m['outwit'] = [dict(x) for x in we['out']]
    sim.op('build', mutable, len(ins), len(outs), wit is not None)
    tx = cls(la, lb, m['locktime'], m['version'], wit)
    w.lists += [la, lb]
    sim.state('build', mutable, [e.mutable for e in ins], [e.mutable for e in outs], wit is not None)
    return w.add('tx', tx, m)


def convert(sim, w):
    c = gen.L()
    e = w.ents[sim.draw(len(w.ents), 'which')]
    k = sim.draw(6, 'conv')
    sim.op('convert', e.kind, e.mutable, k)
    sim.state('convert', e.kind, e.mutable, k)
    im = {'tx': c.CElementsTransaction, 'in': c.CElementsTxIn, 'out': c.CElementsTxOut, 'wit': c.CElementsTxWitness,
          'inwit': c.CElementsTxInWitness, 'outwit': c.CElementsTxOutWitness, 'op': c.CElementsOutPoint}[e.kind]
    mu = {'tx': c.CElementsMutableTransaction, 'in': c.CElementsMutableTxIn, 'out': c.CElementsMutableTxOut,
          'wit': c.CElementsMutableTxWitness, 'inwit': c.CElementsMutableTxInWitness,
          'outwit': c.CElementsMutableTxOutWitness, 'op': c.CElementsMutableOutPoint}[e.kind]
    name = {'tx': 'from_tx', 'in': 'from_txin', 'out': 'from_txout', 'wit': 'from_witness', 'inwit': 'from_txin_witness',
            'outwit': 'from_txout_witness', 'op': 'from_outpoint'}[e.kind]
    if k == 0:
        o, want = e.obj.to_mutable(), True
    elif k == 1:
        o, want = e.obj.to_immutable(), False
    elif k == 2:
        o, want = e.obj.clone(), e.mutable
    elif k == 3:
        o, want = getattr(mu, name)(e.obj), True
    elif k == 4:
        o, want = getattr(im, name)(e.obj), False
    else:
        # over the wire
        cls = mu if sim.chance(1, 2, 'mut') else im
        kw = {}
        if e.kind == 'wit':
            kw = {'num_inputs': len(e.model['in']), 'num_outputs': len(e.model['out'])}
        o, want = cls.deserialize(e.obj.serialize(), **kw), cls is mu
        w.add(e.kind, o, nrm(e.kind, cp(e.kind, e.model)))
        return
    sim.check(bool(o.is_mutable()) == want, 'mutability', 'of a converted %s' % e.kind)
    if o is e.obj:
        sim.check(not want, 'shared-copy', 'a conversion that has to give a mutable copy returned its argument')
    if want:
        sim.check(o is not e.obj, 'shared-copy', 'mutable copy is the same object')
    n = w.add(e.kind, o, cp(e.kind, e.model))
    sim.check(o == e.obj and e.obj == o, 'equality', 'a converted %s is not equal to its source' % e.kind)
    return n


def take_part(sim, w):
    """get at a part of a transaction through its attributes"""
    txs = [e for e in w.ents if e.kind == 'tx']
    if not txs:
        return
    t = txs[sim.draw(len(txs), 'which')]
    kind = sim.pick(('in', 'out', 'inwit', 'outwit', 'op'), 'part')
    lst = {'in': t.obj.vin, 'out': t.obj.vout, 'inwit': t.obj.wit.vtxinwit, 'outwit': t.obj.wit.vtxoutwit,
           'op': [i.prevout for i in t.obj.vin]}[kind]
    if not lst:
        return
    ml = {'in': t.model['vin'], 'out': t.model['vout'], 'inwit': t.model['inwit'], 'outwit': t.model['outwit'],
          'op': [{'hash': i['hash'], 'n': i['n']} for i in t.model['vin']]}[kind]
    j = sim.draw(len(lst), 'j')
    sim.op('take', kind, t.mutable, j)
    sim.state('take', kind, t.mutable)
    o = lst[j]
    if kind == 'op':
        o = o.clone()
        w.add('op', o, cp('op', ml[j]))
    elif o.is_mutable():
        w.add(kind, o, ml[j])           # the same object: the model is shared too
    else:
        w.add(kind, o, cp(kind, ml[j]))


def own(t, kind, j, ml, lst):
    """make the part mutable in place if it is not"""
    if not lst[j].is_mutable():
        lst[j] = lst[j].to_mutable()
        ml[j] = cp(kind, ml[j])
    return lst[j], ml[j]


def edit_part(sim, w, kind, o, m):
    """edit a mutable part and its model in place"""
    c = gen.L()
    from elementstx.core.script import CElementsScript
    k = sim.draw(4, 'field')
    if kind == 'in':
        if k == 0:
            m['seq'] = o.nSequence = gen.u32(sim, 'seq')
        elif k == 1:
            m['script'] = gen.script_pool(sim)
            o.scriptSig = CElementsScript(m['script'])
        elif k == 2 and m['n'] < 0x3fffffff:
            m['iss'] = gen.issuance(sim)
            o.assetIssuance = gen.lib_iss(m['iss'])
        elif k == 3 and m['n'] != 0xffffffff:
            n = sim.draw(9, 'n')
            m['n'] = n
            m['hash'] = sim.bytes(32, 'h')
            if sim.chance(1, 2, 'deep') and o.prevout.is_mutable():
                o.prevout.n = n
                o.prevout.hash = m['hash']
            else:
                o.prevout = c.CElementsMutableOutPoint(m['hash'], n)
    elif kind == 'out':
        if k == 0:
            m['value'] = gen.value_comm(sim)
            o.nValue = c.CConfidentialValue(m['value'])
        elif k == 1:
            m['asset'] = gen.asset_comm(sim)
            o.nAsset = c.CConfidentialAsset(m['asset'])
        elif k == 2:
            m['nonce'] = gen.nonce_comm(sim)
            o.nNonce = c.CConfidentialNonce(m['nonce'])
        else:
            m['script'] = gen.script_pool(sim)
            o.scriptPubKey = CElementsScript(m['script'])
    elif kind == 'inwit':
        if k == 0:
            m['amount_rp'] = sim.bytes(5, 'rp')
            o.issuanceAmountRangeproof = m['amount_rp']
        elif k == 1:
            m['keys_rp'] = sim.bytes(5, 'rp')
            o.inflationKeysRangeproof = m['keys_rp']
        else:
            f = 'stack' if k == 2 else 'pegin'
            m[f] = gen.stack(sim, 'wit')
            setattr(o, 'scriptWitness' if k == 2 else 'pegin_witness', gen.lib_stack(list(m[f])))
    elif kind == 'outwit':
        if k & 1:
            m['sp'] = o.surjectionproof = sim.bytes(5, 'sp')
        else:
            m['rp'] = o.rangeproof = sim.bytes(5, 'rp')
    elif kind == 'op':
        if k & 1:
            m['n'] = o.n = sim.draw(9, 'n')
        else:
            m['hash'] = o.hash = sim.bytes(32, 'h')
    elif kind == 'wit':
        l1, m1, kd = (o.vtxinwit, m['in'], 'inwit') if k & 1 else (o.vtxoutwit, m['out'], 'outwit')
        if l1:
            j = sim.draw(len(l1), 'j')
            x, y = own(None, kd, j, m1, l1)
            edit_part(sim, w, kd, x, y)


def edit(sim, w):
    mut = [e for e in w.ents if e.mutable]
    if not mut:
        return
    e = mut[sim.draw(len(mut), 'which')]
    c = gen.L()
    w.edited = True
    if e.kind != 'tx':
        sim.op('edit', e.kind)
        edit_part(sim, w, e.kind, e.obj, e.model)
        return
    t, m = e.obj, e.model
    while len(t.wit.vtxinwit) < len(t.vin):
        t.wit.vtxinwit.append(c.CElementsMutableTxInWitness())
    while len(t.wit.vtxoutwit) < len(t.vout):
        t.wit.vtxoutwit.append(c.CElementsMutableTxOutWitness())
    k = sim.draw(9, 'edit')
    sim.op('edit', 'tx', k)
    sim.state('edit', 'tx', k)
    if k == 0:
        m['locktime'] = t.nLockTime = gen.u32(sim, 'lt')
    elif k == 1:
        m['version'] = t.nVersion = gen.version(sim)
    elif k == 2:
        ne = new_part(sim, w, 'in')
        t.vin.append(ne.obj)
        m['vin'].append(ne.model)
        t.wit.vtxinwit.append(c.CElementsMutableTxInWitness())
        m['inwit'].append(ref.empty_inwit())
    elif k == 3:
        ne = new_part(sim, w, 'out')
        t.vout.append(ne.obj)
        m['vout'].append(ne.model)
        t.wit.vtxoutwit.append(c.CElementsMutableTxOutWitness())
        m['outwit'].append(ref.empty_outwit())
    elif k == 4 and m['vin']:
        j = sim.draw(len(m['vin']), 'j')
        del t.vin[j], m['vin'][j], t.wit.vtxinwit[j], m['inwit'][j]
    elif k == 5 and m['vin']:
        j = sim.draw(len(m['vin']), 'j')
        edit_part(sim, w, 'in', *own(t, 'in', j, m['vin'], t.vin))
    elif k == 6 and m['vout']:
        j = sim.draw(len(m['vout']), 'j')
        edit_part(sim, w, 'out', *own(t, 'out', j, m['vout'], t.vout))
    elif k == 7 and m['vin']:
        j = sim.draw(len(m['vin']), 'j')
        edit_part(sim, w, 'inwit', *own(t, 'inwit', j, m['inwit'], t.wit.vtxinwit))
    elif k == 8 and m['vout']:
        j = sim.draw(len(m['vout']), 'j')
        edit_part(sim, w, 'outwit', *own(t, 'outwit', j, m['outwit'], t.wit.vtxoutwit))


SLOTS = {'tx': ('nVersion', 'vin', 'vout', 'nLockTime', 'wit'),
         'in': ('prevout', 'scriptSig', 'nSequence', 'assetIssuance', 'is_pegin'),
         'out': ('nValue', 'scriptPubKey', 'nAsset', 'nNonce'),
         'inwit': ('scriptWitness', 'issuanceAmountRangeproof', 'inflationKeysRangeproof', 'pegin_witness'),
         'outwit': ('surjectionproof', 'rangeproof'), 'op': ('hash', 'n'), 'wit': ('vtxinwit', 'vtxoutwit')}


def refuse(sim, obj, name, val, what):
    for k, f in (('set', lambda: setattr(obj, name, val)), ('delete', lambda: delattr(obj, name))):
        try:
            f()
        except (AttributeError, TypeError):
            continue
        sim.fail('assignment-accepted', '%s of attribute %s of %s was not refused' % (k, name, what))


def attack(sim, w):
    """somebody tries to assign to what must not be assigned to"""
    im = [e for e in w.ents if not e.mutable]
    if not im:
        return
    e = im[sim.draw(len(im), 'which')]
    sim.op('attack', e.kind)
    w.edited = True
    donors = [x for x in w.ents if x.kind == e.kind and x is not e]
    for s in SLOTS[e.kind]:
        val = getattr(donors[sim.draw(len(donors), 'donor')].obj, s) if donors else 0
        refuse(sim, e.obj, s, val, 'an immutable ' + e.kind)
    refuse(sim, e.obj, '_cached_GetHash', b'\x00' * 32, 'an immutable ' + e.kind)
    inner = []
    if e.kind == 'tx' and e.obj.vin:
        inner += [('in', e.obj.vin[0]), ('op', e.obj.vin[0].prevout)]
        inner += [('issuance', e.obj.vin[0].assetIssuance)]
    if e.kind == 'tx' and e.obj.vout:
        inner += [('out', e.obj.vout[0]), ('commitment', e.obj.vout[0].nValue)]
    if e.kind == 'tx':
        inner += [('wit', e.obj.wit)]
    if e.kind == 'out':
        inner += [('commitment', e.obj.nAsset), ('commitment', e.obj.nNonce)]
    if e.kind == 'in':
        inner += [('issuance', e.obj.assetIssuance)]
    for kind, o in inner:
        for s in SLOTS.get(kind, {'issuance': ('nAmount', 'nInflationKeys', 'assetEntropy', 'assetBlindingNonce'),
                                  'commitment': ('commitment',)}.get(kind)):
            refuse(sim, o, s, 0, 'the immutable %s in %s' % (kind, e.kind))


def scribble(sim, w):
    """the owners of buffers and lists go on using them"""
    sim.op('scribble', len(w.buffers), len(w.lists))
    w.edited = True
    for b in w.buffers:
        if b:
            b[sim.draw(len(b), 'at')] ^= 0xff
            if sim.chance(1, 3, 'clear'):
                del b[:]
    for li in w.lists:
        if li and sim.chance(1, 2, 'list'):
            if sim.chance(1, 2, 'pop'):
                li.pop()
            else:
                li.append(li[0])


def compare(sim, w):
    a = w.ents[sim.draw(len(w.ents), 'a')]
    same = [e for e in w.ents if e.kind == a.kind]
    b = same[sim.draw(len(same), 'b')]
    want = ENC[a.kind](a.model) == ENC[b.kind](b.model)
    sim.op('compare', a.kind, want)
    sim.check((a.obj == b.obj) == want and (b.obj == a.obj) == want and (a.obj != b.obj) != want, 'equality',
              'equality of two %s is not equality of their content' % a.kind)
    for d in list(w.dict.values()):
        (o, e), = d.items()
        sim.check(d.get(o) is e, 'dict-key', 'an immutable object was not found under its own key')


def observe(sim, w):
    e = w.ents[sim.draw(len(w.ents), 'which')]
    sim.op('observe', e.kind, e.mutable)
    repr(e.obj), str(e.obj)
    if e.kind == 'tx':
        e.obj.serialize(include_witness=False)
        e.obj.is_null(), e.obj.has_witness(), e.obj.num_issuances
        if e.obj.vin:
            e.obj.is_coinbase()
    if not e.mutable and e.snap:
        sim.eq(repr(e.obj), e.snap[1], 'immutable-changed', 'repr')


def run(sim):
    select(sim.pick(CHAINS, 'chain'))
    w = World(sim)
    build(sim, w)
    ops = ((5, convert), (6, edit), (3, build), (3, take_part), (2, scribble), (2, attack), (2, compare), (2, observe))
    for _ in range(sim.irange(4, 14, 'nops')):
        sim.wpick(ops, 'op')(sim, w)
        if len(w.ents) > 18:
            w.ents = w.ents[-12:]
        w.verify_all('after the step')
        sim.advance(1000)
