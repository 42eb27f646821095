"""C01: transactions survive storage, crashes and the wire"""

from sim import gen, ref
from sim.world import Disk, Stream, select, warm_native, CHAINS

ID = 'C01'
TECHNIQUE = 'wallet histories with crashes, torn writes and restarts against a reference codec'
RUNS = {'quick': 7000, 'thorough': 80000}
RULE = ('one evaluation is one simulated history of wallets that build, edit, convert, store, '
        'send, crash and reload transactions; it counts as non-trivial if at least one '
        'transaction was read back from bytes and compared with the reference model, and '
        'histories are told apart by the hash of their event trace')
STATES = 'digests of (number of inputs, outputs, witness shape, mutability, operation) tuples'
REAL = ['elementstx.core serialization, classes and conversions', 'bitcointx serializers']
STUB = ['disk and network (simulated)', 'reference encoder (sim/ref.py) as oracle']
ASSUMPTIONS = ['the reference encoder in sim/ref.py states the Elements wire format',
               'inputs with index 0x3fffffff that are peg-ins with issuance are excluded: their '
               'encoding is the coinbase marker']


def warmup():
    warm_native()


class Entry:
    def __init__(self, obj, model, mutable):
        self.obj = obj
        self.model = model
        self.mutable = mutable


def expect(sim, obj, model, what):
    """everything observable of one transaction against the model"""
    raw = obj.serialize()
    want = ref.encode(model)
    sim.eq(raw, want, 'encoding', what)
    sim.eq(obj.GetTxid(), ref.txid(model), 'txid', what)
    sim.eq(obj.GetHash(), ref.whash(model), 'hash', what)
    sim.eq(obj.has_witness(), ref.has_witness(model), 'has-witness', what)
    d = gen.diff(gen.norm(gen.from_lib(obj)), gen.norm(model))
    sim.check(d is None, 'fields', '%s: %s' % (what, d))
    n = sum((1 if i['iss']['amount'] else 0) + (1 if i['iss']['keys'] else 0)
            for i in model['vin'] if not ref.iss_null(i['iss']))
    sim.eq(obj.num_issuances, n, 'num-issuances', what)
    for x, o in zip(obj.vout, model['vout']):
        kinds(sim, x, o)
    for x, i in zip(obj.vin, model['vin']):
        sim.eq(x.is_final(), i['seq'] == 0xffffffff, 'final', what)
    sim.eq(obj.is_coinbase(), [(i['hash'], i['n']) for i in model['vin']] == [(b'\0' * 32, 0xffffffff)], 'coinbase', what)
    sim.eq(obj.wit.is_null(), not ref.has_witness(model), 'part-null', 'witness of ' + what)
    if ref.has_witness(model):
        sim.eq(obj.serialize(include_witness=False), ref.encode(model, witness=False),
               'encoding-without-witness', what)


def kinds(sim, x, o):
    """what an output says about itself"""
    sim.eq(x.is_null(), not (o['asset'] or o['value'] or o['nonce'] or o['script']), 'part-null', 'output')
    sim.eq(x.is_fee(), not o['script'] and o['value'][:1] == b'\x01' and o['asset'][:1] == b'\x01', 'fee-output', 'output')


def shape(m):
    return (len(m['vin']), len(m['vout']), sum(not ref.inwit_null(w) for w in m['inwit']),
            sum(not ref.outwit_null(w) for w in m['outwit']),
            sum(not ref.iss_null(i['iss']) for i in m['vin']))


def edit(sim, e):
    """one in-place edit, done to the object and to the model"""
    tx, m = e.obj, e.model
    c = gen.L()
    k = sim.draw(15, 'edit')
    while len(tx.wit.vtxinwit) < len(tx.vin):
        tx.wit.vtxinwit.append(c.CElementsMutableTxInWitness())
    while len(tx.wit.vtxoutwit) < len(tx.vout):
        tx.wit.vtxoutwit.append(c.CElementsMutableTxOutWitness())
    sim.op('edit', k)
    if k == 0:
        m['locktime'] = gen.u32(sim, 'locktime')
        tx.nLockTime = m['locktime']
    elif k == 1:
        m['version'] = gen.version(sim)
        tx.nVersion = m['version']
    elif k == 2:
        i = gen.tx_in(sim)
        m['vin'].append(i)
        m['inwit'].append(ref.empty_inwit())
        tx.vin.append(gen.lib_in(i, sim.chance(1, 2, 'mut')))
        tx.wit.vtxinwit.append(c.CElementsMutableTxInWitness())
    elif k == 3:
        o = gen.tx_out(sim)
        m['vout'].append(o)
        m['outwit'].append(ref.empty_outwit())
        tx.vout.append(gen.lib_out(o, sim.chance(1, 2, 'mut')))
        tx.wit.vtxoutwit.append(c.CElementsMutableTxOutWitness())
    elif k in (4, 5, 6, 7, 8) and m['vin']:
        j = sim.draw(len(m['vin']), 'which')
        i, x = m['vin'][j], tx.vin[j]
        if k == 4:
            del m['vin'][j], m['inwit'][j], tx.vin[j], tx.wit.vtxinwit[j]
            return
        if not x.is_mutable():
            x = tx.vin[j] = x.to_mutable()
        if k == 5:
            i['seq'] = gen.u32(sim, 'seq')
            x.nSequence = i['seq']
        elif k == 6:
            if i['n'] == 0xffffffff:
                return
            i['iss'] = gen.issuance(sim)
            if i['n'] == 0x3fffffff and i['pegin']:
                i['iss'] = None
            x.assetIssuance = gen.lib_iss(i['iss'])
        elif k == 7:
            if i['n'] == 0xffffffff or (i['n'] == 0x3fffffff and not ref.iss_null(i['iss'])):
                return
            i['pegin'] = not i['pegin']
            x.is_pegin = i['pegin']
        else:
            i['script'] = gen.script_pool(sim)
            from elementstx.core.script import CElementsScript
            x.scriptSig = CElementsScript(i['script'])
    elif k in (9, 10, 11) and m['vout']:
        j = sim.draw(len(m['vout']), 'which')
        o, x = m['vout'][j], tx.vout[j]
        if k == 9:
            del m['vout'][j], m['outwit'][j], tx.vout[j], tx.wit.vtxoutwit[j]
            return
        if not x.is_mutable():
            x = tx.vout[j] = x.to_mutable()
        if k == 10:
            o['value'] = gen.value_comm(sim)
            x.nValue = c.CConfidentialValue(o['value'])
            o['asset'] = gen.asset_comm(sim)
            x.nAsset = c.CConfidentialAsset(o['asset'])
        else:
            o['nonce'] = gen.nonce_comm(sim)
            x.nNonce = c.CConfidentialNonce(o['nonce'])
    elif k == 12 and m['vin']:
        j = sim.draw(len(m['vin']), 'which')
        m['inwit'][j] = gen.in_wit(sim)
        tx.wit.vtxinwit[j] = gen.lib_inwit(m['inwit'][j], sim.chance(1, 2, 'mut'))
    elif k == 13 and m['vout']:
        j = sim.draw(len(m['vout']), 'which')
        m['outwit'][j] = gen.out_wit(sim)
        tx.wit.vtxoutwit[j] = gen.lib_outwit(m['outwit'][j], sim.chance(1, 2, 'mut'))
    elif k == 14:
        m['inwit'] = [ref.empty_inwit() for _ in m['vin']]
        m['outwit'] = [ref.empty_outwit() for _ in m['vout']]
        tx.wit = gen.lib_wit(m, True, sim.draw(4, 'trim'))


def parts(sim, obj, model):
    """components are readable on their own"""
    c = gen.L()
    k = sim.draw(10, 'part')
    sim.op('part', k)
    ins, outs = model['vin'], model['vout']
    if k == 0 and ins:
        j = sim.draw(len(ins), 'which')
        raw = obj.vin[j].serialize()
        sim.eq(raw, ref.enc_in(ins[j]), 'part-encoding', 'input')
        back = c.CElementsTxIn.deserialize(raw)
        d = gen.diff(gen.from_in(back), gen.norm(model)['vin'][j])
        sim.check(d is None, 'part-fields', 'input: %s' % d)
    elif k == 1 and outs:
        j = sim.draw(len(outs), 'which')
        raw = obj.vout[j].serialize()
        sim.eq(raw, ref.enc_out(outs[j]), 'part-encoding', 'output')
        back = c.CElementsTxOut.deserialize(raw)
        d = gen.diff(gen.from_out(back), outs[j])
        sim.check(d is None, 'part-fields', 'output: %s' % d)
        sim.eq(back.is_null(), not (outs[j]['asset'] or outs[j]['value'] or outs[j]['nonce']
                                    or outs[j]['script']), 'part-null')
    elif k == 2 and ins and obj.wit.vtxinwit:
        j = sim.draw(len(ins), 'which')
        w = model['inwit'][j]
        raw = obj.wit.vtxinwit[j].serialize()
        sim.eq(raw, ref.enc_inwit(w), 'part-encoding', 'input witness')
        d = gen.diff(gen.from_inwit(c.CElementsTxInWitness.deserialize(raw)), w)
        sim.check(d is None, 'part-fields', 'input witness: %s' % d)
    elif k == 3 and outs and obj.wit.vtxoutwit:
        j = sim.draw(len(outs), 'which')
        w = model['outwit'][j]
        raw = obj.wit.vtxoutwit[j].serialize()
        sim.eq(raw, ref.enc_outwit(w), 'part-encoding', 'output witness')
        d = gen.diff(gen.from_outwit(c.CElementsTxOutWitness.deserialize(raw)), w)
        sim.check(d is None, 'part-fields', 'output witness: %s' % d)
    elif k == 4 and ins:
        i = ins[sim.draw(len(ins), 'which')]
        if not ref.iss_null(i['iss']):
            a = gen.lib_iss(i['iss'])
            raw = a.serialize()
            sim.eq(raw, ref.enc_iss(i['iss']), 'part-encoding', 'issuance')
            d = gen.diff(gen.from_iss(c.CAssetIssuance.deserialize(raw)), i['iss'])
            sim.check(d is None, 'part-fields', 'issuance: %s' % d)
    elif k == 5 and outs:
        o = outs[sim.draw(len(outs), 'which')]
        for f, cls in (('value', c.CConfidentialValue), ('asset', c.CConfidentialAsset),
                       ('nonce', c.CConfidentialNonce)):
            raw = cls(o[f]).serialize()
            sim.eq(raw, ref.enc_comm(o[f]), 'part-encoding', f)
            back = cls.deserialize(raw)
            sim.eq(bytes(back.commitment), o[f], 'part-fields', f)
            sim.eq(back.is_null(), not o[f], 'part-null', f)
            sim.eq(back.is_explicit(), bool(o[f]) and o[f][0] == 1, 'part-explicit', f)
            sim.eq(back.is_commitment(), bool(o[f]) and o[f][0] != 1, 'part-commitment', f)
        a = ref.explicit_amount(o['value'])
        if a is not None:
            v = c.CConfidentialValue(o['value'])
            sim.eq(v.to_amount(), a, 'explicit-value')
            sim.eq(c.CConfidentialValue(a).serialize(), o['value'], 'explicit-value', 'from number')
        if o['asset'][:1] == b'\x01':
            sim.eq(c.CConfidentialAsset(o['asset']).to_asset().data, o['asset'][1:], 'explicit-asset')
            sim.eq(c.CConfidentialAsset(c.CAsset(o['asset'][1:])).serialize(), o['asset'],
                   'explicit-asset', 'from asset')
    elif k == 6 and obj.wit.vtxinwit and obj.wit.vtxoutwit and ins and outs:
        raw = obj.wit.serialize()
        back = c.CElementsTxWitness.deserialize(raw, num_inputs=len(ins), num_outputs=len(outs))
        sim.check(back.serialize() == raw, 'part-fields', 'witness')
    elif k == 7 and ins:
        i = ins[sim.draw(len(ins), 'which')]
        raw = c.CElementsOutPoint(i['hash'], i['n']).serialize()
        sim.eq(raw, ref.enc_outpoint(i), 'part-encoding', 'outpoint')
        back = c.CElementsOutPoint.deserialize(raw)
        sim.check((back.hash, back.n) == (i['hash'], i['n']), 'part-fields', 'outpoint')
    elif k == 8:
        # parts of which some fields are null
        o = gen.tx_out(sim)
        for f, null in (('asset', b''), ('value', b''), ('nonce', b''), ('script', b'')):
            if sim.chance(2, 3, 'null-field'):
                o[f] = null
        x = gen.lib_out(o, sim.chance(1, 2, 'mut'))
        sim.eq(x.serialize(), ref.enc_out(o), 'part-encoding', 'output')
        kinds(sim, x, o)
        w = gen.in_wit(sim)
        for f, null in (('amount_rp', b''), ('keys_rp', b''), ('stack', []), ('pegin', [])):
            if sim.chance(2, 3, 'null-field'):
                w[f] = null
        x = gen.lib_inwit(w, sim.chance(1, 2, 'mut'))
        sim.eq(x.serialize(), ref.enc_inwit(w), 'part-encoding', 'input witness')
        sim.eq(x.is_null(), ref.inwit_null(w), 'part-null', 'input witness')
        w = gen.out_wit(sim)
        for f in ('sp', 'rp'):
            if sim.chance(1, 2, 'null-field'):
                w[f] = b''
        x = gen.lib_outwit(w, sim.chance(1, 2, 'mut'))
        sim.eq(x.serialize(), ref.enc_outwit(w), 'part-encoding', 'output witness')
        sim.eq(x.is_null(), ref.outwit_null(w), 'part-null', 'output witness')
    elif k == 9:
        # an index that an input cannot have, as its highest bits are flags on the wire
        n = sim.pick((1 << 30, 1 << 31, 3 << 30, 0xfffffffe), 'flag') | sim.draw(4, 'low')
        if n != 0xffffffff:
            i = gen.tx_in(sim, coinbase_ok=False)
            i['n'] = n
            try:
                raw = gen.lib_in(i, sim.chance(1, 2, 'mut')).serialize()
            except Exception:       # noqa
                return
            sim.fail('part-encoding', 'an input with index %x was written as %s' % (n, raw.hex()))


def run(sim):
    c = gen.L()
    from bitcointx.core import CTransaction, CMutableTransaction, b2x, x
    chain = sim.pick(CHAINS, 'chain')
    select(chain)
    sim.log('chain', chain)
    elem = chain.startswith('elements')
    faults = sim.chance(3, 4, 'faults-on')
    disk = Disk(sim)
    durable = []        # models of what was appended, in order; True if synced
    live = []
    read_classes = [c.CElementsTransaction, c.CElementsMutableTransaction]
    if elem:
        read_classes += [CTransaction, CMutableTransaction]
    nops = sim.irange(4, 16, 'nops')
    for _ in range(nops):
        op = sim.draw(11, 'op')
        if not live or op == 0:
            m = gen.tx(sim, big=sim.chance(1, 6, 'big'))
            if sim.chance(1, 60, 'enlarged'):
                gen.enlarge(sim, m)
            mut = sim.chance(1, 2, 'mutable')
            style = sim.draw(32, 'style')
            e = Entry(gen.lib_tx(m, mut, style), m, mut)
            live.append(e)
            sim.op('new', mut, style, gen.digest(m))
            expect(sim, e.obj, m, 'new')
            sim.state('new', mut, style, shape(m))
            continue
        e = live[sim.draw(len(live), 'entry')]
        sim.state(op, e.mutable, shape(e.model))
        if op in (1, 2, 3):
            if not e.mutable:
                e = Entry(e.obj.to_mutable(), gen.copy(e.model), True)
                live.append(e)
            edit(sim, e)
            if sim.chance(2, 3, 'observe'):
                expect(sim, e.obj, e.model, 'edited')
        elif op == 4:
            k = sim.draw(4, 'conv')
            sim.op('convert', k)
            o = (e.obj.to_immutable, e.obj.to_mutable,
                 lambda: c.CElementsTransaction.from_tx(e.obj),
                 lambda: c.CElementsMutableTransaction.from_tx(e.obj))[k]()
            sim.check(bool(o.is_mutable()) == bool(k & 1), 'conversion', 'mutability')
            ne = Entry(o, gen.copy(e.model), bool(k & 1))
            live.append(ne)
            expect(sim, o, ne.model, 'converted')
        elif op in (5, 6):
            # append to the wallet file, through its stream
            sim.op('store', gen.digest(e.model))
            s = Stream(sim)
            e.obj.stream_serialize(s)
            sim.eq(bytes(s.out), ref.encode(e.model), 'encoding', 'stored')
            disk.append(bytes(s.out))
            durable.append([gen.norm(e.model), False])
            if op == 5:
                disk.sync()
                for d in durable:
                    d[1] = True
        elif op == 7:
            # through the network, as hex
            sim.op('send')
            raw = x(b2x(e.obj.serialize()))
            cls = sim.pick(read_classes, 'read-class')
            back = cls.deserialize(raw)
            sim.nontrivial = True
            expect(sim, back, gen.norm(e.model), 'received')
            sim.check(back == e.obj and e.obj == back, 'equality', 'received copy differs')
            sim.check(hash(back) == hash(e.obj), 'equality', 'hash of received copy')
            sim.check(bool(back.is_mutable()) == ('Mutable' in cls.__name__), 'conversion',
                      'mutability of received copy')
            live.append(Entry(back, gen.norm(e.model), bool(back.is_mutable())))
        elif op in (8, 9):
            # the process dies; or just restarts in an orderly way
            orderly = op == 9 or not faults
            sim.op('restart' if orderly else 'crash')
            if orderly:
                disk.sync()
                keep = len(durable)
            else:
                sim.fault('crash')
                disk.crash(torn=True)
                keep = None
            live = []
            data = disk.contents()
            s = Stream(sim, data)
            got = []
            pos = 0
            cls = sim.pick(read_classes, 'read-class')
            for d in durable:
                raw = ref.encode(d[0])
                if pos + len(raw) > len(data):
                    break
                o = cls.stream_deserialize(s)
                sim.eq(s.pos, pos + len(raw), 'consumed', 'bytes consumed from the file')
                pos += len(raw)
                expect(sim, o, d[0], 'reloaded')
                sim.nontrivial = True
                got.append(d)
                live.append(Entry(o, gen.copy(d[0]), bool(o.is_mutable())))
            sim.check(keep is None or len(got) == keep, 'durability',
                      'transactions lost in an orderly restart')
            sim.check(len(got) >= sum(1 for d in durable if d[1]), 'durability',
                      'synced transactions lost')
            if pos < len(data):
                # torn tail: must be refused, and is then cut off
                try:
                    cls.stream_deserialize(s)
                except Exception:
                    sim.probe('torn-tail-refused')
                else:
                    sim.fail('torn-tail', 'a torn record was read as a transaction')
                disk.synced = data[:pos]
            durable = [[d[0], True] for d in got]
        elif op == 10:
            parts(sim, e.obj, e.model)
        sim.advance(1000)
        if len(live) > 6:
            live = live[-4:]
    for e in live:
        expect(sim, e.obj, e.model, 'at the end')
