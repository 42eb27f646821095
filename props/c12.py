"""C12: parties that do not trust each other blind one transaction together"""

from sim import ct, gen, ref, world
from sim.node import Node, Reject, ZERO32, nat
from sim.sched import Net
from sim.tape import HarnessError

ID = 'C12'
TECHNIQUE = ('simulated protocol runs over a faulty network: parties that know only their own inputs blind their outputs in turn '
             '(all inputs agreed beforehand, or each party appending its own), with messages lost, repeated, delayed and reordered, '
             'parties that crash before and after storing their step, failing native calls, and malformed commitments; the independent node '
             'judges the result, and owners unblind and spend')
RUNS = {'quick': 1600, 'thorough': 30000}
RULE = ('non-trivial: at least two parties blinded something in one transaction that reached the ledger; told apart by the event trace')
STATES = '(protocol, parties, per party: kinds of inputs, issuances, number of outputs blinded, forms of descriptors and commitments)'
REAL = ['elementstx.core: blind_transaction, unblinding, codec', 'bitcointx', 'libsecp256k1 (keys, ECDH)']
STUB = ['secp256k1-zkp: native/simzkp.c', 'network, clocks and storage of the parties', 'ledger and node: sim/node.py',
        'operating system randomness']
ASSUMPTIONS = ['parties supply the asset commitments that the ledger shows for each input, in the order of the network',
               'only the last party blinds issuances (as in Elements Core: blinding after that is refused)',
               'a token is not issued together with a blinded asset when earlier parties have to prove against it without commitments',
               'native/simzkp.c implements secp256k1-zkp']


def warmup():
    world.warm_native()


class Party:
    def __init__(self, no):
        self.no = no
        self.name = 'p%d' % no
        self.ins = []
        self.blinds = []        # outputs it blinds
        self.appends = []       # outputs it adds (append protocol)
        self.public = False     # gives descriptors for explicit inputs of others
        self.disk = None        # raw transaction after its step, once synced
        self.volatile = None
        self.acked = False
        self.final = None


def split_out(sim, p, k):
    """output k becomes two; -> index of the new one"""
    o = p.outs[k]
    v = 1 + sim.draw(o['amount'] - 1, 'split') if o['amount'] > 1 else 0
    if not v:
        return None
    n = dict(o, amount=v, key=None, script=ct.script(sim, 'p2wpkh'))
    o['amount'] -= v
    p.outs.append(n)
    return len(p.outs) - 1


class Deal:
    """who owns, knows, adds and blinds what"""

    def __init__(self, sim):
        self.sim = sim
        self.append = sim.chance(1, 2, 'append-protocol')
        n = sim.irange(2, 4 if sim.data['light'] else 2, 'parties')
        self.parties = [Party(k) for k in range(n)]
        owners = []
        coins = []
        na = sim.irange(1, 3, 'n-assets')
        for q in self.parties:
            for _ in range(sim.pick((9, 12), 'n-own') if sim.chance(1, 60, 'many-own') else sim.irange(1, 2, 'n-own')):
                owners.append(q.no)
                coins.append(ct.coin(sim, ct.asset_tag(sim.draw(na, 'asset')), 2 + ct.amount(sim, cap=1 << 40),
                                     sim.wpick(((5, 'blinded'), (3, 'explicit'), (1, 'value'), (1, 'asset')), 'coin-kind')))
        if not self.append:
            order = sim.shuffle(range(len(coins)), 'in-order')
            owners = [owners[k] for k in order]
            coins = [coins[k] for k in order]
        seen = set()
        for k, cn in enumerate(coins):
            if cn.point in seen:
                cn.point = (ref.sha(cn.point[0] + b'%d' % k), cn.point[1])
            seen.add(cn.point)
        for i, w in enumerate(owners):
            self.parties[w].ins.append(i)
        self.owner = owners
        p = self.plan = ct.plan(sim, coins=coins, issuances=sim.chance(1, 3, 'issuances'), full=sim.chance(1, 3, 'full'),
                                max_out=6, ensure=False)
        p.tail_style = 0
        for o in p.outs:
            o['key'] = None
        self.limit_issuances()
        for q in self.parties:
            q.public = sim.chance(1, 3, 'public-descriptors')
        self.share()
        ct.set_params(sim, p)

    def limit_issuances(self):
        """only the last party blinds issuances; tokens keep the identifier that all can compute"""
        p = self.plan
        last = len(self.parties) - 1
        for i, x in enumerate(p.iss):
            if x is None:
                continue
            old = p.ids(i)
            if self.owner[i] != last:
                x['akey'] = x['tkey'] = None
            elif not self.append and x['tokens'] is not None:
                x['akey'] = None
            x['conf'] = x['akey'] is not None
            new = p.ids(i)
            for o in p.outs:
                if o['asset'] == old[2]:
                    o['asset'] = new[2]

    def present(self, q):
        """inputs that are in the transaction when it is the party's turn"""
        return range(len(self.owner)) if not self.append else [i for i, w in enumerate(self.owner) if w <= q.no]

    def knows(self, q):
        p = self.plan
        out = set()
        for i in self.present(q):
            cn = p.coins[i]
            if self.owner[i] == q.no or (q.public and cn.abf == ZERO32):
                out.add(cn.asset)
            x = p.iss[i]
            if x is not None:
                _, a, tok = p.ids(i)
                if x['amount'] is not None:
                    out.add(a)
                if x['tokens'] is not None:
                    out.add(tok)
        return out

    def has_blinded_in(self, q):
        p = self.plan
        return any(p.coins[i].vbf != ZERO32 or p.coins[i].abf != ZERO32 for i in q.ins)

    def blind_iss(self, q):
        p = self.plan
        return [(i, f) for i in q.ins if p.iss[i] is not None
                for f in ('akey', 'tkey') if p.iss[i][f] is not None]

    def share(self):
        sim, p = self.sim, self.plan
        know = {q.no: self.knows(q) for q in self.parties}
        who = {}
        for k, o in enumerate(p.outs):
            if not o['script'] or o['amount'] == 0:
                continue
            c = [q.no for q in self.parties if o['asset'] in know[q.no]]
            if c and sim.chance(4, 5, 'blind-out'):
                who[k] = sim.pick(c, 'blinder')
        self.ok = True
        for q in self.parties:
            need = self.has_blinded_in(q) or self.blind_iss(q)
            mine = [k for k in who if who[k] == q.no]
            if need and not mine:
                free = [k for k, o in enumerate(p.outs) if o['script'] and o['amount'] and k not in who and o['asset'] in know[q.no]]
                if free:
                    who[sim.pick(free, 'fix')] = q.no
                    continue
                c = [k for k, o in enumerate(p.outs) if o['script'] and o['amount'] > 1 and o['asset'] in know[q.no]]
                if not c:
                    self.ok = False
                    return
                who[split_out(sim, p, sim.pick(c, 'fix'))] = q.no
            elif not need and len(mine) == 1:
                del who[mine[0]]
        # owners and keys
        for k, o in enumerate(p.outs):
            o['to'] = sim.draw(len(self.parties), 'to')
            o['bkey'] = None
            if k in who:
                o['bkey'] = gen.secret(sim, 'bkey')
        if self.append:
            add = {}
            for k, o in enumerate(p.outs):
                add[k] = who.get(k, sim.draw(len(self.parties), 'adder'))
            order = sorted(range(len(p.outs)), key=lambda k: (add[k], k))
            p.outs = [p.outs[k] for k in order]
            who = {n: who[k] for n, k in enumerate(order) if k in who}
            for n, k in enumerate(order):
                self.parties[add[k]].appends.append(n)
        for k, w in who.items():
            self.parties[w].blinds.append(k)

    # ---- what a party hands to the library
    def targets_of(self, i):
        """public commitments of input i in the order of the network"""
        p = self.plan
        out = [p.coins[i].generator()]
        x = p.iss[i]
        if x is not None:
            _, a, tok = p.ids(i)
            if x['amount'] is not None:
                out.append(nat().generator(a))
            if x['tokens'] is not None:
                out.append(nat().generator(tok))
        return out

    def request(self, q):
        import elementstx.core as c
        from bitcointx.core import Uint256
        from bitcointx.core.key import CPubKey
        sim, p = self.sim, self.plan
        here = self.present(q)
        desc, aux = [], []
        hidden = False
        zeros = sim.chance(1, 4, 'zero-commitments')
        for i in here:
            cn = p.coins[i]
            if self.owner[i] == q.no:
                desc.append(cn.descriptor())
                aux.append(b'\x00' * 33 if zeros else cn.generator())
            elif q.public and cn.abf == ZERO32:
                desc.append(c.BlindingInputDescriptor(asset=c.CAsset(cn.asset), amount=sim.pick((0, -1, 5), 'public-amount'),
                                                      blinding_factor=Uint256(), asset_blinding_factor=Uint256()))
                aux.append(b'\x00' * 33 if zeros else cn.generator())
            else:
                hidden = True
                desc.append(c.BlindingInputDescriptor(asset=c.CAsset(), amount=sim.pick((-1, 0, 7), 'hidden-amount'),
                                                      blinding_factor=Uint256(), asset_blinding_factor=Uint256()))
                aux.append(cn.generator())
        extra = []
        if self.append:
            for i in range(len(self.owner)):
                if i not in here:
                    extra += self.targets_of(i)
        nout = self.n_outs(q)
        pk = [CPubKey() for _ in range(nout)]
        for k in q.blinds:
            pk[k] = ct.pub(p.outs[k]['bkey'])
        if sim.chance(1, 3, 'short-pubkeys'):
            while pk and not pk[-1]:
                pk.pop()
        kw = dict(input_descriptors=desc, output_pubkeys=pk)
        if hidden or extra or sim.chance(1, 2, 'aux-anyway'):
            kw['auxiliary_generators'] = [bytearray(a) if sim.chance(1, 6, 'aux-bytearray') else a for a in aux + extra]
        ak = [None] * len(here)
        tk = [None] * len(here)
        for i, f in self.blind_iss(q):
            (ak if f == 'akey' else tk)[i] = ct.seckey(p.iss[i][f])
        if any(ak):
            kw['blind_issuance_asset_keys'] = ak
        if any(tk):
            kw['blind_issuance_token_keys'] = tk
        if p.exp is not None and sim.chance(2, 3, 'own-exp'):
            kw['custom_ct_exponent'] = p.exp
        if p.bits is not None:
            kw['custom_ct_bits'] = p.bits
        return kw

    def n_outs(self, q):
        if not self.append:
            return len(self.plan.outs)
        return sum(len(r.appends) for r in self.parties if r.no <= q.no)

    def show(self):
        return ' '.join('%s:in=%s%s b=%d' % (q.name, ','.join(
            'b' if self.plan.coins[i].vbf != ZERO32 and self.plan.coins[i].abf != ZERO32 else
            'v' if self.plan.coins[i].vbf != ZERO32 else 'a' if self.plan.coins[i].abf != ZERO32 else 'e' for i in q.ins),
            '+' + ''.join(f[0] for _, f in self.blind_iss(q)) if self.blind_iss(q) else
            '+i' if any(self.plan.iss[i] for i in q.ins) else '', len(q.blinds)) for q in self.parties)


class RandFail(Exception):
    pass


def model_part(d, q):
    """the unblinded transaction as far as parties up to q have added to it"""
    t = d.plan.model()
    if d.append:
        ni, no = len(list(d.present(q))), d.n_outs(q)
        for a, b in (('vin', ni), ('inwit', ni), ('vout', no), ('outwit', no)):
            t[a] = t[a][:b]
    return t


class Run:
    def __init__(self, sim, d):
        self.sim = sim
        self.d = d
        self.node = Node()
        for cn in d.plan.coins:
            self.node.fund(cn.point[0], cn.point[1], cn.out)
        self.net = Net(sim, [q.name for q in d.parties], sim.pick((True, True, False), 'net-faults'))
        for q in d.parties:
            self.net.handlers[q.name] = self.handler(q)
        self.tid = None
        self.raw = None
        self.crashes = 0

    def handler(self, q):
        def h(src, msg):
            kind = msg[0]
            if self.net.down.get(q.name) and kind != 'up':
                return
            if kind == 'up':
                self.net.down[q.name] = False
                self.resume(q)
            elif kind == 'tick':
                self.tick(q)
            elif kind == 'step':
                self.step(q, msg[1])
            elif kind == 'ack':
                q.acked = True
            elif kind == 'final':
                q.final = msg[1]
        return h

    def crash(self, q, where):
        sim = self.sim
        sim.fault('crash-' + where)
        sim.op('crash', q.name, where)
        q.volatile = None
        self.crashes += 1
        self.net.down[q.name] = True
        self.net.timer(q.name, 1 + sim.draw(5000, 'downtime'), ('up',))

    def resume(self, q):
        q.volatile = q.disk
        self.net.timer(q.name, 100, ('tick',))

    def tick(self, q):
        """send again what has not been acknowledged"""
        if self.tid is not None and q.final is not None:
            return
        last = q.no == len(self.d.parties) - 1
        if q.no == 0 and q.volatile is None:
            self.step(q, None)
            if self.net.down.get(q.name):
                return
        if q.volatile is not None:
            if last:
                self.broadcast(q)
            elif not q.acked:
                self.net.send(q.name, 'p%d' % (q.no + 1), ('step', q.volatile))
        self.net.timer(q.name, 3000, ('tick',))

    def step(self, q, raw):
        sim = self.sim
        if q.volatile is None:
            c = sim.draw(8, 'crash-point') if self.crashes < 3 else 0
            if c == 7:
                return self.crash(q, 'before-step')
            out = self.blind(q, raw)
            if c == 6:
                return self.crash(q, 'before-store')
            q.volatile = out
            early = c == 5
            if early and q.no + 1 < len(self.d.parties):
                # it goes out before it is on disk
                self.net.send(q.name, 'p%d' % (q.no + 1), ('step', out))
                return self.crash(q, 'after-send')
            q.disk = out
            if c == 4:
                return self.crash(q, 'after-store')
        if q.no > 0:
            self.net.send(q.name, 'p%d' % (q.no - 1), ('ack',))
        if q.no + 1 < len(self.d.parties):
            self.net.send(q.name, 'p%d' % (q.no + 1), ('step', q.volatile))
        else:
            self.broadcast(q)

    def broadcast(self, q):
        sim = self.sim
        try:
            tid = self.node.submit(q.volatile)
        except Reject as e:
            sim.fail('rejected', 'the network rejects a transaction that all parties blinded successfully: %s; %s %s' % (
                e, self.d.show(), self.d.plan.describe()))
        self.tid, self.raw = tid, q.volatile
        q.final = q.volatile
        for r in self.d.parties:
            if r is not q and r.final is None:
                self.net.send(q.name, r.name, ('final', q.volatile))

    # ---- one party's turn
    def load(self, q, raw, lazy=False):
        """working copy: the agreed draft or what came in, with own parts appended"""
        import elementstx.core as c
        sim, d = self.sim, self.d
        if raw is None:
            t = model_part(d, q)
            k = sim.draw(3, 'first-build')
            if k == 0:
                return gen.lib_tx(t, mutable=True)
            if k == 1:
                return c.CElementsMutableTransaction.deserialize(ref.encode(t))
            return gen.lib_tx(t, mutable=False).to_mutable()
        k = sim.draw(3, 'load')
        if k == 0:
            tx = c.CElementsMutableTransaction.deserialize(raw)
        elif k == 1:
            tx = c.CElementsTransaction.deserialize(raw).to_mutable()
        else:
            tx = c.CElementsMutableTransaction.from_tx(c.CElementsTransaction.deserialize(raw))
        if d.append:
            full = model_part(d, q)
            have_i, have_o = len(tx.vin), len(tx.vout)
            wit = bool(tx.wit.vtxinwit) or bool(tx.wit.vtxoutwit)
            for i in range(have_i, len(full['vin'])):
                tx.vin.append(gen.lib_in(full['vin'][i], True))
                if wit or any(not ref.inwit_null(w) for w in full['inwit']):
                    while len(tx.wit.vtxinwit) < i:
                        tx.wit.vtxinwit.append(c.CElementsMutableTxInWitness())
                    tx.wit.vtxinwit.append(gen.lib_inwit(full['inwit'][i], True))
            for k in range(have_o, len(full['vout'])):
                tx.vout.append(gen.lib_out(full['vout'][k], True))
                if wit and not lazy:
                    while len(tx.wit.vtxoutwit) < k + 1:
                        tx.wit.vtxoutwit.append(c.CElementsMutableTxOutWitness())
        return tx

    def blind(self, q, raw):
        import elementstx.core as c
        sim, d = self.sim, self.d
        hides = bool(q.blinds or d.blind_iss(q))
        bad = hides and sim.chance(1, 5, 'bad-request')
        tx = self.load(q, raw, lazy=hides and not bad and sim.chance(1, 2, 'pad-outwit'))
        before = expected_before(d, q, raw)
        self.look(q, raw)
        if not hides:
            # nothing of its own to hide: passes it on
            out = tx.serialize()
            sim.op('pass', q.name)
            self.untouched(q, before, ref.decode(out)[0], set(), set())
            return out
        if bad:
            self.bad_request(q, tx, raw)
        if sim.chance(1, 8, 'fail-first'):
            # the first attempt fails in the middle; the working copy is thrown away
            self.failing_attempt(q, raw)
        kw = d.request(q)
        r = tx.blind(**kw)
        sim.check(isinstance(r, c.BlindingSuccess), 'refused', lambda: '%s cannot blind its part: %s; %s %s' % (
            q.name, r, d.show(), d.plan.describe()))
        n = len(q.blinds) + len(d.blind_iss(q))
        sim.eq(r.num_successfully_blinded, n, 'count', q.name)
        out = tx.serialize()
        after, end = ref.decode(out)
        sim.check(end == len(out), 'wire', q.name)
        self.untouched(q, before, after, set(q.blinds), {i for i, _ in d.blind_iss(q)})
        for k in q.blinds:
            sim.check(len(after['vout'][k]['value']) == 33, 'not-blinded', '%s: output %d' % (q.name, k))
            o = d.plan.outs[k]
            g = nat().generator(o['asset'], r.asset_blinding_factors[k].data)
            sim.check(after['vout'][k]['asset'] == g, 'factors', '%s: asset of output %d' % (q.name, k))
            sim.check(after['vout'][k]['value'] == nat().commit(r.blinding_factors[k].data, o['amount'], g), 'factors',
                      '%s: value of output %d' % (q.name, k))
        for k, (a, b) in enumerate(zip(r.blinding_factors, r.asset_blinding_factors)):
            if k not in q.blinds:
                sim.check(a.data == ZERO32 and b.data == ZERO32, 'factors', '%s: factors of foreign output %d' % (q.name, k))
        sim.op('blinded', q.name, n)
        sim.probe('steps')
        return out

    def untouched(self, q, before, after, outs, ins):
        sim = self.sim
        for f in ('version', 'locktime'):
            sim.eq(after[f], before[f], 'disturbed', f)
        sim.check(len(after['vin']) == len(before['vin']) and len(after['vout']) == len(before['vout']), 'disturbed', 'counts')
        for i in range(len(before['vin'])):
            a, b = after['vin'][i], before['vin'][i]
            if i in ins:
                a, b = dict(a, iss=None), dict(b, iss=None)
            sim.check(same_in(a, b), 'disturbed', lambda: '%s changed input %d' % (q.name, i))
            if i not in ins:
                sim.check(after['inwit'][i] == before['inwit'][i], 'disturbed', lambda: '%s changed witness of input %d' % (q.name, i))
        for k in range(len(before['vout'])):
            if k in outs:
                sim.check(after['vout'][k]['script'] == before['vout'][k]['script'], 'disturbed', lambda: 'script of output %d' % k)
            else:
                sim.check(after['vout'][k] == before['vout'][k] and after['outwit'][k] == before['outwit'][k], 'disturbed',
                          lambda: '%s changed output %d that is not its own' % (q.name, k))

    def look(self, q, raw):
        """checks what is already blinded for it by others"""
        import elementstx.core as c
        if raw is None:
            return
        sim, d = self.sim, self.d
        t, _ = ref.decode(raw)
        for r in d.parties:
            if r.no >= q.no:
                continue
            for k in r.blinds:
                o = d.plan.outs[k]
                if o['to'] != q.no or not sim.chance(1, 2, 'check-early'):
                    continue
                u = c.unblind_confidential_pair(**ct.unblind_kw(t['vout'][k], t['outwit'][k]['rp'], o['bkey']))
                sim.check(u.ok and u.amount == o['amount'] and u.asset.data == o['asset'], 'early-unblind',
                          lambda: '%s cannot open output %d blinded by %s: %s' % (q.name, k, r.name, u))

    def bad_request(self, q, tx, raw):
        import elementstx.core as c
        sim, d = self.sim, self.d
        kw = d.request(q)
        snap = tx.serialize()
        k = sim.draw(6, 'bad')
        aux = list(kw.get('auxiliary_generators', ()))
        hid = [i for i, x in enumerate(kw['input_descriptors']) if x.asset.data == ZERO32]
        if k == 0 and aux:
            kw['auxiliary_generators'] = aux[:len(tx.vin) - 1]
            if not kw['auxiliary_generators'] and not hid:
                return
        elif k == 1 and aux:
            i = sim.draw(len(aux), 'which')
            kw['auxiliary_generators'][i] = bytes(aux[i])[:32] if sim.chance(1, 2, 'short') else bytes(aux[i]) + b'\0'
        elif k == 2 and hid:
            # damaged on its way: not a point, or not the encoding of one
            i = sim.pick(hid, 'which')
            b = bytearray(aux[i])
            b[0] = sim.pick((0, 1, 2, 3, 8, 9, 0x0c, 0xff), 'prefix')
            kw['auxiliary_generators'][i] = bytes(b)
        elif k == 3 and hid:
            kw.pop('auxiliary_generators')
        elif k == 4 and len(aux) > len(tx.vin):
            kw['auxiliary_generators'][-1] = b'\x0a' + b'\xff' * 32
        else:
            done = [j for r in d.parties if r.no < q.no for j in r.blinds]
            if not done:
                return
            j = sim.pick(done, 'which')
            pk = list(kw['output_pubkeys'])
            from bitcointx.core.key import CPubKey
            while len(pk) <= j:
                pk.append(CPubKey())
            pk[j] = ct.pub(d.plan.outs[j]['bkey'])
            kw['output_pubkeys'] = pk
        sim.fault('malformed-request')
        sim.op('bad', q.name, k)
        try:
            r = tx.blind(**kw)
        except (ValueError, TypeError):
            r = None
        sim.check(r is None or (isinstance(r, c.BlindingFailure) and r.error), 'bad-accepted', lambda: '%s: kind %d gave %s' % (q.name, k, r))
        sim.eq(tx.serialize(), snap, 'bad-request-changed-tx', '%s kind %d' % (q.name, k))

    def failing_attempt(self, q, raw):
        import elementstx.core as c
        sim, d = self.sim, self.d
        tx = self.load(q, raw)
        at = sim.draw(12, 'fail-at')
        n = [0]

        def rf(size):
            n[0] += 1
            if n[0] > at:
                sim.fault('randomness-error')
                raise RandFail()
            return sim.entropy(size)
        try:
            r = tx.blind(_rand_func=rf, **d.request(q))
        except RandFail:
            sim.op('attempt-failed', q.name)
            return
        sim.check(isinstance(r, c.BlindingSuccess), 'refused', lambda: '%s: %s' % (q.name, r))


def same_in(a, b):
    a, b = dict(a), dict(b)
    for x in (a, b):
        if ref.iss_null(x['iss']):
            x['iss'] = None
    return a == b


def expected_before(d, q, raw):
    """model of the working copy before the party's step"""
    t = model_part(d, q)
    if raw is None:
        return t
    m, _ = ref.decode(raw)
    for f in ('vin', 'vout', 'inwit', 'outwit'):
        t[f] = m[f] + t[f][len(m[f]):]
    return t


def after(sim, run, d):
    """owners find and spend what is theirs"""
    import elementstx.core as c
    t, _ = ref.decode(run.raw)
    coins = {q.no: [] for q in d.parties}
    for k, o in enumerate(d.plan.outs):
        pt = (run.tid, k)
        if o['bkey'] is None:
            if pt in run.node.utxo:
                coins[o['to']].append(ct.Coin(pt, o['asset'], o['amount'], ZERO32, ZERO32, t['vout'][k]))
            continue
        u = c.unblind_confidential_pair(**ct.unblind_kw(t['vout'][k], t['outwit'][k]['rp'], o['bkey']))
        sim.check(u.ok and u.amount == o['amount'] and u.asset.data == o['asset'], 'owner-unblind',
                  lambda: 'owner of output %d: %s' % (k, u))
        if pt in run.node.utxo:
            coins[o['to']].append(ct.Coin(pt, u.asset.data, u.amount, u.blinding_factor.data, u.asset_blinding_factor.data, t['vout'][k]))
    for q in d.parties:
        if not coins[q.no] or not sim.chance(1, 2, 'spend'):
            continue
        p = ct.plan(sim, coins=coins[q.no][:3], issuances=False, full=False, max_out=3)
        ct.set_params(sim, p)
        tx = p.build(sim.draw(6, 'style'))
        if p.blind_outs():
            r = tx.blind(**p.request())
            sim.check(isinstance(r, c.BlindingSuccess), 'spend-refused', lambda: '%s; %s' % (r, p.describe()))
        elif p.blinded_inputs():
            continue
        try:
            run.node.submit(tx.serialize())
        except Reject as e:
            sim.fail('spend-rejected', '%s; %s' % (e, p.describe()))
        sim.probe('spent')


def run(sim):
    world.select(sim.pick(world.ELEMENTS_CHAINS, 'chain'))
    ct.weigh(sim)
    d = Deal(sim)
    if not d.ok:
        sim.log('no such deal')
        return
    sim.op('deal', 'append' if d.append else 'agreed', d.show(), d.plan.describe())
    sim.state(d.append, d.show(), d.plan.shape())
    r = Run(sim, d)
    for q in d.parties:
        r.net.timer(q.name, 1, ('tick',))
    r.net.run(max_events=3000, until=lambda: r.tid is not None and all(q.final is not None for q in d.parties))
    if r.tid is None:
        # faults stop; every party gets its turn
        sim.fail('no-progress', 'the protocol did not finish although messages got through')
    for q in d.parties:
        if q.final is not None:
            sim.eq(q.final, r.raw, 'final', q.name)
    if sum(1 for q in d.parties if q.blinds) >= 2:
        sim.nontrivial = True
    after(sim, r, d)


__all__ = ['HarnessError']
