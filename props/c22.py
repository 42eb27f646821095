"""C22: the example programs, run as they are by simulated participants"""

import decimal
import hashlib

from sim import daemon, programs, ref, refaddr as R, world
from sim.procs import Procs, pipe
from sim.tapscript import ops
from sim.tape import HarnessError

ID = 'C22'
TECHNIQUE = ('the programs in examples/ are run unmodified as simulated processes (their own pipes, RPC calls, sleeps and files are served '
             'by the simulator) against simulated Elements and Bitcoin daemons that validate with independent code, under seeded '
             'scheduling, message and relay delays, silence, crashes at any call, failing RPC, and counterparties that lie; the ledger says '
             'at the end who holds what')
RUNS = {'quick': 1200, 'thorough': 12000}
RULE = ('non-trivial: in swaps both participants got as far as an offer or a payment, in the other programs a transaction or listing was '
        'printed; told apart by the event trace')
STATES = '(program, mode, kinds of addresses and coins, how far each participant came, who holds what)'
REAL = ['examples/asset-atomic-swap.py, confidential-cross-chain-atomic-swap.py, spend-to-confidential-address.py, unblind.py',
        'elementstx', 'bitcointx (keys, scripts, transactions, script checks)', 'libsecp256k1']
STUB = ['multiprocessing, time.sleep, files, RPC connections (seams of the programs)', 'ecdsa package', 'Elements and Bitcoin daemons: '
        'sim/daemon.py, sim/script.py, sim/node.py', 'secp256k1-zkp: native/simzkp.c', 'operating system randomness']
ASSUMPTIONS = ['in the cross-chain swap a participant that itself crashes, or whose own daemon fails, may lose: its disclaimer says so',
               'both chains of the cross-chain swap grow at about the same rate and transactions reach miners within seconds',
               'nobody reveals or reclaims within the two blocks around the end of the Elements timeout (a race of miners)',
               'miners follow the relay policy (clean stack, low S)', 'the coin that spend-to-confidential-address.py spends is of the asset '
               'in which the fee is paid', 'native/simzkp.c implements secp256k1-zkp']

SWAP = 'asset-atomic-swap.py'
CROSS = 'confidential-cross-chain-atomic-swap.py'
SPEND = 'spend-to-confidential-address.py'
SHOW = 'unblind.py'
TYPES = ('p2wpkh', 'p2sh', 'p2pkh')
LATE = ('hold-txid', 'hold-reveal')      # the liar waits until the refund is near
MORE = TYPES + ('p2wsh', 'p2tr')
SEC = 1000000


def warmup():
    world.warm_native()
    import elementstx.core      # noqa
    import elementstx.wallet    # noqa
    import bitcointx.rpc        # noqa
    for n in (SWAP, CROSS, SPEND, SHOW):
        programs.code(n)
    for n in (SWAP, CROSS):
        programs._without_main(n)


class Scene:
    def __init__(self, sim, names, elements='elements', bits=16):
        self.sim = sim
        self.procs = Procs(sim, 60000)
        self.elt = daemon.Chain(sim, True, elements)
        self.btc = daemon.Chain(sim, False, 'bitcoin/regtest')
        self.base = b'\7' + sim.bytes(31, 'base-asset')
        self.bits = bits
        self.ed, self.bd, self.ew, self.bw = {}, {}, {}, {}
        self.redirected = set()         # scripts that a liar put in the place of the victim's
        types = sim.pick((TYPES, TYPES[:1], TYPES[1:2], TYPES[2:]), 'address-types')
        for n in names:
            self.ed[n] = daemon.Daemon(self.elt, self.procs, n)
            self.bd[n] = daemon.Daemon(self.btc, self.procs, n)
            self.ew[n] = daemon.Wallet(sim, self.elt, n, types, self.base, bits)
            self.bw[n] = daemon.Wallet(sim, self.btc, 'btc ' + n, types)
        self.types = types
        self.before = {}        # name -> function(call, args) -> args, before an RPC call
        self.after = {}         # name -> function(call, args, result) -> result
        self.rpcs = {}
        self.ends = {}
        self.prepare = None     # function, when the pipe is there
        self.prog = None

    def rpc(self, name, conf):
        btc = conf.endswith('bitcoin.conf')
        kind = 'btc' if btc else 'elt'
        f = self.before.get(name)
        g = self.after.get(name)
        r = daemon.RPC((self.bd if btc else self.ed)[name], (self.bw if btc else self.ew)[name],
                       f and (lambda call, args: f(kind, call, args)), g and (lambda call, args, res: g(kind, call, args, res)))
        self.rpcs[name, kind] = r
        return r

    def pipes(self):
        a, b = pipe(self.procs, self.prog)
        self.ends = {'alice': a, 'bob': b}
        if self.prepare is not None:
            self.prepare()
        return a, b

    def out(self, script, bpub, asset, amount, w):
        """(output, range proof), blinded if there is a key"""
        if bpub is not None:
            return daemon.blinded_out(script, bpub, asset, amount, lambda l: w.secret(), self.bits)
        return {'asset': b'\1' + asset, 'value': b'\1' + amount.to_bytes(8, 'big'), 'nonce': b'', 'script': script}, b''

    def coin(self, name, asset, amount, blinded):
        w = self.ew[name]
        s = w.new()
        o, rp = self.out(s, daemon.pubkey(w.blinding(s)) if blinded else None, asset, amount, w)
        self.elt.fund(dict(o, rp=rp), w.secret(), 0)

    def play(self):
        """runs everything; what was sent is mined in the end, in some order"""
        done = self.procs.run()
        if self.procs.broken is not None:
            e = self.procs.broken
            raise HarnessError('%s: %s' % (type(e).__name__, e))
        self.sim.check(done, 'hang', 'a participant waits for ever')
        self.procs.settle()
        for c, ds in ((self.elt, self.ed), (self.btc, self.bd)):
            for n in self.sim.shuffle(sorted(ds)):
                ds[n].generate()

    def how(self, name):
        p = self.prog.children.get(name)
        if p is None:
            return '%s did not start' % name
        return '%s: exit %s, %s, last words %s' % (name, p.exit, repr(getattr(p, 'failed', p.exc))[:300], ' / '.join(p.said[-2:])[-300:])


def run(sim):
    import elementstx.core as ec
    ec.CoreElementsParams.CT_BITS = sim.pick((20, 20, 36, 52), 'ct-bits')
    kind = sim.wpick(((4, 'swap'), (5, 'cross'), (3, 'spend'), (2, 'show')), 'program')
    {'swap': swap, 'cross': cross, 'spend': spend, 'show': show}[kind](sim)


def kinds(d):
    return tuple(sorted(d.items()))


# --------------------------------------------------------------- asset swap

def swap(sim):
    sc = Scene(sim, ('alice', 'bob', 'main'), bits=sim.pick((16, 28), 'issue-bits'))
    mode = sim.wpick(((2, 'honest'), (1, 'sneaky'), (2, 'faults'), (3, 'bad-bob'), (3, 'bad-alice')), 'mode')
    sim.log('swap', mode)
    fee_asset = b'\7' + sim.bytes(31, 'fee-asset')
    fee = sim.pick((10000, 1, 777, 123456789), 'fee')
    for k in range(sim.irange(1, 2, 'fee-coins')):
        sc.coin('alice', fee_asset, 2 * fee + sim.draw(10 ** 6, 'fee-amount'), sim.chance(1, 2, 'fee-blinded'))
    files = {'/a/elements.conf': '', '/b/elements.conf': ''}
    sc.prog = p = programs.Program(sc.procs, SWAP, ['/a', '/b', fee_asset[::-1].hex()], sc.rpc, sc.pipes, files=files,
                                   globs={'FIXED_FEE_SATOSHI': fee})
    first = {n: dict(sc.ew[n].holdings()) for n in ('alice', 'bob')}
    honest = {'alice', 'bob'} - {mode[4:]}
    lie = None
    if mode == 'sneaky':
        p.globs['bob_be_sneaky'] = True
    elif mode == 'faults':
        swap_faults(sim, sc, p)
    elif mode != 'honest':
        lie = swap_lies(sim, sc, mode[4:])
    p.start()
    sc.play()

    ends = {}
    for n in ('alice', 'bob'):
        for a, v in sc.ew[n].issued:
            first[n][a] = first[n].get(a, 0) + v
        e = sc.ends.get(n)
        said = next((m[1] for m in e.sent if m[0] == 'offer'), None) if e else None
        told = next((m[1] for m in e.got if isinstance(m, list) and m[0] == 'offer'), None) if e else None
        ends[n] = {'final': sc.ew[n].holdings(), 'said': said, 'told': told}
    for n in sorted(honest):
        e = ends[n]
        kept = covers(e['final'], first[n], fee_asset, fee if n == 'alice' else 0)
        swapped = False
        if e['said'] is not None and e['told'] is not None and not kept:
            want = dict(first[n])
            for sign, o in ((-1, e['said']), (1, e['told'])):
                for x in o if n == ('alice' if sign < 0 else 'bob') else [o]:
                    a = bytes.fromhex(x.asset)[::-1]
                    want[a] = want.get(a, 0) + sign * x.amount
            swapped = covers(e['final'], want, fee_asset, fee if n == 'alice' else 0)
        e['how'] = 'kept' if kept else 'swapped' if swapped else None
        taken = any(o['script'] in sc.redirected for o, h in sc.elt.utxo.values())
        sim.check(e['how'], 'robbed-redirect' if taken else 'robbed', lambda: '%s has neither what it had nor what it was offered: had %s, has %s, offered %s, was told %s (%s); %s' % (
            n, vec(first[n]), vec(e['final']), e['said'], e['told'], lie or mode, sc.how(n)))
    if len(honest) == 2:
        sim.eq(ends['alice']['how'], ends['bob']['how'], 'one-sided', 'one participant swapped and the other did not')
    if mode == 'honest':
        for n in ('alice', 'bob'):
            sim.check(p.children.get(n) is not None and p.children[n].exit == 0, 'failed', lambda: 'an undisturbed swap fails: %s' % sc.how(n))
            sim.eq(ends[n]['how'], 'swapped', 'not-swapped', 'after an undisturbed swap')
        tid = next(t for t in reversed(list(sc.elt.where)) if t not in sc.elt.trusted)
        for k, o in sc.elt.outs(sc.elt.txs[tid][1]):
            sim.check(not o['script'] or len(o['value']) == 33 and o['asset'][0] != 1, 'open', 'output %d of the swap is not blinded' % k)
    if mode == 'sneaky':
        sim.eq(ends['alice']['how'], 'kept', 'sneaky', 'the impatient Alice took her coins back')
    sim.nontrivial = ends['alice']['said'] is not None
    sim.probe('swap %s %s: %s' % (mode, lie, ', '.join('%s %s' % (n, ends[n]['how']) for n in sorted(honest))))
    sim.state(('swap', mode, lie, sc.types, tuple(ends[n].get('how') for n in sorted(honest)), len(sc.elt.where)))


def vec(d):
    return {a[::-1].hex()[:8]: v for a, v in d.items()}


def covers(final, want, fee_asset, fee):
    return all(final.get(a, 0) >= v - (fee if a == fee_asset else 0) for a, v in want.items())


def delays(sim, end, slow):
    def d():
        if sim.chance(1, slow, 'slow-message'):
            sim.fault('message-delay')
            return sim.irange(1, 90, 'delay') * SEC
        return 100 + sim.draw(50000, 'latency')
    end.delay = d


def relays(sim, sc, most):
    for d in list(sc.ed.values()) + list(sc.bd.values()):
        def f():
            sim.fault('relay-delay')
            return 1000 + sim.draw(most, 'relay')
        d.relay = f


def crash(sim, p, most):
    p.crash_at = 1 + sim.draw(most, 'crash-at')


def swap_faults(sim, sc, p):
    sneaky = sim.chance(1, 4, 'sneaky')
    p.globs['bob_be_sneaky'] = sneaky
    if sim.chance(1, 2, 'slow-relay'):
        relays(sim, sc, 8 * SEC)
    who = sim.wpick(((2, None), (2, 'alice'), (2, 'bob'), (1, 'both')), 'crash')

    def started(q):
        if who in (q.name, 'both'):
            crash(sim, q, 60)
    p.on_start = started

    def prepare():
        if sim.chance(1, 2, 'slow'):
            for e in ('alice', 'bob'):
                delays(sim, sc.ends[e], sim.irange(2, 12, 'slowness'))
    sc.prepare = prepare
    if sim.chance(1, 2, 'rpc-faults'):
        for n in ('alice', 'bob'):
            left = [1 + sim.draw(60, 'rpc-fault')]

            def before(kind, call, args, left=left):
                left[0] -= 1
                if left[0] == 0:
                    sim.fault('rpc-error')
                    raise Broken('the daemon closed the connection')
                return args
            sc.before[n] = before


class Broken(ConnectionError):
    pass


def swap_lies(sim, sc, liar):
    """one participant does not follow the protocol"""
    victim = 'bob' if liar == 'alice' else 'alice'
    W, V = sc.ew[liar], sc.ew[victim]

    def redirect(addr):
        """an address that looks like the victim's and is the liar's"""
        t, prog, key = R.decode('elements', addr)
        s = W.new()
        sc.redirected.add(s)
        typ = W.keys[s][0]
        return R.encode('elements', typ, s[2:22] if typ != 'p2pkh' else s[3:23], key)

    if liar == 'bob':
        lie = sim.pick(('redirect', 'inflate', 'other-asset', 'garbage-tx', 'more-outputs', 'no-outputs', 'changed-amount', 'few-addresses',
                        'plain-addresses', 'bad-commitment', 'no-final', 'late-final', 'changed-final', 'strange', 'false-claim'), 'lie')
    else:
        lie = sim.pick(('redirect', 'redirect-one', 'inflate', 'other-asset', 'swap-offers', 'long-offer', 'short-offer', 'garbage-tx',
                        'drop-output', 'same-output', 'no-fee', 'plain-address', 'bad-commitment', 'strange', 'no-tx', 'false-claim'), 'lie')
    sim.log('lie', liar, lie)
    sim.fault('lie:' + lie)

    claimed = {}        # the asset that the liar gives -> what it says that it gives

    def false_claim(x):
        """proofs whose hidden message names other assets than those of the outputs"""
        how = sim.draw(3, 'factor')
        for k, o in enumerate(x['vout']):
            rp = x['outwit'][k]['rp']
            if not rp or o['script'] not in V.keys:
                continue
            nonce = daemon.ecdh(V.blinding(o['script']), o['nonce'])
            r = daemon.rewind(o, rp, nonce)
            if r is None or r[0] not in claimed:
                continue
            a, v, vbf, abf = r
            rp = daemon.range_sign(o['value'], o['asset'], vbf, nonce, v, claimed[a] + (abf, bytes(32), sim.bytes(32, 'abf'))[how], o['script'], 1, 0, v.bit_length())
            if rp is None:
                raise HarnessError('proof of a false claim')
            x['outwit'][k]['rp'] = rp

    def hears(m):
        if not isinstance(m, list):
            return m
        if liar == 'bob' and m[0] == 'addr_and_assetcommitments' and lie == 'redirect':
            return [m[0], (redirect(m[1][0]), m[1][1])]
        if liar == 'alice' and m[0] == 'addr_list_and_assetcommitment' and lie in ('redirect', 'redirect-one'):
            l = list(m[1][0])
            one = sim.draw(len(l), 'which') if lie == 'redirect-one' and l else None
            return [m[0], ([redirect(a) if one is None or one == k else a for k, a in enumerate(l)], m[1][1])]
        return m

    def change(o, **k):
        return o._replace(**k)

    def tells(m):
        if not isinstance(m, list):
            return [m]
        t, d = m
        if t == 'offer':
            l = list(d) if liar == 'alice' else [d]
            k = sim.draw(len(l), 'which')
            if lie == 'inflate':
                l[k] = change(l[k], amount=l[k].amount + 1 + sim.draw(10 ** 9, 'more'))
            elif lie == 'other-asset':
                l[k] = change(l[k], asset=sim.bytes(32, 'other-asset').hex())
            elif lie == 'false-claim':
                a = sim.bytes(31, 'other-asset') + b'\1'
                claimed[bytes.fromhex(l[k].asset)[::-1]] = a
                l[k] = change(l[k], asset=a[::-1].hex())
            elif lie == 'swap-offers':
                l = [change(l[0], amount=l[0].amount, asset=l[1].asset), change(l[1], asset=l[0].asset)]
            elif lie == 'long-offer':
                l.append(change(l[0], asset=sim.bytes(32, 'other-asset').hex()))
            elif lie == 'short-offer':
                l.pop()
            return [[t, l if liar == 'alice' else l[0]]]
        if t in ('partial_blinded_tx', 'partially_signed_tx'):
            x, _ = ref.decode(d)
            if lie == 'no-tx':
                return []
            if lie == 'garbage-tx':
                b = bytearray(d)
                for _ in range(1 + sim.draw(3, 'damage')):
                    b[sim.draw(len(b), 'where')] ^= 1 + sim.draw(255, 'bits')
                return [[t, bytes(b)]]
            if lie == 'more-outputs':
                x['vout'].append(dict(x['vout'][0], script=W.new()))
                x['outwit'].append(dict(x['outwit'][0]))
            elif lie == 'no-outputs':
                x['vout'], x['outwit'] = [], []
            elif lie == 'changed-amount':
                x['vout'][0].update(asset=b'\1' + sim.bytes(32, 'a'), value=b'\1' + bytes(7) + b'\7')
            elif lie == 'drop-output':
                k = sim.draw(len(x['vout']), 'which')
                del x['vout'][k]
                del x['outwit'][k]
            elif lie == 'same-output':
                k = 1 + sim.draw(2, 'which')
                x['vout'][3 - k], x['outwit'][3 - k] = dict(x['vout'][k]), dict(x['outwit'][k])
            elif lie == 'no-fee':
                x['vout'][-1]['script'] = W.new()
            elif lie == 'false-claim':
                false_claim(x)
            else:
                return [m]
            return [[t, ref.encode(x)]]
        if t == 'addr_and_assetcommitments' and lie in ('plain-address', 'bad-commitment'):
            a, l = d
            if lie == 'plain-address':
                typ, prog, key = R.decode('elements', a)
                a = R.encode('elements', typ, prog)
            else:
                l = list(l)
                l[sim.draw(len(l), 'which')] = sim.bytes(33, 'commitment').hex()
            return [[t, (a, l)]]
        if t == 'addr_list_and_assetcommitment':
            l, c = d
            if lie == 'few-addresses':
                l = l[:-1]
            elif lie == 'plain-addresses':
                l = [R.encode('elements', *R.decode('elements', a)[:2]) for a in l]
            elif lie == 'bad-commitment':
                c = sim.bytes(33, 'commitment').hex()
            return [[t, (l, c)]]
        if t == 'final-signed-tx' and liar == 'bob':
            if lie == 'no-final':
                return []
            if lie == 'late-final':
                sc.procs.sleep(3 + sim.draw(5, 'late'))
            if lie == 'changed-final':
                x, _ = ref.decode(bytes.fromhex(d))
                x['vout'][0] = dict(x['vout'][0], script=W.new())
                return [[t, ref.encode(x).hex()]]
        if lie == 'strange' and sim.chance(1, 4, 'now'):
            return [sim.pick(([t + 'x', d], [t, None], ['bye!', None], [t, 7], [t, ['x', 'y']]), 'message')]
        return [m]

    def prepare():
        e = sc.ends[liar]
        e.hears, e.filter = hears, tells
    sc.prepare = prepare
    return lie


# --------------------------------------------------------- cross-chain swap

def cross(sim):
    sc = Scene(sim, ('alice', 'bob', 'miner'), bits=sim.pick((20, 36), 'pay-bits'))
    mode = sim.wpick(((2, 'honest'), (3, 'faults'), (4, 'bad-bob'), (4, 'bad-alice')), 'mode')
    sim.log('cross', mode)
    amount = sim.pick((1.01, 0.5, 20.99, 0.03, 1234.56789), 'amount')
    fee = sim.pick((0.01, 0.0001, 0.02), 'fee')
    files = {'/b/bitcoin.conf': '', '/e/elements.conf': ''}
    sc.prog = p = programs.Program(sc.procs, CROSS, ['/b', '/e', sc.base[::-1].hex()], sc.rpc, sc.pipes, files=files,
                                   globs={'pre_agreed_amount': amount, 'fixed_fee_amount': fee})
    for d in list(sc.ed.values()) + list(sc.bd.values()):
        d.relay = lambda: 1000 + sim.draw(SEC // 2, 'relay')
    gone = set()
    lie = None
    if mode == 'faults':
        who = sim.wpick(((3, 'alice'), (3, 'bob'), (2, None)), 'crash')

        def started(q):
            if q.name == who:
                crash(sim, q, sim.pick((12, 30, 60, 120), 'crash-range'))
        p.on_start = started
        gone = {who}

        def prepare():
            if sim.chance(1, 2, 'slow'):
                for e in ('alice', 'bob'):
                    delays(sim, sc.ends[e], sim.irange(2, 6, 'slowness'))
        sc.prepare = prepare
    elif mode != 'honest':
        gone = {mode[4:]}
        lie = cross_lies(sim, sc, mode[4:])
    p.start()
    sc.play()

    need = daemon.sat(amount) - daemon.sat(fee)
    has = {}
    for n in ('alice', 'bob'):
        has[n] = {'elt': sc.ew[n].holdings().get(sc.base, 0) >= need, 'btc': sc.bw[n].holdings().get(b'', 0) >= need}
        paid = (sc.ew if n == 'alice' else sc.bw)[n].paid
        if n not in gone and paid:
            sim.check(any(has[n].values()), 'robbed-late' if lie in LATE else 'robbed', lambda: '%s paid %d and has neither coins back nor those of the other chain (%s); %s; %s' % (
                n, paid[0], lie or mode, sc.how('alice'), sc.how('bob')))
    if not gone - {None} and all((sc.ew if n == 'alice' else sc.bw)[n].paid for n in has):
        sim.eq(has['alice']['btc'], has['bob']['elt'], 'one-sided', 'one participant swapped and the other did not: %s; %s' % (
            sc.how('alice'), sc.how('bob')))
    if mode == 'honest':
        for n, k in (('alice', 'btc'), ('bob', 'elt')):
            sim.check(p.children.get(n) is not None and p.children[n].exit == 0, 'failed', lambda: 'an undisturbed swap fails: %s' % sc.how(n))
            sim.check(has[n][k], 'not-swapped', lambda: 'after an undisturbed swap: %s' % sc.how(n))
    out = ', '.join('%s %s' % (n, '+'.join(k for k in ('elt', 'btc') if has[n][k]) or '-') for n in ('alice', 'bob'))
    sim.probe('cross %s %s: %s' % (mode, lie or '', out))
    sim.nontrivial = bool(sc.bw['bob'].paid or sc.ew['alice'].paid)
    sim.state(('cross', mode, lie, sc.types, out, bool(sc.bw['bob'].paid), bool(sc.ew['alice'].paid)))


def cross_lies(sim, sc, liar):
    procs = sc.procs
    chain = {'elt': sc.elt, 'btc': sc.btc}
    mine, theirs = ('elt', 'btc') if liar == 'alice' else ('btc', 'elt')
    if liar == 'bob':
        lie = sim.pick(('hold-txid', 'hold-txid', 'hold-reveal', 'hold-reveal', 'pay-less', 'pay-elsewhere', 'other-txid', 'bad-keys',
                        'silent', 'strange', 'early-refund', 'leave'), 'lie')
    else:
        lie = sim.pick(('hold-txid', 'hold-txid', 'hold-txid', 'pay-less', 'pay-elsewhere', 'pay-plain', 'other-asset', 'other-blinding',
                        'other-txid', 'bad-keys', 'wrong-blinding-key', 'silent', 'strange', 'early-refund', 'leave'), 'lie')
    sim.log('lie', liar, lie)
    sim.fault('lie:' + lie)
    paid = {}           # chain -> txid of the liar's payment (and of the other's, as told)
    silent = [sim.draw(4, 'silent-after') if lie == 'silent' else None]

    def confs(kind, txid):
        h = chain[kind].where.get(bytes.fromhex(txid)[::-1])
        return 0 if h is None else len(chain[kind].blocks) - h

    def wait_confs(kind, txid, n):
        for _ in range(200):
            if confs(kind, txid) >= n:
                return
            procs.sleep(0.5)

    def limit(kind):
        v = sc.prog.children[liar].ns.get('%s_contract_timeout' % {'btc': 'bitcoin', 'elt': 'elements'}[kind])
        return v if isinstance(v, int) else 15

    def last_wish():
        """takes the payment back, as soon as it goes"""
        sc.rpcs[liar, mine]._d = (sc.ed if mine == 'elt' else sc.bd)['miner']
        f = sc.prog.children[liar].ns['last_wish_func']
        if f is not None:
            thief = procs.spawn('thief', f)
            procs.spawn('other miners', lambda: go_on(thief))

    def go_on(thief):
        """goes on with the chains when the miner of the program has ended"""
        while thief.alive():
            if not sc.prog.children['miner'].alive():
                sc.ed['miner'].generate()
                sc.bd['miner'].generate()
            procs.sleep(2)

    def tells(m):
        t, d = m
        if silent[0] is not None:
            silent[0] -= 1
            if silent[0] < 0:
                return []
        if t == 'pubkeys' and lie == 'bad-keys':
            l = list(d)
            k = sim.draw(len(l), 'which')
            l[k] = type(l[k])(sim.pick((b'', b'\2' + sim.bytes(32, 'key'), sim.bytes(33, 'key'), l[(k + 1) % len(l)]), 'bad'))
            return [[t, tuple(l)]]
        if t == 'blinding_key' and lie == 'wrong-blinding-key':
            return [[t, sim.pick((sim.bytes(32, 'key'), b'', bytes(32)), 'bad')]]
        if t.endswith('_txid'):
            if lie == 'other-txid':
                others = [x[::-1].hex() for x in chain[mine].txs if x[::-1].hex() != d] or ['00' * 32]
                return [[t, sim.pick(others + ['11' * 32, 'x', None], 'txid')]]
            if lie == 'hold-txid':
                T = limit(mine)
                wait_confs(mine, d, T - (0, 1, -1, 2, 4, 8)[sim.draw(6, 'confirmations')] if sim.chance(2, 3, 'near') else sim.irange(2, 32, 'confirmations'))
            if lie == 'early-refund':
                last_wish()
            if lie == 'leave':
                return []
        if lie == 'strange' and sim.chance(1, 2, 'now'):
            return [sim.pick(([t + 'x', d], [t, None], ['bye!', None], [t, 7], [t, ['x', 'y', 'z']]), 'message')]
        return [m]

    def hears(m):
        if isinstance(m, list) and m[0] == 'elt_txid' and lie in ('hold-reveal', 'hold-txid') and liar == 'bob':
            paid['elt'] = m[1]
            k = limit('btc') + sim.draw(2, 'reveal-at') if sim.chance(2, 3, 'near') else sim.irange(2, 34, 'reveal-at')
            wait_confs('btc', paid['btc'], k)
            while 8 <= confs('elt', m[1]) <= 13:        # no races of miners
                procs.sleep(0.5)
        return m

    def before(kind, call, args):
        if call == 'sendtoaddress':
            addr, v = args
            if lie == 'pay-less':
                v = decimal.Decimal(str(v)) - decimal.Decimal(1 + sim.draw(1000, 'less')) / 100000000
            elif lie == 'pay-elsewhere':
                W = (sc.ew if kind == 'elt' else sc.bw)[liar]
                addr = W.address(W.new())
            elif lie in ('pay-plain', 'other-blinding'):
                typ, prog, key = R.decode('elements', addr)
                addr = R.encode('elements', typ, prog, daemon.pubkey(sim.bytes(31, 'key') + b'\1') if lie == 'other-blinding' else None)
            elif lie == 'other-asset':
                sc.ew[liar].base_asset = sim.bytes(32, 'other-asset')
            return addr, v
        return args

    def after(kind, call, args, r):
        if call == 'sendtoaddress':
            paid[kind] = r
        if call == 'getrawtransaction' and kind == theirs and 'confirmations' in r:
            r = dict(r, confirmations=min(r['confirmations'], 6 if kind == 'btc' else 2))       # never mind how late it is
        if call == 'getrawtransaction' and lie == 'hold-txid' and liar == 'alice' and 'confirmations' in r and procs.cur.name != 'thief':
            r = dict(r, confirmations=min(r['confirmations'], 9))       # Alice waits for the key, not for the timeout
        if call == 'sendrawtransaction' and kind == 'elt' and liar == 'bob' and lie in ('hold-reveal', 'hold-txid'):
            last_wish()
        return r

    def hook(tid, t):
        """Bob shows his key: Alice takes his coins, and hers back, at once"""
        if 'elt' not in paid or not any(i['hash'][::-1].hex() == paid['elt'] for i in t['vin']):
            return
        i = next(i for i in t['vin'] if i['hash'][::-1].hex() == paid['elt'])
        push = [d for _, d in ops(i['script'])]
        if len(push) != 5:
            return              # not Bob's
        sim.log('alice learns the key')
        last_wish()
        rand = sc.prog.rand['alice']
        take_btc(sc, push[1], rand[0], rand[1])

    def prepare():
        e = sc.ends[liar]
        e.hears, e.filter = hears, tells
        procs.at(150 * SEC, lambda: procs.kill(sc.prog.children[liar]))     # had its time
    sc.prepare = prepare
    sc.before[liar], sc.after[liar] = before, after
    if liar == 'alice' and lie == 'hold-txid':
        sc.ed['alice'].hook = hook
        for n in ('alice', 'bob'):      # near each other, miners are far away
            sc.ed[n].relay = lambda: 1000
            sc.ed[n].far = {'miner': SEC // 2}
    return lie


def take_btc(sc, suffix, blinding, own):
    from bitcointx.core.key import CKey
    n = programs.N
    k = (n + 1) // 2
    r = programs._Point(k).x()
    s = int.from_bytes(suffix[2:], 'big')
    m = int.from_bytes(hashlib.sha256(b'\1').digest(), 'big')
    num = lambda b: int.from_bytes(b, 'big')      # noqa
    bp = {p: o for p, (o, h) in sc.btc.utxo.items() if len(o['script']) == 34}
    for e in (s, n - s):
        d = (e * k - m) * pow(r, -1, n) % n
        key = (d - num(blinding) + num(own)) % n
        if not key:
            continue
        secret = key.to_bytes(32, 'big')
        pub = daemon.pubkey(secret)
        for p, o in bp.items():
            ns = sc.prog.children['alice'].ns
            bob = bytes(next(m[1] for m in sc.ends['alice'].got if m[0] == 'pubkeys')[2])
            tm = ns['bitcoin_contract_timeout']
            tm = bytes([0x50 + tm]) if tm <= 16 else bytes([1, tm])
            script = b'\x63\x21' + pub + b'\x67' + tm + b'\xb2\x75\x21' + bob + b'\x68\xac'
            if hashlib.sha256(script).digest() == o['script'][2:]:
                t = {'version': 2, 'locktime': 0, 'vin': [{'hash': p[0], 'n': p[1], 'script': b'', 'seq': 0xffffffff}],
                     'vout': [{'value': o['value'] - 1000, 'script': sc.bw['alice'].new()}]}
                sig = CKey.from_secret_bytes(secret).sign(daemon.btc_sighash_v0(t, script, 0, 1, o['value'])) + b'\1'
                t['inwit'] = [[sig, b'\1', script]]
                sc.sim.log('alice takes the coins of bob')
                try:
                    sc.bd['miner'].accept(daemon.btc_encode(t))
                except daemon.Refused as e:
                    sc.sim.log('refused', str(e))
                return


# ------------------------------------------------------- the small programs

def wif(chain, secret):
    return R.b58check(bytes([128 if chain == 'elements/liquidv1' else 239]) + secret + b'\1')


def key(sim, label):
    return sim.bytes(31, label) + b'\1'


def start(sim, sc, name, argv, files, most, instead=None):
    """-> (program, its process) after it has run"""
    sc.prog = p = programs.Program(sc.procs, name, argv, files=files)
    p.instead = instead or {}
    q = p.start()
    if sim.chance(1, 12, 'crash'):
        crash(sim, q, most)
    done = sc.procs.run()
    if sc.procs.broken is not None:
        raise HarnessError('%s: %s' % (type(sc.procs.broken).__name__, sc.procs.broken))
    sim.check(done, 'hang', 'the program waits for ever')
    sim.log('printed', list(p.out))
    return p, q


def source(sim, sc, W, asset, fee, owned, few):
    """a transaction of somebody else with some outputs; owned: [(script, blinding key)] of us
    -> (model, what each output holds: (kind, asset, amount, vbf, abf))"""
    outs, truth = [], []
    for k in range(sim.irange(1, 4, 'outputs')):
        mine = owned[sim.draw(len(owned), 'owned')] if (few and not k and sim.chance(5, 6, 'first')) or sim.chance(1, 2, 'ours') else None
        script = mine[0] if mine else W.new()
        a = asset if mine and few or sim.chance(2, 3, 'same-asset') else sim.bytes(32, 'asset')
        amount = sim.pick((2 * fee - 1, 2 * fee, 2 * fee + 1, 10 ** 8, 1 + sim.draw(10 ** 9, 'any'), 2100000000000000), 'amount') or 1
        blinded = sim.chance(2, 3, 'blinded')
        got = {}

        def secret(label, got=got):
            got[label] = W.secret()
            return got[label]
        if blinded:
            pub = daemon.pubkey(mine[1]) if mine else daemon.pubkey(key(sim, 'other-key'))
            claim = None
            if sim.chance(1, 8, 'false-claim'):
                sim.fault('lie:false-claim')
                b, f = sim.bytes(31, 'claimed') + b'\1', sim.pick((None, bytes(32), sim.bytes(32, 'abf')), 'claimed-factor')
                claim = lambda abf, b=b, f=f: b + (abf if f is None else f)     # noqa
            o, rp = daemon.blinded_out(script, pub, a, amount, secret, sc.bits, claim)
            if claim is not None and mine:
                mine = ()
        else:
            o, rp = sc.out(script, None, a, amount, W)
        outs.append((o, rp))
        truth.append(('ours' if mine else 'false' if mine == () else 'other', blinded, a, amount, got.get('vbf', bytes(32)), got.get('abf', bytes(32))))
    at = sim.draw(len(outs) + 1, 'fee-position')
    outs.insert(at, sc.out(b'', None, asset, fee, W))
    truth.insert(at, ('fee', False, asset, fee, bytes(32), bytes(32)))
    t = {'version': 2, 'locktime': sim.draw(100, 'locktime'),
         'vin': [{'hash': W.secret(), 'n': sim.draw(3, 'n'), 'script': b'', 'seq': 0xfffffffe, 'iss': None, 'pegin': False}],
         'vout': [o for o, _ in outs], 'inwit': [ref.empty_inwit()],
         'outwit': [{'sp': b'\1\0\1' if rp else b'', 'rp': rp} for _, rp in outs]}
    return t, truth


def spend(sim):
    chain = sim.pick(('elements', 'elements/liquidv1'), 'chain')
    sc = Scene(sim, ('we', 'they'), chain, sim.pick((8, 20), 'bits'))
    sim.log('spend', chain)
    W = sc.ew['they']
    secret, bkey = key(sim, 'key'), key(sim, 'blinding-key')
    script = R.script('p2sh', daemon.S.hash160(R.script('p2wpkh', daemon.S.hash160(daemon.pubkey(secret)))))
    asset, fee = b'\7' + sim.bytes(31, 'asset'), 1 + sim.draw(5000, 'fee')
    t, truth = source(sim, sc, W, asset, fee, [(script, bkey)], True)
    raw, tid = ref.encode(t), ref.txid(t)
    for k, o in sc.elt.outs(t):
        sc.elt.fund(o, tid, k)
    dest = sc.ew['we'].new(sim.pick(MORE, 'type'))
    conf = sim.chance(1, 2, 'confidential-destination')
    addr = sc.ew['we'].address(dest, conf)
    right = sim.chance(7, 8, 'right-blinding-key')
    files = {'tx': raw.hex() + '\n', 'key': wif(chain, secret) + '\n', 'bkey': (bkey if right else key(sim, 'wrong')).hex() + '\n'}
    argv = ['tx', 'key', 'bkey', addr] + ([chain] if chain != 'elements' or sim.chance(1, 2, 'named') else [])
    if sim.chance(1, 12, 'lost-file'):
        f = sim.pick(('tx', 'key', 'bkey'), 'lost')
        sim.fault('lost-file')
        del files[f]
    instead = None
    if chain != 'elements' and sim.chance(4, 5, 'repaired'):
        # the program works on one chain only (see known_findings.txt): look at the rest of it, too
        from bitcointx.wallet import CCoinAddress
        instead = {'elementstx.wallet': {'CElementsAddress': CCoinAddress}}
    p, q = start(sim, sc, SPEND, argv, files, 4, instead)
    mine = next((x for x in truth if x[0] in ('ours', 'false')), None)
    what = lambda: 'output %s to %s address: exit %s %r %s' % (      # noqa
        mine, 'confidential' if conf else 'plain', q.exit, q.exc, ''.join(p.err)[-200:])
    good = (len(files) == 3 and mine is not None and mine[3] >= 2 * fee and (right or not mine[1]) and mine[0] == 'ours' and q.exit != 'killed'
            and (mine[1] or not conf))      # a single blinded output of plain coins is refused
    if good:
        sim.check(instead or chain == 'elements' or 'CElementsConfidentialAddress' not in str(q.exc), 'one-chain',
                  lambda: 'the address is refused: %s' % what())
        sim.check(q.exit == 0 and len(p.out) == 1, 'failed', lambda: 'the coin is not spent: %s' % what())
    res = None
    if p.out:
        sim.check(good, 'unfounded', lambda: 'a transaction is printed: %s' % what())
        d = sc.ed['we']
        try:
            d.accept(bytes.fromhex(p.out[0]))
        except daemon.Refused as e:
            sim.fail('rejected', 'the network refuses the transaction (%s): %s' % (e, what()))
        d.generate()
        if conf or not mine[1]:
            sim.eq(sc.ew['we'].holdings(), {asset: mine[3] - fee}, 'amount', 'what arrived: %s' % what())
        else:
            sim.eq(sc.ew['we'].holdings().get(asset), mine[3] - fee, 'amount', 'what arrived: %s' % what())
        k = [o for o, h in sc.elt.utxo.values() if o['script'] == dest]
        sim.eq([len(o['value']) == 33 for o in k], [conf], 'kind', 'blinded output for a confidential address only')
        sim.nontrivial = True
        res = (mine[1], conf)
    sim.probe('spend: %s' % ('%s to %s' % tuple('blinded' if x else 'plain' for x in res) if res else 'refused'))
    sim.state(('spend', chain, res, right, sc.ew['we'].keys[dest][0], len(truth)))


def show(sim):
    chain = sim.pick(('elements', 'elements/liquidv1'), 'chain')
    sc = Scene(sim, ('we', 'they'), chain, sim.pick((8, 20, 36), 'bits'))
    sim.log('show', chain)
    we, they = sc.ew['we'], sc.ew['they']
    bkey = key(sim, 'blinding-key')
    owned = [(we.new(sim.pick(MORE, 'type')), bkey) for _ in range(2)]
    t, truth = source(sim, sc, they, b'\7' + sim.bytes(31, 'asset'), 1 + sim.draw(5000, 'fee'), owned, False)
    files = {'tx': ref.encode(t).hex() + '\n', 'bkey': bkey.hex()}
    p, q = start(sim, sc, SHOW, ['tx', 'bkey'] + ([chain] if chain != 'elements' or sim.chance(1, 2, 'named') else []), files, 3)
    if q.exit == 'killed':
        return
    sim.check(q.exit == 0, 'failed', lambda: 'exit %s %r' % (q.exit, q.exc))
    blocks = []
    for line in p.out:
        if line.startswith('vout '):
            blocks.append([line])
        elif line.strip() and blocks:
            blocks[-1].append(line)
    sim.eq(len(blocks), len(truth), 'listing', 'number of outputs listed')
    for k, (b, (kind, blinded, a, v, vbf, abf)) in enumerate(zip(blocks, truth)):
        f = {}
        for line in b[1:]:
            n, _, x = line.strip().partition(':')
            f[n] = x.strip()
        o = t['vout'][k]
        plain = daemon.plain_address(chain, o['script'])
        words = b[0].split(': ', 1)
        sim.eq(words[0], 'vout %d' % k, 'listing', 'number of the output')
        want = 'fee' if kind == 'fee' else 'explicit' if not blinded else 'unblinded' if kind == 'ours' else 'cannot unblind'
        sim.check(words[1].startswith(want), 'listing', lambda: 'output %d is %s: %s' % (k, want, b[0]))
        if want == 'cannot unblind':
            sim.check('amount' not in f and 'asset' not in f, 'listing', lambda: 'amounts of others: %s' % b)
            sim.eq(f.get('destination address'), plain, 'listing', 'address of output %d' % k)
            lo, hi = (decimal.Decimal(next(l for l in b if n in l).split()[-1]) * 10 ** 8 for n in ('value-minimum', 'value-maximum'))
            sim.check(lo <= v <= hi and lo > 0, 'range', lambda: 'output %d holds %d, printed range %s - %s' % (k, v, lo, hi))
            continue
        sim.eq(decimal.Decimal(f['amount']) * 10 ** 8, v, 'listing', 'amount of output %d' % k)
        sim.check(a[::-1].hex() in f['asset'], 'listing', lambda: 'asset of output %d: %s' % (k, b))
        if kind == 'fee':
            continue
        if want == 'explicit':
            sim.eq(f.get('destination address'), plain, 'listing', 'address of output %d' % k)
            continue
        typ, prog, _ = R.decode(chain, plain)
        sim.eq((f['confidential'], f['unconfidential']), (R.encode(chain, typ, prog, daemon.pubkey(bkey)), plain), 'listing',
               'addresses of output %d' % k)
        sim.check(vbf[::-1].hex() in f['blinding_factor'] and abf[::-1].hex() in f['asset_blinding_factor'], 'listing',
                  lambda: 'blinding factors of output %d: %s' % (k, b))
    sim.nontrivial = True
    sim.state(('show', chain, tuple(x[:2] for x in truth)))
