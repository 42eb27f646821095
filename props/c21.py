"""C21: conditions written with the Elements opcodes bind the spender as they say"""

import hashlib

from sim import gen, ref, taproot, tapscript
from sim.parties import edit_in, edit_out, legal
from sim.sched import Net
from sim.tapscript import comm, fits, i64, le64, spk
from sim.world import ELEMENTS_CHAINS, Disk, select, warm_native

ID = 'C21'
TECHNIQUE = ('simulated owners and spenders of coins under conditions, over a faulty network with crashes; a reference node executes the '
             'scripts by the consensus numbers of the opcodes, and its verdict is compared with the conditions that were meant')
RUNS = {'quick': 8000, 'thorough': 60000}
RULE = ('non-trivial: the node judged at least one spend of a coin under a condition that uses an Elements opcode; distinct by trace')
STATES = 'clauses of the condition, edits since the condition was written, verdict'
REAL = ['opcodes and CElementsScript of elementstx.core.script', 'TaprootScriptTree', 'sighash_schnorr', 'transaction classes']
STUB = ['network', 'node: sim/tapscript.py (interpreter), sim/taproot.py, sim/ref.py']
ASSUMPTIONS = ['consensus numbers and stack effects of the Elements opcodes as in sim/tapscript.py',
               'the generator behind OP_DETERMINISTICRANDOM is replaced (only its range matters)']
V = ('EQUALVERIFY',)
CMP = ('LESSTHAN64', 'LESSTHANOREQUAL64', 'GREATERTHAN64', 'GREATERTHANOREQUAL64')
EDGE = (0, 1, -1, 2, 7, 255, 256, 1000, 100000000, 2100000000000000, (1 << 62) - 1, 1 << 62, (1 << 63) - 1, -(1 << 63), -100)


def warmup():
    warm_native()


class Op(str):
    """an opcode by name"""


def O(*names):
    return [Op(n) for n in names]


EV = O('EQUALVERIFY')
VF = O('VERIFY')


def ev(*vals):
    """the stack, from the top, is this"""
    out = []
    for v in vals:
        out += [v] + EV
    return out


def signed(c):
    return int.from_bytes(c[1:], 'big', signed=True)


def exp(c):
    return len(c) == 9 and c[0] == 1


def cmp4(k, x, y):
    return (x < y, x <= y, x > y, x >= y)[k]


def clause(sim, t, idx, spent):
    """-> (name, items, what it means)"""
    kinds = ['in-outpoint', 'in-asset', 'in-value', 'in-script', 'in-seq', 'in-issuance', 'index', 'version', 'locktime', 'counts',
             'weight', 'arith', 'arith', 'neg', 'cmp', 'num', 'le32', 'stream', 'csfs', 'substr', 'random', 'ecmul', 'tweak', 'share',
             'seq-age']
    if t['vout']:
        kinds += ['out-asset', 'out-value', 'out-nonce', 'out-script', 'out-bound', 'sum', 'stream-out', 'out-bound']
    kind = sim.pick(kinds, 'clause')
    i = sim.draw(len(t['vin']), 'in')
    k = sim.draw(len(t['vout']), 'out') if t['vout'] else 0
    true = lambda e: True                                       # noqa
    if kind == 'in-outpoint':
        x = t['vin'][i]
        flag = (0x80 if not ref.iss_null(x['iss']) else 0) | (0x40 if x['pegin'] else 0)
        h, n = x['hash'], x['n']
        return kind, [i] + O('INSPECTINPUTOUTPOINT') + ev(bytes([flag]), n.to_bytes(4, 'little'), h), \
            lambda e: (e.t['vin'][i]['hash'], e.t['vin'][i]['n']) == (h, n) and \
            flag == (0x80 if not ref.iss_null(e.t['vin'][i]['iss']) else 0) | (0x40 if e.t['vin'][i]['pegin'] else 0)
    if kind in ('in-asset', 'in-value'):
        f, size = ('asset', 32) if kind == 'in-asset' else ('value', 8)
        c = spent[i][f]
        d = comm(c, size)
        return kind, [i] + O('INSPECTINPUT' + f.upper()) + ev(d[1], d[0]), lambda e: i < len(e.t['vin']) and e.spent[i][f] == c
    if kind == 'in-script':
        d = spk(spent[i]['script'])
        return kind, [i] + O('INSPECTINPUTSCRIPTPUBKEY') + ev(d[1], d[0]), \
            lambda e: i < len(e.t['vin']) and spk(e.spent[i]['script']) == d
    if kind == 'in-seq':
        s = t['vin'][i]['seq']
        return kind, [i] + O('INSPECTINPUTSEQUENCE') + ev(s.to_bytes(4, 'little')), lambda e: e.t['vin'][i]['seq'] == s
    if kind == 'seq-age':
        s = max(0, t['vin'][i]['seq'] + sim.pick((-1, 0, 1), 'age'))
        j = sim.draw(4, 'cmp')
        return kind, [i] + O('INSPECTINPUTSEQUENCE', 'LE32TOLE64') + [le64(s)] + O(CMP[j]) + VF, \
            lambda e: cmp4(j, e.t['vin'][i]['seq'], s)
    if kind == 'in-issuance':
        x = t['vin'][i]['iss']
        want = None if ref.iss_null(x) else dict(x)
        if want is None:
            return kind, [i] + O('INSPECTINPUTISSUANCE') + ev(b''), lambda e: ref.iss_null(e.t['vin'][i]['iss'])

        def val(c):
            d = comm(c, 8) if c else [b'\x00' * 8, b'\x01']
            return [d[1], d[0]]

        def same(e):
            y = e.t['vin'][i]['iss']
            return not ref.iss_null(y) and all(
                val(y[f]) == val(want[f]) if f in ('amount', 'keys') else y[f] == want[f] for f in ('nonce', 'entropy', 'amount', 'keys'))
        return kind, [i] + O('INSPECTINPUTISSUANCE') + ev(x['nonce'], x['entropy'], *val(x['amount']), *val(x['keys'])), same
    if kind == 'index':
        n = idx if sim.chance(3, 4, 'right') else i
        return kind, O('PUSHCURRENTINPUTINDEX') + ev(n), lambda e: e.idx == n
    if kind == 'version':
        v = t['version']
        return kind, O('INSPECTVERSION') + ev((v & 0xffffffff).to_bytes(4, 'little')), lambda e: e.t['version'] == v
    if kind == 'locktime':
        if sim.chance(1, 2, 'exact'):
            v = t['locktime']
            return kind, O('INSPECTLOCKTIME') + ev(v.to_bytes(4, 'little')), lambda e: e.t['locktime'] == v
        v = max(0, t['locktime'] + sim.pick((-1, 0, 1), 'off'))
        j = sim.draw(4, 'cmp')
        return kind, O('INSPECTLOCKTIME', 'LE32TOLE64') + [le64(v)] + O(CMP[j]) + VF, lambda e: cmp4(j, e.t['locktime'], v)
    if kind == 'counts':
        ni, no = len(t['vin']), len(t['vout'])
        return kind, O('INSPECTNUMINPUTS') + ev(ni) + O('INSPECTNUMOUTPUTS') + ev(no), \
            lambda e: (len(e.t['vin']), len(e.t['vout'])) == (ni, no)
    if kind == 'weight':
        w = tapscript.weight(t) + sim.pick((-4, 100, 400, 1000), 'weight')
        return kind, O('TXWEIGHT') + [le64(w)] + O('LESSTHANOREQUAL64') + VF, lambda e: tapscript.weight(e.t) <= w
    if kind == 'arith':
        x, y = sim.pick(EDGE, 'x'), sim.pick(EDGE, 'y')
        op = sim.pick(('ADD64', 'SUB64', 'MUL64', 'DIV64'), 'op')
        pre = [i64(x), i64(y)] + O(op)
        if op == 'DIV64':
            if y == 0 or not fits(abs(x) // abs(y) * (1 if x * y > 0 else -1)):
                return kind + op, pre + ev(b'', i64(y), i64(x)), true
            r = x % abs(y)
            q = (x - r) // y
            if fits(q):
                return kind + op, pre + ev(1, i64(q), i64(r)), true
            return kind, [1] + VF, true
        v = x + y if op == 'ADD64' else x - y if op == 'SUB64' else x * y
        return kind + op, pre + (ev(1, i64(v)) if fits(v) else ev(b'', i64(y), i64(x))), true
    if kind == 'neg':
        x = sim.pick(EDGE, 'x')
        return kind, [i64(x)] + O('NEG64') + (ev(1, i64(-x)) if fits(-x) else ev(b'', i64(x))), true
    if kind == 'cmp':
        x, y = sim.pick(EDGE, 'x'), sim.pick(EDGE, 'y')
        j = sim.draw(4, 'cmp')
        return kind + CMP[j], [i64(x), i64(y)] + O(CMP[j]) + ev(1 if cmp4(j, x, y) else b''), true
    if kind == 'num':
        n = sim.pick((0, 1, -1, 16, 17, 127, 128, -128, 255, 256, 32768, -32768, 0x7fffffff, -0x7fffffff), 'n')
        if sim.chance(1, 2, 'to'):
            return kind, [n] + O('SCRIPTNUMTOLE64') + ev(i64(n)), true
        return kind, [i64(n)] + O('LE64TOSCRIPTNUM') + ev(n), true
    if kind == 'le32':
        n = sim.pick((0, 1, 255, 0x7fffffff, 0x80000000, 0xffffffff), 'n')
        return kind, [n.to_bytes(4, 'little')] + O('LE32TOLE64') + ev(i64(n)), true
    if kind in ('stream', 'stream-out'):
        a, b = gen.blob(sim, 'a', lens=(0, 1, 32, 64, 80)), gen.blob(sim, 'b', lens=(0, 1, 32, 55, 64))
        if kind == 'stream':
            c = gen.blob(sim, 'c', lens=(0, 1, 32, 100))
            return kind, [a] + O('SHA256INITIALIZE') + [b] + O('SHA256UPDATE') + [c] + O('SHA256FINALIZE') + \
                ev(hashlib.sha256(a + b + c).digest()), true
        d = comm(t['vout'][k]['asset'], 32)
        h = hashlib.sha256(a + d[0] + b).digest()
        return kind, [a] + O('SHA256INITIALIZE') + [k] + O('INSPECTOUTPUTASSET', 'DROP', 'SHA256UPDATE') + [b] + \
            O('SHA256FINALIZE') + ev(h), lambda e: comm(e.t['vout'][k]['asset'], 32)[0] == d[0]
    if kind == 'csfs':
        key = gen.key(sim, 'oracle')
        msg = sim.bytes(32, 'msg')
        sig = key.sign_schnorr_no_tweak(msg, aux=sim.bytes(32, 'aux'))
        good = True
        if sim.chance(1, 8, 'forged'):
            m2 = sim.bytes(32, 'msg2')
            good = m2 == msg
            msg = m2
        items = [sig, msg, bytes(key.pub)[1:]]
        ver = sim.chance(1, 2, 'verify')
        return kind + ('v' if ver else ''), items + (O('CHECKSIGFROMSTACKVERIFY') if ver else O('CHECKSIGFROMSTACK') + VF), \
            lambda e: good
    if kind == 'substr':
        s = gen.blob(sim, 's', lens=(0, 1, 5, 20))
        at, n = sim.pick((0, 1, 3, 30), 'at'), sim.pick((0, 1, 4, 40), 'n')
        return kind, [s, at, n] + O('SUBSTR_LAZY') + ev(s[at:at + n]), true
    if kind == 'random':
        lo = sim.pick((0, 3, 100), 'lo')
        hi = lo + sim.pick((0, 1, 50), 'width')
        return kind, [sim.bytes(32, 'seed'), lo, hi] + O('DETERMINISTICRANDOM') + [lo, hi + 1] + O('WITHIN') + VF, true
    if kind in ('ecmul', 'tweak'):
        from bitcointx.core.key import CKey
        key = gen.key(sim, 'p')
        n = gen.secret(sim, 'k')
        good = not sim.chance(1, 8, 'other')
        p = bytes(key.pub)
        if kind == 'ecmul':
            q = tapscript.mul(p, n)
            if not good:
                q = bytes(CKey.from_secret_bytes(gen.secret(sim, 'q')).pub)
                good = q == tapscript.mul(p, n)
            return kind, [q, p, n] + O('ECMULSCALARVERIFY'), lambda e: good
        try:
            q = tapscript.tweaked(b'\x02' + p[1:], n)
        except tapscript.Fail:
            return kind, [1] + VF, true
        if not good:
            good = q == p
            q = p
        return kind, [q, n, p[1:]] + O('TWEAKVERIFY'), lambda e: good
    if kind == 'share':
        # a percentage of what the input is worth
        r = sim.pick((1, 3, 50, 99), 'rate')
        c = spent[i]['value']
        pre = [i] + O('INSPECTINPUTVALUE') + ev(b'\x01') + [le64(r)] + O('MUL64') + VF + [le64(100)] + O('DIV64') + VF + O('NIP')
        want = signed(c) * r // 100 if exp(c) else 0
        return kind, pre + ev(i64(want) if fits(want) else i64(0)), \
            lambda e: i < len(e.t['vin']) and exp(e.spent[i]['value']) and fits(signed(e.spent[i]['value']) * r) and \
            signed(e.spent[i]['value']) * r // 100 == want
    o = t['vout'][k]
    if kind in ('out-asset', 'out-value'):
        f, size = ('asset', 32) if kind == 'out-asset' else ('value', 8)
        c = o[f]
        d = comm(c, size)
        return kind, [k] + O('INSPECTOUTPUT' + f.upper()) + ev(d[1], d[0]), lambda e: e.t['vout'][k][f] == c
    if kind == 'out-nonce':
        n = o['nonce']
        return kind, [k] + O('INSPECTOUTPUTNONCE') + ev(n), lambda e: e.t['vout'][k]['nonce'] == n
    if kind == 'out-script':
        d = spk(o['script'])
        return kind, [k] + O('INSPECTOUTPUTSCRIPTPUBKEY') + ev(d[1], d[0]), lambda e: spk(e.t['vout'][k]['script']) == d
    if kind == 'out-bound':
        v = signed(o['value']) if exp(o['value']) else 5
        v += sim.pick((-1, 0, 1), 'off')
        if not fits(v):
            v = 0
        j = sim.draw(4, 'cmp')
        return kind + CMP[j], [k] + O('INSPECTOUTPUTVALUE') + ev(b'\x01') + [i64(v)] + O(CMP[j]) + VF, \
            lambda e: exp(e.t['vout'][k]['value']) and cmp4(j, signed(e.t['vout'][k]['value']), v)
    assert kind == 'sum'
    m = sim.draw(len(t['vout']), 'out2')
    sub = sim.chance(1, 2, 'difference')

    def total(tt):
        a, b = tt['vout'][k]['value'], tt['vout'][m]['value']
        if not exp(a) or not exp(b):
            return None
        s = signed(a) - signed(b) if sub else signed(a) + signed(b)
        return s if fits(s) else None
    want = total(t)
    pre = [k] + O('INSPECTOUTPUTVALUE') + ev(b'\x01') + [m] + O('INSPECTOUTPUTVALUE') + ev(b'\x01')
    return kind, pre + O('SUB64' if sub else 'ADD64') + VF + ev(i64(want or 0)), \
        lambda e: total(e.t) is not None and total(e.t) == (want or 0)


def assemble(sim, items):
    """the script, through the library"""
    import bitcointx.core.script as bs
    import elementstx.core.script as es
    out = []
    for x in items:
        if isinstance(x, Op):
            n = 'OP_' + x
            out.append(getattr(es, n) if hasattr(es, n) else getattr(bs, n))
        else:
            out.append(x)
    k = sim.draw(3, 'assemble')
    if k == 0:
        return es.CElementsScript(out)
    if k == 1:
        s = es.CElementsScript()
        for x in out:
            s = s + x
        return s
    return es.CElementsScript(b''.join(bytes(es.CElementsScript([x])) for x in out))


def last_separator(script):
    """position of the last OP_CODESEPARATOR before the signature is checked"""
    return max(n for n, x in enumerate(tapscript.ops(script)) if x[0] == 0xab)


class Covenant:
    def __init__(self, sim, t, idx, spent):
        from bitcointx.core.key import XOnlyPubKey
        from bitcointx.core.script import TaprootScriptTree
        from bitcointx.wallet import P2TRCoinAddress
        from elementstx.core.script import CElementsScript
        self.key = gen.key(sim, 'spender')
        pub = bytes(self.key.pub)[1:]
        self.leaves = []
        scripts = []
        for n in range(sim.irange(1, 3, 'leaves')):
            cl = [clause(sim, t, idx, spent) for _ in range(sim.irange(1, 3, 'clauses'))]
            items = []
            for c in cl:
                items += c[1]
            signed_ = sim.chance(1, 2, 'signed')
            sep = signed_ and sim.chance(1, 3, 'separator')
            if sep:
                for _ in range(sim.irange(1, 2, 'separators')):
                    at = sim.pick((0, len(items), sim.draw(len(items) + 1, 'sep-pos')), 'sep-at')
                    items = items[:at] + O('CODESEPARATOR') + items[at:]
            if signed_:
                items += [pub] + O('CHECKSIG')
            else:
                items += [n + 1]
            s = assemble(sim, items)
            # what the owner reads back is what was written
            back = list(CElementsScript(bytes(s)).raw_iter())
            want = list(tapscript.ops(bytes(s)))
            sim.check([(int(a), b) for a, b, _ in back] == [(a, b) for a, b in want], 'read-back', 'script differs')
            self.leaves.append({'clauses': cl, 'script': bytes(s), 'signed': signed_, 'sep': last_separator(bytes(s)) if sep else -1})
            scripts.append(CElementsScript(bytes(s), name='leaf%d' % n))
        ik = gen.key(sim, 'internal')
        tree = TaprootScriptTree(scripts, internal_pubkey=XOnlyPubKey(ik.pub))
        self.spk = bytes(P2TRCoinAddress.from_xonly_output_pubkey(tree.output_pubkey).to_scriptPubKey())
        for n, leaf in enumerate(self.leaves):
            got = tree.get_script_with_control_block('leaf%d' % n)
            leaf['control'] = bytes(got[1])
            leaf['obj'] = got[0]


def verdict(t, idx, spent, genesis):
    """the node -> (accepted, script, stack)"""
    st = t['inwit'][idx]['stack'] if idx < len(t['inwit']) else []
    if len(st) < 2:
        return False, None, None
    script, control = st[-2], st[-1]
    if taproot.check_control(spent[idx]['script'][2:], script, control) != 0xc4:
        return False, None, None
    env = tapscript.Env(t, idx, spent, genesis, script)
    return tapscript.execute(env, st[:-2]), script, st[:-2]


def run(sim):
    select(sim.pick(ELEMENTS_CHAINS, 'chain'))
    c = gen.L()
    t0 = gen.tx(sim, coinbase_ok=False, min_in=1)
    if sim.chance(1, 30, 'enlarged'):
        gen.enlarge(sim, t0)
    spent = [{'asset': gen.asset_comm(sim) or b'\x01' + sim.bytes(32, 'asset'), 'value': gen.value_comm(sim, nullable=False),
              'nonce': b'', 'script': gen.script_pool(sim)} for _ in t0['vin']]
    idx = gen.index(sim, len(t0['vin']))
    genesis = sim.bytes(32, 'genesis')
    cov = Covenant(sim, t0, idx, spent)
    # (a condition on the script of its own coin was written before that script was known)
    spent[idx]['script'] = cov.spk
    for leaf in cov.leaves:
        sim.op('condition', *(x[0] for x in leaf['clauses']), leaf['script'])
    net = Net(sim, ['owner', 'spender', 'node'], sim.pick((None, 'corrupt'), 'faults'))
    disk = Disk(sim)
    box = {'left': sim.irange(1, 4, 'spends'), 'seen': 0, 'sent': set()}

    def edit(t):
        k = sim.draw(6, 'edit')
        if k == 0:
            t['version'] = gen.version(sim)
        elif k == 1:
            t['locktime'] = max(0, min(0xffffffff, t['locktime'] + sim.pick((-1, 1, 1000), 'later')))
        elif k == 2:
            n = sim.draw(len(t['vin']), 'which')
            edit_in(sim, t['vin'][n])
            legal(t['vin'][n])
        elif k in (3, 4) and t['vout']:
            edit_out(sim, t['vout'][sim.draw(len(t['vout']), 'which')])
        elif k == 5:
            t['vout'].append(gen.tx_out(sim))
            t['outwit'].append(ref.empty_outwit())
        sim.op('edit', k)

    def spend(b):
        """the spender works with the library alone"""
        cls = c.CElementsMutableTransaction
        t, end = ref.decode(b)
        if len(t['vin']) != len(spent):
            return
        if sim.chance(1, 2, 'edits'):
            for _ in range(sim.irange(1, 2, 'n-edits')):
                edit(t)
        leaf = cov.leaves[sim.draw(len(cov.leaves), 'leaf')]
        tx = gen.lib_tx(t, True, sim.draw(32, 'style'))
        stack = []
        if leaf['signed']:
            outs = [gen.lib_out(o) for o in spent]
            kw = {'codeseparator_pos': leaf['sep']} if leaf['sep'] >= 0 else {}
            h = leaf['obj'].sighash_schnorr(tx, idx, outs, genesis_block_hash=genesis, **kw)
            stack.append(cov.key.sign_schnorr_no_tweak(h, aux=sim.bytes(32, 'aux')))
        t['inwit'][idx] = dict(ref.empty_inwit(), amount_rp=t['inwit'][idx]['amount_rp'], keys_rp=t['inwit'][idx]['keys_rp'],
                               stack=stack + [leaf['script'], leaf['control']])
        tx = gen.lib_tx(t, True, sim.draw(32, 'style'))
        raw = cls.from_tx(tx).serialize()
        sim.eq(raw, ref.encode(t), 'wire', 'spend')
        sim.op('submit', raw)
        box['sent'].add(raw)
        net.send('spender', 'node', raw)

    def spender(src, msg):
        if src is not None:
            disk.append(len(msg).to_bytes(4, 'little') + msg)
            disk.sync()
        elif msg == 'restart':
            net.down['spender'] = False
        elif sim.chance(1, 8, 'crash'):
            sim.fault('crash')
            net.down['spender'] = True
            net.timer('spender', 1000, 'restart')
            net.timer('spender', 1500, 'act')
            return
        data = disk.contents()
        if data and box['left'] > 0:
            box['left'] -= 1
            n = int.from_bytes(data[:4], 'little')
            try:
                c.CElementsTransaction.deserialize(data[4:4 + n])
            except Exception:
                # damaged on the way: ask again
                disk.synced = b''
                net.send('owner', 'spender', ref.encode(t0))
                return
            spend(data[4:4 + n])
            net.timer('spender', 500, 'act')

    def node(src, raw):
        try:
            t, end = ref.decode(raw)
        except ref.RefError:
            return
        if end != len(raw) or len(t['vin']) != len(spent):
            return
        ok, script, stack = verdict(t, idx, spent, genesis)
        if script is None:
            sim.log('node', 'not a spend')
            return
        leaf = [x for x in cov.leaves if x['script'] == script]
        sim.check(leaf, 'foreign-leaf', 'a script that the owner never wrote')
        leaf = leaf[0]
        env = tapscript.Env(t, idx, spent, genesis, script)

        def holds(cl):
            try:
                return cl[2](env)
            except IndexError:
                return False
        met = [bool(holds(cl)) for cl in leaf['clauses']]
        want = all(met)
        if leaf['signed']:
            want = want and len(stack) == 1 and len(stack[0]) == 64 and taproot.verify(
                bytes(cov.key.pub)[1:], ref.sighash_taproot(t, idx, spent, None, genesis, leaf=ref.tapleaf(script),
                                                            codesep=leaf['sep']),
                stack[0])
        else:
            want = want and not stack
        names = [cl[0] for cl in leaf['clauses']]
        if raw in box['sent'] and all(met):
            sim.check(want, 'signature', 'the spender signed with the library, and the signature is not valid for the network')
        sim.log('node', ok, want)
        sim.state(names, met, leaf['signed'], ok)
        sim.nontrivial = True
        box['seen'] += 1
        for n in names:
            sim.probe('clause ' + n)
        sim.probe('spend accepted' if ok else 'spend refused')
        sim.check(ok == want, 'condition', lambda: 'the node %s a spend under the conditions %s, which are %s' % (
            'accepts' if ok else 'refuses', names, 'met' if want else 'not met: %s' % met))

    net.handlers = {'owner': lambda *a: None, 'spender': spender, 'node': node}
    b0 = ref.encode(t0)
    net.send('owner', 'spender', b0)
    net.timer('spender', 5000, 'act')
    net.run()
