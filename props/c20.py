"""C20: the watchmen of the peg read peg-outs as the network does"""

from sim import gen, ref
from sim.sched import Net
from sim.tape import HarnessError
from sim.world import ELEMENTS_CHAINS, Disk, select

ID = 'C20'
TECHNIQUE = ('simulated users who peg out and watchmen who read blocks over a faulty network, with crashes and damaged storage; a '
             'reference reading of every script by the rule of the network decides, and every honest peg-out is paid once')
RUNS = {'quick': 24000, 'thorough': 80000}
RULE = 'non-trivial: a watchman judged at least one output that starts like a peg-out; distinct by trace'
STATES = 'form of the script (opcodes and lengths of its pushes), reading, class through which it was read'
REAL = ['CElementsScript.get_pegout_data, is_pegout', 'transaction classes', 'script parser of bitcointx']
STUB = ['network', 'disk', 'reference reading in props/c20.py']
ASSUMPTIONS = ['what follows after the destination of a peg-out does not matter (as in the reference client at the time of this code)']


def warmup():
    pass


def reading(s):
    """the network: OP_RETURN, 32 bytes, at least one byte"""
    if len(s) < 1 or s[0] != 0x6a:
        return None
    p = 1
    out = []
    for want in range(2):
        if p >= len(s):
            return None
        op = s[p]
        p += 1
        if op > 78:
            return None
        n = op
        if op > 75:
            w = 1 << (op - 76)
            if p + w > len(s):
                return None
            n = int.from_bytes(s[p:p + w], 'little')
            p += w
        if p + n > len(s):
            return None
        out.append(s[p:p + n])
        p += n
    if len(out[0]) != 32 or not out[1]:
        return None
    return out[0], out[1]


def push(sim, d, odd):
    """any of the ways to push data"""
    n = len(d)
    forms = []
    if n < 76:
        forms.append(bytes([n]) + d)
    if n < 256:
        forms.append(b'\x4c' + bytes([n]) + d)
    if n < 65536:
        forms.append(b'\x4d' + n.to_bytes(2, 'little') + d)
    forms.append(b'\x4e' + n.to_bytes(4, 'little') + d)
    return forms[sim.draw(len(forms), 'push-form')] if odd else forms[0]


DESTS = ((b'\x76\xa9\x14', 20, b'\x88\xac'), (b'\xa9\x14', 20, b'\x87'), (b'\x00\x14', 20, b''), (b'\x51\x20', 32, b''),
         (b'', 1, b''), (b'', 75, b''), (b'', 76, b''), (b'', 255, b''), (b'', 256, b''), (b'\x00', 0, b''), (b'', 600, b''))


def pegout(sim, genesis):
    """-> script of an honest peg-out, made with the library"""
    from bitcointx.core.script import OP_RETURN
    from elementstx.core.script import CElementsScript
    a, n, b = DESTS[sim.draw(len(DESTS), 'dest')]
    old = sim.data.setdefault('dests', [])
    if old and sim.chance(1, 3, 'like-before'):
        # another destination of the same owner, or almost the same one
        d = bytearray(old[sim.draw(len(old), 'which-dest')])
        if d and sim.chance(2, 3, 'differs'):
            d[-1 - sim.draw(min(len(d), 3), 'differs-at')] ^= 1 + sim.draw(255, 'by')
        d = bytes(d)
    else:
        d = a + (sim.bytes(n, 'dest') if n else b'') + b
    old.append(d)
    items = [OP_RETURN, genesis, d]
    if sim.chance(1, 3, 'proof'):
        items += [sim.bytes(33, 'pak-key'), gen.blob(sim, 'pak-proof')]
    return CElementsScript(items), d


def strange(sim, genesis):
    """something that only looks like one"""
    k = sim.draw(10, 'strange')
    g = genesis if k else sim.bytes(32, 'other')
    d = gen.blob(sim, 'dest', lens=(0, 1, 22, 34, 76, 300))
    s = b'\x6a' + push(sim, g, True) + push(sim, d, True)
    if k == 1:
        s = b'\x6a' + push(sim, sim.bytes(sim.pick((31, 33, 20, 1), 'len'), 'g'), True) + push(sim, d, True)
    elif k == 2:
        s = bytes([sim.pick((0x61, 0x69, 0, 0x6b, 0x51), 'first')]) + s[1:]
    elif k == 3:
        s = b'\x6a' + push(sim, g, True) + bytes([sim.pick((0x51, 0x60, 0x4f, 0x6a, 0xac), 'op')])
    elif k == 4:
        s = b'\x6a' + bytes([sim.pick((0x51, 0x50, 0, 0x6a), 'op')]) + push(sim, g, True) + push(sim, d, True)
    elif k == 5:
        s = s[:1 + sim.draw(len(s), 'cut')]
    elif k == 6:
        s = b'\x61' + s
    elif k == 7:
        s += bytes([sim.pick((0x4c, 0x4d, 0x4e, 5, 0xac, 0xff), 'tail')])
    elif k == 8:
        s = gen.script_pool(sim)
    elif k == 9:
        s = b'\x6a' + push(sim, g + push(sim, d, True), True)
    return s


def damage(sim, s):
    b = bytearray(s)
    k = sim.draw(4, 'damage')
    if not b:
        return s
    at = sim.draw(min(len(b), 40), 'at')
    if k == 0:
        b[at] ^= 1 << sim.draw(8, 'bit')
    elif k == 1:
        b[at] = sim.pick((0, 1, 0x20, 0x4c, 0x4d, 0x4e, 0x51, 0x6a, 0xff), 'byte')
    elif k == 2:
        del b[at]
    else:
        b.insert(at, sim.draw(256, 'byte'))
    sim.fault('script-damage')
    return bytes(b)


def shape(s):
    out = []
    p = 0
    while p < len(s) and len(out) < 6:
        op = s[p]
        p += 1
        n = op if op < 76 else 0
        if 76 <= op <= 78:
            w = 1 << (op - 76)
            n = int.from_bytes(s[p:p + w], 'little')
            p += w
        out.append((op, n if n < 80 else 80))
        p += n
    return tuple(out)


def run(sim):
    select(sim.pick(ELEMENTS_CHAINS, 'chain'))
    c = gen.L()
    from elementstx.core.script import CElementsScript
    from bitcointx.core.script import CScript
    genesis = sim.bytes(32, 'genesis')
    watchmen = ['w%d' % k for k in range(sim.irange(1, 2, 'watchmen'))]
    net = Net(sim, ['chain'] + watchmen, sim.pick((None, 'corrupt'), 'faults'))
    blocks = []
    owed = {}
    paid = {w: {} for w in watchmen}
    disk = {w: Disk(sim) for w in watchmen}
    height = {w: 0 for w in watchmen}

    def judge(s, want, how):
        got = s.get_pegout_data()
        sim.check(s.is_pegout() is (want is not None), 'is-pegout', '%s: %r' % (how, bytes(s).hex()[:200]))
        if want is None:
            sim.check(got is None, 'recognised', '%s: %s is not a peg-out for the network' % (how, bytes(s).hex()[:200]))
            return
        sim.check(got is not None, 'not-recognised', '%s: %s is a peg-out for the network' % (how, bytes(s).hex()[:200]))
        sim.check(isinstance(got, tuple) and len(got) == 2, 'result', '%s: %r' % (how, got))
        sim.check(bytes(got[0]) == want[0], 'genesis', '%s: %s of %s' % (how, bytes(got[0]).hex(), bytes(s).hex()[:200]))
        sim.check(bytes(got[1]) == want[1], 'destination', '%s: %s of %s' % (how, bytes(got[1]).hex(), bytes(s).hex()[:200]))
        sim.check(isinstance(got[1], CScript), 'destination-type', repr(type(got[1])))

    def block(n):
        t = gen.tx(sim, coinbase_ok=False, min_in=1)
        for _ in range(sim.irange(1, 3, 'n-outs')):
            o = gen.tx_out(sim)
            k = sim.draw(3, 'output')
            if k == 0:
                s, d = pegout(sim, genesis)
                want = reading(bytes(s))
                if want != (genesis, d):
                    sim.check(False, 'made', 'script made of the items of a peg-out: %s' % bytes(s).hex()[:200])
                judge(s, want, 'made')
                o['script'] = bytes(s)
            elif k == 1:
                o['script'] = strange(sim, genesis)
            else:
                s, _ = pegout(sim, genesis)
                o['script'] = bytes(s)
                for _ in range(sim.irange(1, 2, 'n-damage')):
                    o['script'] = damage(sim, o['script'])
            t['vout'].append(o)
            t['outwit'].append(ref.empty_outwit())
        raw = ref.encode(t)
        for k, o in enumerate(t['vout']):
            w = reading(o['script'])
            if w is not None and w[0] == genesis:
                owed[(n, k)] = w[1]
        return n.to_bytes(2, 'little') + raw

    def read(w, msg):
        """a watchman reads a block with the library"""
        n, raw = int.from_bytes(msg[:2], 'little'), msg[2:]
        try:
            m, end = ref.decode(raw)
        except ref.RefError:
            return
        if end != len(raw):
            return
        good = n < len(blocks) and blocks[n] == msg
        cls = sim.pick((c.CElementsTransaction, c.CElementsMutableTransaction), 'class')
        tx = cls.deserialize(raw)
        sim.op('read', w, n, good, raw)
        for k, (o, mo) in enumerate(zip(tx.vout, m['vout'])):
            want = reading(mo['script'])
            s = o.scriptPubKey
            how = 'as decoded'
            if sim.chance(1, 4, 'again'):
                s = CElementsScript(bytes(s))
                how = 'from bytes'
            elif sim.chance(1, 6, 'plain'):
                s = CScript(bytes(s))
                how = 'chain class'
            judge(s, want, how)
            judge(s, want, how + ', again')
            if mo['script'][:1] == b'\x6a':
                sim.nontrivial = True
            sim.state(shape(mo['script']), want is not None, how)
            sim.probe('peg-out' if want is not None else 'no peg-out')
            if good and want is not None:
                g, d = s.get_pegout_data()
                if bytes(g) == genesis:
                    paid[w].setdefault((n, k), []).append(bytes(d))
        if good and n == height[w]:
            height[w] = n + 1
            disk[w].append(b'\x01')
            disk[w].sync()

    def handler(w):
        def h(src, msg):
            if src is not None:
                n = int.from_bytes(msg[:2], 'little')
                if n == height[w] or not (n < len(blocks) and blocks[n] == msg):
                    read(w, msg)
                return
            if msg == 'restart':
                net.down[w] = False
                height[w] = len(disk[w].contents())
            elif sim.chance(1, 8, 'crash'):
                sim.fault('crash')
                sim.op('crash', w)
                net.down[w] = True
                net.timer(w, 1500, 'restart')
            elif height[w] < len(blocks):
                net.send('chain', w, blocks[height[w]])
            if height[w] < len(blocks) and sim.now < 60000:
                net.timer(w, 2000, 'ask')
            elif height[w] < len(blocks):
                # faults have stopped
                while height[w] < len(blocks):
                    read(w, blocks[height[w]])
        return h

    for n in range(sim.irange(1, 4, 'blocks')):
        blocks.append(block(n))
    net.handlers['chain'] = lambda *a: None
    for w in watchmen:
        net.handlers[w] = handler(w)
        net.timer(w, 100, 'ask')
    if not net.run(max_events=3000):
        raise HarnessError('watchmen do not come to an end')
    for w in watchmen:
        if net.down.get(w):
            continue
        sim.check(height[w] == len(blocks), 'progress', w)
        for k, d in sorted(owed.items()):
            sim.check(paid[w].get(k) == [d], 'paid', '%s: output %s: %d payments' % (w, k, len(paid[w].get(k, []))))
        sim.check(set(paid[w]) <= set(owed), 'paid', '%s pays what nobody asked for' % w)
