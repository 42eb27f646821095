"""Simulated daemons of Elements and Bitcoin with wallets, behind the RPC calls
that the example programs make.  Validation is that of sim.node and sim.script;
nothing here uses the package, apart from ECDH of bitcointx.

Transactions that a daemon's own wallet makes (issueasset, sendtoaddress) are
taken from funds outside of the simulation and are not validated."""

import decimal
import hashlib
import hmac
import struct

from sim import node, ref, refaddr as R, script as S
from sim.node import nat, ZERO32
from sim.tape import HarnessError

COIN = 100000000


def dec(sat):
    return decimal.Decimal(sat) / COIN


def sat(v):
    return int(round(decimal.Decimal(str(v)) * COIN))


# ------------------------------------------------------------------ Bitcoin

def btc_decode(b):
    r = ref.Rd(b)
    t = {'version': struct.unpack('<i', r.take(4))[0], 'vin': [], 'vout': [], 'inwit': []}
    n = r.varint()
    wit = n == 0
    if wit:
        if r.u8() != 1:
            raise ref.RefError('flags')
        n = r.varint()
    for _ in range(n):
        h = r.take(32)
        k = struct.unpack('<I', r.take(4))[0]
        t['vin'].append({'hash': h, 'n': k, 'script': r.vbytes(), 'seq': struct.unpack('<I', r.take(4))[0]})
    for _ in range(r.varint()):
        v = struct.unpack('<q', r.take(8))[0]
        t['vout'].append({'value': v, 'script': r.vbytes()})
    t['inwit'] = [r.stack() if wit else [] for _ in t['vin']]
    t['locktime'] = struct.unpack('<I', r.take(4))[0]
    return t, r.p


def btc_outs(t):
    return ref.varint(len(t['vout'])) + b''.join(struct.pack('<q', o['value']) + ref.vbytes(o['script']) for o in t['vout'])


def btc_encode(t, wit=True):
    wit = wit and any(t['inwit'])
    b = struct.pack('<i', t['version']) + (b'\0\1' if wit else b'') + ref.varint(len(t['vin']))
    for i in t['vin']:
        b += i['hash'] + struct.pack('<I', i['n']) + ref.vbytes(i['script']) + struct.pack('<I', i['seq'])
    b += btc_outs(t)
    if wit:
        for w in t['inwit']:
            b += ref.varint(len(w)) + b''.join(ref.vbytes(x) for x in w)
    return b + struct.pack('<I', t['locktime'])


def btc_sighash_v0(t, script, i, ht, value):
    if ht != 1:
        raise HarnessError('only SIGHASH_ALL is simulated')
    vin = t['vin']
    body = struct.pack('<i', t['version'])
    body += ref.dsha(b''.join(x['hash'] + struct.pack('<I', x['n']) for x in vin))
    body += ref.dsha(b''.join(struct.pack('<I', x['seq']) for x in vin))
    body += vin[i]['hash'] + struct.pack('<I', vin[i]['n']) + ref.vbytes(script) + struct.pack('<q', value)
    body += struct.pack('<I', vin[i]['seq'])
    body += ref.dsha(b''.join(struct.pack('<q', o['value']) + ref.vbytes(o['script']) for o in t['vout']))
    return ref.dsha(body + struct.pack('<I', t['locktime']) + struct.pack('<I', ht))


# -------------------------------------------------- other people's software

def ecdh(secret, pub):
    from bitcointx.core.key import CKey, CPubKey
    return hashlib.sha256(CKey.from_secret_bytes(secret).ECDH(CPubKey(pub))).digest()


def pubkey(secret):
    from sim.tapscript import mul
    g = bytes.fromhex('0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798')
    return mul(g, secret)


def range_sign(*a):
    return nat().range_sign(*a)


def rewind(out, rp, nonce):
    """-> (asset, amount, vbf, abf) or None"""
    n = nat()
    gen33 = node._asset_gen(out['asset'])
    r = n.rewind(out['value'], gen33, rp, nonce, out['script'])
    if r is None:
        return None
    v, vbf, msg = r
    asset, abf = msg[:32], msg[32:]
    if len(msg) != 64 or n.generator(asset, abf) != gen33 or n.commit(vbf, v, gen33) != out['value']:
        return None
    return asset, v, vbf, abf


# ------------------------------------------------------------------- chains

class Refused(Exception):
    def __init__(self, code, msg):
        super().__init__(msg)
        self.code = code


def from_hex(s):
    try:
        return bytes.fromhex(s)
    except (TypeError, ValueError):
        raise Refused(-8, 'not hexadecimal')


class Chain:
    """blocks, which all daemons have at once"""

    def __init__(self, sim, elements, params):
        self.sim = sim
        self.elements = elements
        self.params = params
        self.blocks = [(b'genesis', [])]
        self.where = {}         # txid -> height
        self.txs = {}           # txid -> (raw, model)
        self.utxo = {}          # (txid, n) -> (output, height)
        self.daemons = []
        self.trusted = set()

    def decode(self, raw):
        try:
            t, p = ref.decode(raw) if self.elements else btc_decode(raw)
        except ref.RefError as e:
            raise Refused(-22, 'TX decode failed: %s' % e)
        if p != len(raw):
            raise Refused(-22, 'TX decode failed: trailing data')
        return t

    def txid(self, t):
        return ref.txid(t) if self.elements else ref.dsha(btc_encode(t, False))

    def outs(self, t):
        for k, o in enumerate(t['vout']):
            yield k, dict(o, rp=t['outwit'][k]['rp']) if self.elements else dict(o)

    def fund(self, out, h, n):
        self.utxo[(h, n)] = (out, 0)

    def mine(self, txs):
        height = len(self.blocks)
        done = []
        for tid in txs:
            raw, t = self.txs[tid]
            if tid in self.where:
                continue
            points = [(i['hash'], i['n']) for i in t['vin']]
            if tid not in self.trusted and any(p not in self.utxo for p in points):
                continue
            for p in points:
                self.utxo.pop(p, None)
            for k, o in self.outs(t):
                if not node.unspendable(o['script']):
                    self.utxo[(tid, k)] = (o, height)
            self.where[tid] = height
            done.append(tid)
        self.blocks.append((hashlib.sha256(b'block%d %d' % (height, self.elements)).digest(), done))
        for d in self.daemons:
            d.on_block(done)
        return self.blocks[-1][0]


class Daemon:
    def __init__(self, chain, procs, name):
        self.chain = chain
        self.procs = procs
        self.sim = chain.sim
        self.name = name
        self.mempool = []
        self.relay = None       # function -> delay or None
        self.far = {}           # name -> delay
        self.hook = None        # function(txid, model) after a transaction got in
        chain.daemons.append(self)

    def has(self, tid):
        return tid in self.mempool

    def coin(self, p):
        """(output, height) as seen from here, None if spent or unknown"""
        for tid in self.mempool:
            if any((i['hash'], i['n']) == p for i in self.chain.txs[tid][1]['vin']):
                return None
        if p in self.chain.utxo:
            return self.chain.utxo[p]
        if p[0] in self.mempool:
            for k, o in self.chain.outs(self.chain.txs[p[0]][1]):
                if k == p[1]:
                    return o, len(self.chain.blocks)
        return None

    def accept(self, raw, trust=False):
        c = self.chain
        t = c.decode(raw)
        tid = c.txid(t)
        if tid in c.where:
            raise Refused(-27, 'transaction already in block chain')
        if tid in self.mempool:
            return tid
        if not trust:
            self.verify(t)
        else:
            c.trusted.add(tid)
        c.txs[tid] = (raw, t)
        self.mempool.append(tid)
        self.sim.log('accepted', self.name, tid)
        if self.hook is not None:
            self.hook(tid, t)
        for d in c.daemons:
            if d is not self:
                self.pass_on(d, raw, trust)
        return tid

    def pass_on(self, d, raw, trust):
        delay = self.relay() if self.relay is not None else 20000
        delay = self.far.get(d.name, delay)
        if delay is not None:
            self.procs.at(delay, lambda: d.receive(raw, trust))

    def receive(self, raw, trust):
        try:
            self.accept(raw, trust)
        except Refused as e:
            self.sim.log('not-relayed', self.name, str(e))

    def verify(self, t):
        c = self.chain
        if not t['vin'] or not t['vout']:
            raise Refused(-26, 'empty')
        points = [(i['hash'], i['n']) for i in t['vin']]
        if len(set(points)) != len(points):
            raise Refused(-26, 'bad-txns-inputs-duplicate')
        coins = []
        for i, p in enumerate(points):
            k = self.coin(p)
            if k is None:
                raise Refused(-25, 'bad-txns-inputs-missingorspent')
            seq = t['vin'][i]['seq']
            if t['version'] >= 2 and not seq & (1 << 31):
                if seq & (1 << 22):
                    raise HarnessError('locks by time are not simulated')
                if len(c.blocks) < k[1] + (seq & 0xffff):
                    raise Refused(-26, 'non-BIP68-final')
            coins.append(k[0])
        try:
            if c.elements:
                node.verify_amounts(t, coins)
            elif sum(o['value'] for o in t['vout']) > sum(k['value'] for k in coins) or any(o['value'] < 0 for o in t['vout']):
                raise node.Reject('amounts')
            for i, k in enumerate(coins):
                S.verify(k['script'], t, i, ref.enc_comm(k['value']) if c.elements else k['value'], c.elements)
        except node.Reject as e:
            raise Refused(-26, 'amounts: %s' % e)
        except S.Bad as e:
            raise Refused(-26, 'script: %s' % e)

    def on_block(self, done):
        for tid in list(self.mempool):
            t = self.chain.txs[tid][1]
            if tid in self.chain.where:
                self.mempool.remove(tid)
            elif tid not in self.chain.trusted and any(
                    (i['hash'], i['n']) not in self.chain.utxo and i['hash'] not in self.mempool for i in t['vin']):
                self.mempool.remove(tid)

    def generate(self):
        return self.chain.mine(list(self.mempool))


class Wallet:
    """of one owner"""

    def __init__(self, sim, chain, name, types, base_asset=None, bits=16):
        self.sim = sim
        self.base_asset = base_asset
        self.bits = bits
        self.issued = []
        self.paid = []
        self.chain = chain
        self.name = name
        self.types = types
        self.n = 0
        self.keys = {}          # script -> (type, secret)
        self.master = hashlib.sha256(b'master ' + name.encode()).digest()
        self.locked = set()

    def secret(self):
        self.n += 1
        return hashlib.sha256(b'key %s %d' % (self.name.encode(), self.n)).digest()

    def new(self, typ=None):
        """-> script"""
        typ = typ or self.sim.pick(self.types, 'address-type')
        k = self.secret()
        h = S.hash160(pubkey(k))
        if typ == 'p2sh':
            s = R.script('p2sh', S.hash160(R.script('p2wpkh', h)))
        else:
            s = R.script(typ, h if typ not in ('p2wsh', 'p2tr') else hashlib.sha256(k).digest())
        self.keys[s] = (typ, k)
        return s

    def blinding(self, script):
        return hmac.new(self.master, script, hashlib.sha256).digest()

    def address(self, script, conf=True):
        typ, k = self.keys[script]
        prog = script[3:23] if typ == 'p2pkh' else script[2:22] if typ == 'p2sh' else script[2:]
        return R.encode(self.chain.params, typ, prog, pubkey(self.blinding(script)) if conf and self.chain.elements else None)

    def open(self, out):
        """what an output of ours holds: (asset, amount, vbf, abf) or None"""
        a, v = node.explicit_asset(out['asset']), ref.explicit_amount(out['value'])
        if a is not None and v is not None:
            return a, v, ZERO32, ZERO32
        if not out['rp'] or len(out['nonce']) != 33:
            return None
        return rewind(out, out['rp'], ecdh(self.blinding(out['script']), out['nonce']))

    def holdings(self):
        """confirmed; by asset"""
        r = {}
        for p, (o, h) in self.chain.utxo.items():
            if o['script'] in self.keys:
                k = self.open(o) if self.chain.elements else (b'', o['value'])
                if k is not None:
                    r[k[0]] = r.get(k[0], 0) + k[1]
        return r


def blinded_out(script, blinding_pub, asset, amount, secret, bits, claim=None):
    """(output, range proof) made by other software; secret(label) -> 32 bytes; claim: what the hidden message says instead"""
    n = nat()
    abf, vbf, eph = secret('abf'), secret('vbf'), secret('eph')
    g = n.generator(asset, abf)
    com = n.commit(vbf, amount, g)
    nonce = ecdh(eph, blinding_pub)
    rp = range_sign(com, g, vbf, nonce, amount, asset + abf if claim is None else claim(abf), script, 1, 0, bits)
    if rp is None:
        raise HarnessError('range proof')
    return {'asset': g, 'value': com, 'nonce': pubkey(eph), 'script': script}, rp


class RPC:
    """the calls, for one owner at one daemon"""

    def __init__(self, daemon, wallet, before=None, after=None):
        self._d = daemon
        self._w = wallet
        self._f = before
        self._g = after
        self._last = None
        self._same = 0
        self._count = 0

    def __getattr__(self, name):
        f = getattr(type(self), 'do_' + name, None)
        if f is None:
            raise HarnessError('RPC %s is not simulated' % name)

        def call(*args):
            from bitcointx.rpc import JSONRPCError
            d = self._d
            k = (name, args)
            self._same = self._same + 1 if k == self._last else 0
            self._last = k
            d.procs.call(1000 << min(self._same, 8))        # who asks again and again is served slowly
            self._count += 1
            if self._f is not None:
                args = self._f(name, args)
            try:
                r = f(self, *args)
            except Refused as e:
                d.sim.log('rpc', self._w.name, name, 'error', e.code, str(e))
                raise JSONRPCError({'code': e.code, 'message': str(e)})
            except Exception as e:
                d.procs.broken = e      # the program may swallow it
                raise
            if self._same < 2:
                d.sim.log('rpc', self._w.name, name, 'ok')
            if self._g is not None:
                r = self._g(name, args, r)
            return r
        return call

    # ---- both kinds
    def do_ping(self):
        return None

    def do_connect(self):
        return None

    def do_getnewaddress(self, *a):
        return self._w.address(self._w.new())

    def do_generatetoaddress(self, n, addr):
        return [self._d.generate()[::-1].hex() for _ in range(n)]

    def do_sendrawtransaction(self, raw):
        b = from_hex(raw)
        return self._d.accept(b)[::-1].hex()

    def do_getrawtransaction(self, txid, verbose):
        c = self._d.chain
        tid = from_hex(txid)[::-1]
        if tid not in c.where and tid not in self._d.mempool:
            raise Refused(-5, 'No such mempool or blockchain transaction.')
        raw, t = c.txs[tid]
        r = {'txid': txid, 'hex': raw.hex(),
             'vin': [{'txid': i['hash'][::-1].hex(), 'vout': i['n']} for i in t['vin']], 'vout': []}
        for k, o in enumerate(t['vout']):
            e = {'n': k, 'scriptPubKey': {'hex': o['script'].hex()}}
            v = ref.explicit_amount(o['value']) if c.elements else o['value']
            if v is not None:
                e['value'] = dec(v)
            a = plain_address(c.params, o['script'])
            e['scriptPubKey']['addresses'] = [a] if a else []
            r['vout'].append(e)
        if tid in c.where:
            r['confirmations'] = len(c.blocks) - c.where[tid]
            r['blockhash'] = c.blocks[c.where[tid]][0][::-1].hex()
        return r

    def do_getblock(self, h):
        c = self._d.chain
        for k, (bh, txs) in enumerate(c.blocks):
            if bh[::-1].hex() == h:
                r = {'hash': h, 'tx': [x[::-1].hex() for x in txs]}
                if k + 1 < len(c.blocks):
                    r['nextblockhash'] = c.blocks[k + 1][0][::-1].hex()
                return r
        raise Refused(-5, 'Block not found')

    def do_sendtoaddress(self, addr, amount):
        c = self._d.chain
        r = R.decode(c.params, addr) if isinstance(addr, str) else None
        if r is None:
            raise Refused(-5, 'Invalid address')
        script = R.script(r[0], r[1])
        v = sat(amount)
        self._w.paid.append(v)
        if c.elements:
            if r[2] is None:
                o, rp = {'asset': b'\1' + self._w.base_asset, 'value': b'\1' + v.to_bytes(8, 'big'), 'nonce': b'', 'script': script}, b''
            else:
                o, rp = blinded_out(script, r[2], self._w.base_asset, v, self._secret, self._w.bits)
            return self._send_elements([(o, rp)], None)
        t = {'version': 2, 'locktime': 0, 'vin': [self._coin()], 'vout': [{'value': v, 'script': script}], 'inwit': [[b'\1']]}
        other = {'value': 77, 'script': self._w.new()}
        t['vout'].insert(self._d.sim.draw(2, 'change-position'), other)
        return self._d.accept(btc_encode(t), True)[::-1].hex()

    # ---- Elements
    def _secret(self, label):
        return hashlib.sha256(b'%s %d' % (label.encode(), self._w.n) + self._w.secret()).digest()

    def _coin(self):
        return {'hash': self._w.secret(), 'n': 1, 'script': b'', 'seq': 0xfffffffe, 'iss': None, 'pegin': False}

    def _send_elements(self, outs, iss):
        base = b'\1' + self._w.base_asset
        change = ({'asset': base, 'value': b'\1' + (77).to_bytes(8, 'big'), 'nonce': b'', 'script': self._w.new()}, b'')
        outs = list(outs)
        outs.insert(self._d.sim.draw(len(outs) + 1, 'change-position'), change)
        outs.append(({'asset': base, 'value': b'\1' + (1000).to_bytes(8, 'big'), 'nonce': b'', 'script': b''}, b''))
        vin = self._coin()
        vin['iss'] = iss
        t = {'version': 2, 'locktime': 0, 'vin': [vin], 'vout': [o for o, _ in outs], 'inwit': [ref.empty_inwit()],
             'outwit': [{'sp': b'\1\0\1' if rp else b'', 'rp': rp} for _, rp in outs]}
        return self._d.accept(ref.encode(t), True)[::-1].hex()

    def do_issueasset(self, amount, tokens, *a):
        ent = self._w.secret()
        asset = ref.asset_id(ent)
        s = self._w.new()
        v = sat(amount)
        o, rp = blinded_out(s, pubkey(self._w.blinding(s)), asset, v, self._secret, self._w.bits)
        txid = self._send_elements([(o, rp)], None)
        self._w.issued.append((asset, v))
        return {'asset': asset[::-1].hex(), 'txid': txid, 'vin': 0, 'entropy': ent[::-1].hex()}

    def do_listunspent(self, minconf=1, maxconf=9999999, addrs=(), unsafe=True, options=None):
        c = self._d.chain
        want = bytes.fromhex(options['asset'])[::-1] if options and 'asset' in options else None
        found = []
        pts = [(p, o, h) for p, (o, h) in c.utxo.items()]
        for tid in self._d.mempool:
            pts += [((tid, k), o, None) for k, o in c.outs(c.txs[tid][1])]
        for p, o, h in pts:
            conf = len(c.blocks) - h if h is not None else 0
            if o['script'] not in self._w.keys or not minconf <= conf <= maxconf or p in self._w.locked:
                continue
            if self._d.coin(p) is None and h is not None:
                continue
            k = self._w.open(o)
            if k is None or (want is not None and k[0] != want):
                continue
            e = {'txid': p[0][::-1].hex(), 'vout': p[1], 'address': self._w.address(o['script'], False), 'amount': dec(k[1]),
                 'asset': k[0][::-1].hex(), 'amountblinder': k[2][::-1].hex(), 'assetblinder': k[3][::-1].hex(),
                 'confirmations': conf, 'scriptPubKey': o['script'].hex()}
            if len(o['value']) == 33:
                e['amountcommitment'] = o['value'].hex()
            if o['asset'][0] != 1:
                e['assetcommitment'] = o['asset'].hex()
            found.append(e)
        return found

    def do_getbalance(self, dummy, minconf, watch, asset):
        return dec(self._w.holdings().get(bytes.fromhex(asset)[::-1], 0))

    def _script(self, addr):
        r = R.decode(self._d.chain.params, addr)
        s = R.script(r[0], r[1]) if r else None
        if s not in self._w.keys:
            raise Refused(-5, 'address is not of this wallet')
        return s

    def do_dumpprivkey(self, addr):
        k = self._w.keys[self._script(addr)][1]
        return R.b58check(bytes([239]) + k + b'\1')

    def do_dumpblindingkey(self, addr):
        return self._w.blinding(self._script(addr)).hex()


def plain_address(params, s):
    if len(s) == 25 and s[:3] == b'\x76\xa9\x14':
        return R.encode(params, 'p2pkh', s[3:23])
    if len(s) == 23 and s[:2] == b'\xa9\x14':
        return R.encode(params, 'p2sh', s[2:22])
    if len(s) == 34 and s[:2] == b'\x51\x20':
        return R.encode(params, 'p2tr', s[2:])
    if S.is_witness(s):
        return R.encode(params, 'p2wpkh' if len(s) == 22 else 'p2wsh', s[2:])
    return None
