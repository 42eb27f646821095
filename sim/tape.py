"""Choice tape: the only source of nondeterminism in a simulated run.

Every decision of the simulator (operation, argument, fault, schedule) is one
labelled integer draw.  In search mode draws come from one PRNG seeded with the
run's seed; in replay mode they come from a recorded list.  Zero is always the
simplest choice (no fault, first operation, smallest value), so a run can be
minimised by deleting and zeroing draws."""

import hashlib
import random


class TapeSource:
    __slots__ = ('rng', 'values', 'pos', 'rec', 'labels', 'limit')

    def __init__(self, seed=None, values=None, limit=400000):
        self.rng = random.Random(seed) if values is None else None
        self.values = values
        self.pos = 0
        self.rec = []
        self.labels = []
        self.limit = limit

    def draw(self, n, label):
        if n <= 0:
            raise HarnessError('draw(%r) for %s' % (n, label))
        if self.values is None:
            v = self.rng.randrange(n) if n > 1 else 0
        elif self.pos < len(self.values):
            v = self.values[self.pos]
            if v >= n:
                v = n - 1
        else:
            v = 0
        self.pos += 1
        if self.pos > self.limit:
            raise HarnessError('tape limit exceeded')
        self.rec.append(v)
        self.labels.append(label)
        return v


class HarnessError(Exception):
    """The simulator itself is at fault: never reported as a violation."""


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__('%s: %s' % (cls, msg))
        self.cls = cls
        self.msg = msg


class Sim:
    """One simulated execution."""

    TRACE_KEEP = 1500

    def __init__(self, source, faults_on=None):
        self.src = source
        self.now = 0            # simulated microseconds
        self.seq = 0
        self._h = hashlib.sha256()
        self.trace = []
        self.nevents = 0
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.ops = 0
        self.steps = 0
        self.nontrivial = False
        self.cleanup = []
        self.data = {}

    # --- choices
    def draw(self, n, label=''):
        return self.src.draw(n, label)

    def chance(self, num, den, label=''):
        """True with probability num/den; 0 on the tape means False"""
        return self.src.draw(den, label) >= den - num

    def pick(self, seq, label=''):
        return seq[self.src.draw(len(seq), label)]

    def wpick(self, pairs, label=''):
        """weighted choice out of [(weight, value)...]; first is simplest"""
        total = sum(w for w, _ in pairs)
        v = self.src.draw(total, label)
        for w, val in pairs:
            if v < w:
                return val
            v -= w
        raise HarnessError('wpick')

    def irange(self, lo, hi, label=''):
        return lo + self.src.draw(hi - lo + 1, label)

    def bytes(self, n, label=''):
        """n bytes, expanded out of one draw"""
        v = self.src.draw(1 << 32, label)
        return expand(v, n)

    def shuffle(self, seq, label=''):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.src.draw(len(seq), label)))
        return out

    # --- recording
    def log(self, *ev):
        self.seq += 1
        s = ' '.join(e if isinstance(e, str)
                     else e.hex() if isinstance(e, (bytes, bytearray)) and len(e) <= 40
                     else 'sha:' + hashlib.sha256(bytes(e)).hexdigest()[:16]
                     + '/%d' % len(e) if isinstance(e, (bytes, bytearray))
                     else str(e) for e in ev)
        self._h.update(s.encode('utf8', 'backslashreplace') + b'\n')
        self.nevents += 1
        if len(self.trace) < self.TRACE_KEEP:
            self.trace.append('%d t=%d %s' % (self.seq, self.now, s[:300]))

    def trace_hash(self):
        return self._h.hexdigest()

    def op(self, *ev):
        self.ops += 1
        self.log(*ev)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *key):
        if len(self.states) < 3000:
            self.states.add(hashlib.blake2b(repr(key).encode(),
                                            digest_size=8).hexdigest())

    def advance(self, us):
        self.now += us

    # --- verdicts
    def fail(self, cls, msg=''):
        self.log('VIOLATION', cls, msg)
        raise Violation(cls, msg)

    def check(self, cond, cls, msg=''):
        if not cond:
            self.fail(cls, msg() if callable(msg) else msg)

    def eq(self, got, want, cls, what=''):
        if type(got) is not type(want) and not (
                isinstance(got, (bytes, bytearray, int, str))
                and isinstance(want, (bytes, bytearray, int, str))):
            if got != want:
                self.fail(cls, '%s: got %s want %s' % (what, short(got), short(want)))
            return
        if got != want:
            self.fail(cls, '%s: got %s want %s' % (what, short(got), short(want)))


def short(v, n=400):
    if isinstance(v, (bytes, bytearray)):
        s = bytes(v).hex()
    else:
        s = repr(v)
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)


def expand(v, n):
    if v == 0:
        return b'\x00' * n          # the simplest value
    seed = b'sim%d' % v
    out = b''
    ctr = 0
    while len(out) < n:
        out += hashlib.sha256(seed + b'/%d' % ctr).digest()
        ctr += 1
    return out[:n]
