"""Simulated storage and streams, chain selection, shared helpers"""

from sim.tape import HarnessError

CHAINS = ('elements', 'elements/liquidv1', 'bitcoin', 'bitcoin/testnet', 'bitcoin/regtest')
ELEMENTS_CHAINS = CHAINS[:2]


def warm_native():
    """both libraries loaded before the runs are forked"""
    from sim import native
    import elementstx
    import bitcointx
    elementstx.set_custom_secp256k1_path(native.LIB)
    bitcointx.set_custom_secp256k1_path(native.LIB)
    try:
        from bitcointx.core.secp256k1 import get_secp256k1 as g
        g()
    except Exception:       # the runs will show it
        pass
    try:
        from elementstx.core.secp256k1 import get_secp256k1
        get_secp256k1()
    except Exception:
        pass


def select(name):
    from bitcointx import select_chain_params
    return select_chain_params(name)


class InjectedIOError(OSError):
    pass


class Stream:
    """A stream that only has what the library is entitled to use, with faults
    at chosen calls"""

    def __init__(self, sim, data=b'', fail_read=None, short_read=None, fail_write=None,
                 short_write=None):
        self.sim = sim
        self.data = bytes(data)
        self.pos = 0
        self.out = bytearray()
        self.reads = 0
        self.writes = 0
        self.fail_read = fail_read
        self.short_read = short_read
        self.fail_write = fail_write
        self.short_write = short_write
        self.fired = None

    def read(self, n=-1):
        self.reads += 1
        if self.reads == self.fail_read:
            self.sim.fault('read-error')
            self.fired = 'read-error'
            raise InjectedIOError(5, 'injected read error')
        if n is None or n < 0:
            n = len(self.data) - self.pos
        if self.reads == self.short_read and n > 0 and self.pos < len(self.data):
            # the connection ends in the middle of this read
            self.sim.fault('short-read')
            self.fired = 'short-read'
            k = self.sim.draw(min(n, len(self.data) - self.pos), 'short-read-len')
            self.data = self.data[:self.pos + k]
            n = k
        r = self.data[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def write(self, b):
        self.writes += 1
        if self.writes == self.fail_write:
            self.sim.fault('write-error')
            self.fired = 'write-error'
            raise InjectedIOError(28, 'injected: no space left on device')
        if self.writes == self.short_write:
            # torn write: part of the data gets out, then the device fails
            self.sim.fault('torn-write')
            self.fired = 'torn-write'
            k = self.sim.draw(len(b) + 1, 'torn-write-len')
            self.out += bytes(b)[:k]
            raise InjectedIOError(5, 'injected: device failed during write')
        self.out += bytes(b)
        return len(b)


class Disk:
    """Append-only file of a node.  Synced bytes survive a crash; of the rest a
    prefix may survive (torn write)"""

    def __init__(self, sim):
        self.sim = sim
        self.synced = b''
        self.buf = b''

    def append(self, b):
        self.buf += bytes(b)

    def sync(self):
        self.synced += self.buf
        self.buf = b''

    def crash(self, torn=True):
        if torn and self.buf:
            k = self.sim.draw(len(self.buf) + 1, 'torn-tail')
            if k < len(self.buf):
                self.sim.fault('torn-write')
            self.synced += self.buf[:k]
        elif self.buf:
            self.sim.fault('lost-write')
        self.buf = b''

    def contents(self):
        return self.synced + self.buf


__all__ = ['Stream', 'Disk', 'select', 'warm_native', 'HarnessError']
