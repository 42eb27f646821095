"""Simulated processes: programs that run as they are, one at a time, and
touch the world only through calls that the simulator serves (pipes, RPC,
sleeping).  Time is simulated; what happens next is on the choice tape."""

import contextvars
import heapq

from sim.sched import _Abandoned, _alloc, _start
from sim.tape import HarnessError, Violation


class Proc:
    def __init__(self, world, name, fn, ctx):
        self.world = world
        self.name = name
        self.fn = fn
        self.ctx = ctx
        self.baton = _alloc()
        self.baton.acquire()
        self.state = 'ready'        # ready, waiting, done
        self.cond = None
        self.until = None
        self.killed = False
        self.exc = None
        self.exit = None            # exit status
        self.calls = 0
        self.crash_at = None
        self.said = []

    def alive(self):
        return self.state != 'done'


class Procs:
    def __init__(self, sim, max_steps=20000):
        self.sim = sim
        self.procs = []
        self.main = _alloc()
        self.main.acquire()
        self.cur = None
        self.events = []        # (time, n, function)
        self.n = 0
        self.steps = 0
        self.max_steps = max_steps
        self.broken = None      # error of the harness inside a process

    # ---- called by processes
    def spawn(self, name, fn):
        p = Proc(self, name, fn, contextvars.copy_context())
        self.procs.append(p)
        _start(self._body, (p,))
        self.sim.log('start', name)
        return p

    def _body(self, p):
        p.baton.acquire()
        try:
            if not p.killed:
                p.ctx.run(p.fn)
            p.exit = 0
        except _Abandoned:
            p.exit = 'killed'
        except SystemExit as e:
            p.exit = e.code if e.code is not None else 0
        except HarnessError as e:
            self.broken = e
        except BaseException as e:      # noqa
            p.exc = e
            p.exit = 'exception'
        finally:
            p.state = 'done'
            self.main.release()

    def wait(self, cond=None, until=None):
        """-> True if cond holds, False at the time until"""
        p = self.cur
        if p.killed:
            raise _Abandoned()
        p.cond, p.until, p.state = cond, until, 'waiting'
        self.main.release()
        p.baton.acquire()
        if p.killed:
            raise _Abandoned()
        return True if cond is None else bool(cond())

    def sleep(self, secs):
        self.wait(lambda: False, self.sim.now + int(secs * 1000000))

    def call(self, cost=1000):
        """a call to the outside: takes time, and may be the last one"""
        p = self.cur
        if p.killed:
            raise _Abandoned()
        p.calls += 1
        if p.crash_at is not None and p.calls >= p.crash_at:
            self.sim.fault('process-crash')
            self.sim.log('crash', p.name, p.calls)
            p.killed = True
            raise _Abandoned()
        if cost:
            self.sleep(cost / 1e6)

    def kill(self, p):
        if p.alive():
            p.killed = True
            p.until = self.sim.now

    def at(self, delay, fn):
        self.n += 1
        heapq.heappush(self.events, (self.sim.now + int(delay), self.n, fn))

    # ---- the scheduler, in the main thread
    def run(self, until=None):
        sim = self.sim
        try:
            while True:
                self.steps += 1
                sim.steps += 1
                if self.steps > self.max_steps:
                    raise Violation('no-progress', 'the programs do not end')
                alive = [p for p in self.procs if p.alive()]
                if not alive or (until is not None and until()):
                    return True
                ready = [p for p in alive if p.state == 'ready' or p.killed or (p.cond is not None and p.cond())
                         or (p.until is not None and p.until <= sim.now)]
                if ready:
                    p = ready[sim.draw(len(ready), 'process')] if len(ready) > 1 else ready[0]
                    p.state = 'running'
                    self.cur = p
                    p.baton.release()
                    self.main.acquire()
                    self.cur = None
                    if p.state == 'done':
                        sim.log('end', p.name, str(p.exit))
                    continue
                nxt = [p.until for p in alive if p.until is not None]
                if self.events:
                    nxt.append(self.events[0][0])
                if not nxt:
                    return False        # everybody waits for ever
                sim.now = max(sim.now, min(nxt))
                while self.events and self.events[0][0] <= sim.now:
                    heapq.heappop(self.events)[2]()
        finally:
            for p in self.procs:        # nobody is left behind
                if p.alive():
                    p.killed = True
                    self.cur = p
                    p.baton.release()
                    self.main.acquire()
            self.cur = None


    def settle(self):
        """what is under way arrives"""
        while self.events:
            t, _, f = heapq.heappop(self.events)
            self.sim.now = max(self.sim.now, t)
            f()


def _nothing():
    pass


def canon(o):
    """for the log"""
    if isinstance(o, (list, tuple)):
        return [canon(x) for x in o]
    return bytes(o) if isinstance(o, (bytes, bytearray)) else o if isinstance(o, (int, str)) or o is None else repr(o)


class End:
    """one end of a duplex pipe between processes: messages arrive in order,
    after a delay"""

    def __init__(self, world, coder):
        self.world = world
        self.coder = coder      # has dumps and loads
        self.q = []
        self.sent = []
        self.got = []
        self.other = None
        self.last = 0
        self.delay = None       # function -> microseconds
        self.filter = None      # what a dishonest owner of this end makes of its messages: a list
        self.hears = None       # and what it makes its program believe that it got

    def send(self, obj):
        w = self.world
        w.call()
        c = self.coder
        b = c.dumps(obj)
        self.sent.append(c.loads(b))
        msgs = [b] if self.filter is None else [c.dumps(m) for m in self._own(self.filter, c.loads(b))]
        o = self.other
        for m in msgs:
            w.sim.log('message', w.cur.name, canon(c.loads(m)))
            d = self.delay() if self.delay is not None else 100
            if d is None:
                continue
            o.last = max(o.last, w.sim.now + d)
            o.q.append((o.last, m))
            w.at(o.last - w.sim.now, _nothing)      # time goes on to here at least

    def _own(self, f, m):
        try:
            return f(m)
        except Exception as e:
            self.world.broken = e
            raise

    def _ready(self):
        return bool(self.q) and self.q[0][0] <= self.world.sim.now

    def poll(self, timeout=0.0):
        w = self.world
        w.call(0)
        end = None if timeout is None else w.sim.now + int(timeout * 1000000)
        if self._ready():
            return True
        return w.wait(self._ready, end)

    def recv(self):
        self.poll(None)
        m = self.coder.loads(self.q.pop(0)[1])
        if self.hears is not None:
            m = self._own(self.hears, m)
        self.got.append(m)
        return m

    def close(self):
        pass


def pipe(world, coder):
    a, b = End(world, coder), End(world, coder)
    a.other, b.other = b, a
    return a, b
