"""Deterministic scheduling of real threads and of coroutine tasks.

Threads: every simulated thread is a real Python thread, but only the one that
holds the baton runs.  The baton is handed over at trace events (source lines,
optionally single bytecodes) of the code under test, at lock operations and at
sleeps, as the choice tape says."""

import _thread
import contextvars
import heapq
import sys
import threading
import time as _time
import zlib

from sim.tape import HarnessError, Violation

_start = _thread.start_new_thread
_alloc = _thread.allocate_lock
_ident = _thread.get_ident
_real_sleep = _time.sleep
_tasks = {}          # thread ident -> Task
_installed = [False]
HOT_LIMIT = 12
TOOL = 3


def _free():
    """is the interpreter free of import locks here"""
    f = sys._getframe(2)
    while f is not None:
        c = f.f_code
        if c.co_name == '<module>' or c.co_filename.startswith('<frozen importlib'):
            return False
        f = f.f_back
    return True


class _Abandoned(BaseException):
    pass


class Task:
    def __init__(self, sched, tid, name, fn):
        self.sched = sched
        self.tid = tid
        self.name = name
        self.fn = fn
        self.baton = _alloc()
        self.baton.acquire()
        self.state = 'ready'
        self.waiting = None
        self.timed = False
        self.woken_by_timeout = False
        self.exc = None
        self.result = None
        self.events = 0


class Threads:
    """One set of simulated threads"""

    def __init__(self, sim, files, opcodes=False, max_events=6_000_000, max_gap_bits=12, hot=0):
        # hot: on average one in so many code locations makes a thread that
        # reaches it wait until others have run (up to HOT_LIMIT times each)
        self.hot = hot
        self.salt = sim.draw(1 << 32, 'hot-salt') if hot else 0
        self.hotcache = {}
        self.hot_yield = False
        self.hot_hits = 0
        self.sim = sim
        self.files = tuple(files)
        self.opcodes = opcodes
        self.max_events = max_events
        self.max_gap_bits = max_gap_bits
        self.tasks = []
        self.main = _alloc()
        self.main.acquire()
        self.gap = 0
        self.events = 0
        self.switches = 0
        self.cur = None
        self.fatal = None
        self.dead = False
        self.filecache = {}
        self.on_switch = None       # invariant, called by the scheduler between steps

    def spawn(self, name, fn):
        t = Task(self, len(self.tasks), name, fn)
        self.tasks.append(t)
        return t

    # ---- inside of the threads
    def _body(self, t):
        t.baton.acquire()
        _tasks[_ident()] = t
        try:
            t.result = t.fn()
        except _Abandoned:
            pass
        except BaseException as e:      # noqa
            t.exc = e
        finally:
            _tasks.pop(_ident(), None)
            t.state = 'done'
            self.main.release()

    def _wanted(self, fn):
        w = self.filecache.get(fn)
        if w is None:
            w = any(p in fn for p in self.files)
            self.filecache[fn] = w
        return w

    # observation of the code: only of wanted code objects, so that the rest
    # runs at full speed
    def _watch(self, on):
        mon = sys.monitoring
        if on:
            self.codes = []
            mon.use_tool_id(TOOL, 'sim-sched')
            self.event = mon.events.INSTRUCTION if self.opcodes else mon.events.LINE
            mon.register_callback(TOOL, mon.events.PY_START, self._start_cb)
            mon.register_callback(TOOL, mon.events.PY_RESUME, self._start_cb)
            mon.register_callback(TOOL, self.event, self._event_cb)
            mon.set_events(TOOL, mon.events.PY_START | mon.events.PY_RESUME)
            mon.restart_events()
        else:
            mon.set_events(TOOL, 0)
            for c in self.codes:
                mon.set_local_events(TOOL, c, 0)
            for e in (mon.events.PY_START, mon.events.PY_RESUME, self.event):
                mon.register_callback(TOOL, e, None)
            mon.free_tool_id(TOOL)

    def _start_cb(self, code, offset):
        if code.co_name != '<module>' and self._wanted(code.co_filename):
            if code not in self.hotcache:
                self.codes.append(code)
                self.hotcache[code] = True
                sys.monitoring.set_local_events(TOOL, code, self.event)
        return sys.monitoring.DISABLE

    def _event_cb(self, code, at):
        """before each line or bytecode"""
        self.events += 1
        if self.events > self.max_events:
            self.fatal = Violation('no-progress', 'simulated threads do not finish')
            raise _Abandoned()
        if self.hot:
            k = (code, at)
            n = self.hotcache.get(k)
            if n is None:
                h = zlib.crc32(b'%d %s %s %d' % (self.salt, code.co_filename.rsplit('/', 2)[-1].encode(),
                                                 code.co_qualname.encode(), at))
                n = HOT_LIMIT if h % self.hot == 0 else 0
                self.hotcache[k] = n
            if n:
                t = _tasks.get(_ident())
                if t is not None and any(o.state == 'ready' and o is not t for o in self.tasks) and _free():
                    self.hotcache[k] = n - 1
                    self.hot_hits += 1
                    self.hot_yield = True
                    self._yield(t)
                    return
        if self.gap:
            self.gap -= 1
            if self.gap == 0:
                t = _tasks.get(_ident())
                if t is not None:
                    if _free():
                        self._yield(t)
                    else:
                        self.gap = 1

    def _yield(self, t):
        self.main.release()
        t.baton.acquire()
        if self.dead:
            raise _Abandoned()

    def block(self, t, what, timed=False):
        t.state = 'blocked'
        t.waiting = what
        t.timed = timed
        t.woken_by_timeout = False
        self._yield(t)
        t.waiting = None
        return not t.woken_by_timeout

    def wake(self, what):
        for t in self.tasks:
            if t.state == 'blocked' and t.waiting is what:
                t.state = 'ready'

    def point(self, t):
        """an explicit scheduling point"""
        if _free():
            self._yield(t)

    # ---- the scheduler, in the main thread
    def run(self):
        self._watch(True)
        try:
            self._run()
        finally:
            self._watch(False)

    def _run(self):
        sim = self.sim
        for t in self.tasks:
            _start(self._body, (t,))
        last = None
        while True:
            if self.fatal is not None:
                raise self.fatal
            ready = [t for t in self.tasks if t.state == 'ready']
            if not ready:
                blocked = [t for t in self.tasks if t.state == 'blocked']
                if not blocked:
                    break
                timed = [t for t in blocked if t.timed]
                if timed:
                    t = timed[sim.draw(len(timed), 'timeout')]
                    t.woken_by_timeout = True
                    t.state = 'ready'
                    sim.advance(1000)
                    continue
                raise Violation('deadlock', 'threads wait for each other: %s' % (
                    ', '.join('%s' % t.name for t in blocked)))
            if len(ready) > 1:
                if last in ready:       # first choice: go on with the same thread, unless it is to wait
                    ready.remove(last)
                    if not self.hot_yield:
                        ready.insert(0, last)
                    elif len(ready) > 1:
                        ready.append(last)
                self.hot_yield = False
                t = ready[sim.draw(len(ready), 'thread') if len(ready) > 1 else 0]
                e = sim.draw(self.max_gap_bits + 1, 'gap-bits')
                self.gap = 0 if e == 0 else 1 + sim.draw(1 << e, 'gap')
            else:
                t = ready[0]
                self.gap = 0
            if t is not last:
                self.switches += 1
                sim.log('switch', t.tid, t.name, self.events)
            sim.steps += 1
            last = t
            self.cur = t
            t.baton.release()
            self.main.acquire()
            if self.on_switch is not None:
                self.on_switch(t)
        sim.advance(self.events)
        sim.log('threads-done', self.events, self.switches)

    def raise_errors(self):
        for t in self.tasks:
            if t.exc is not None:
                raise t.exc


def current():
    return _tasks.get(_ident())


class SimLock:
    """Mutual exclusion that the scheduler knows about"""

    def __init__(self):
        self._l = _alloc()

    def acquire(self, blocking=True, timeout=-1):
        t = current()
        if t is None:
            return self._l.acquire(blocking, timeout)
        t.sched.point(t)
        while not self._l.acquire(False):
            if not blocking:
                return False
            if not t.sched.block(t, self, timed=timeout is not None and timeout >= 0):
                return False
        return True

    def release(self):
        self._l.release()
        t = current()
        if t is not None:
            t.sched.wake(self)
            t.sched.point(t)
        else:
            for o in list(_tasks.values()):
                o.sched.wake(self)
                break

    def locked(self):
        return self._l.locked()

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def _at_fork_reinit(self):
        self._l = _alloc()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


def _sleep(secs):
    t = current()
    if t is None:
        return _real_sleep(secs)
    t.sched.sim.advance(int(secs * 1e6))
    t.sched.point(t)


def install():
    if _installed[0]:
        return
    _installed[0] = True
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = threading._PyRLock
    threading._CRLock = None
    _time.sleep = _sleep


# --------------------------------------------------------------- coroutines

class _Pause:
    __slots__ = ('delay',)

    def __init__(self, delay=0):
        self.delay = delay

    def __await__(self):
        yield self


def pause(delay=0):
    """awaitable: lets other tasks run"""
    return _Pause(delay)


class Loop:
    """A cooperative event loop: each task has a copy of the context of its
    creator, as asyncio gives it; the tape decides which ready task runs"""

    def __init__(self, sim):
        self.sim = sim
        self.ready = []
        self.timers = []
        self.n = 0
        self.failed = []
        self.on_step = None

    def spawn(self, name, coro, context=None):
        ctx = context if context is not None else contextvars.copy_context()
        self.n += 1
        t = [self.n, name, coro, ctx, False]
        self.ready.append(t)
        return t

    def cancel(self, t):
        t[4] = True

    def run(self, max_steps=100000):
        sim = self.sim
        steps = 0
        while self.ready or self.timers:
            steps += 1
            if steps > max_steps:
                raise HarnessError('event loop does not end')
            while self.timers and (self.timers[0][0] <= sim.now or not self.ready):
                when, _, t = heapq.heappop(self.timers)
                sim.now = max(sim.now, when)
                self.ready.append(t)
            i = sim.draw(len(self.ready), 'task') if len(self.ready) > 1 else 0
            t = self.ready.pop(i)
            sim.steps += 1
            try:
                if t[4]:
                    t[3].run(t[2].throw, _Cancelled())
                    p = None
                else:
                    p = t[3].run(t[2].send, None)
            except StopIteration:
                sim.log('task-end', t[1])
                p = None
                t = None
            except _Cancelled:
                sim.log('task-cancelled', t[1])
                t = None
            except BaseException as e:      # noqa
                self.failed.append((t[1], e))
                raise
            if t is not None:
                if p is not None and p.delay:
                    heapq.heappush(self.timers, (sim.now + p.delay, t[0], t))
                else:
                    self.ready.append(t)
            if self.on_step is not None:
                self.on_step()


class _Cancelled(BaseException):
    pass


# ------------------------------------------------------------------ network

class Net:
    """Message passing between simulated parties.  Faults: loss, duplication,
    delay and reordering, corruption, partition, crash of the receiver"""

    def __init__(self, sim, names, faults):
        self.sim = sim
        self.q = []
        self.n = 0
        self.faults = faults
        self.handlers = {}
        self.down = {}
        self.cut = set()
        self.names = list(names)

    def send(self, src, dst, msg):
        sim = self.sim
        f = self.faults
        copies = 1
        if f and sim.chance(1, 8, 'loss'):
            sim.fault('message-loss')
            sim.log('lost', src, dst)
            copies = 0
        elif f and sim.chance(1, 8, 'dup'):
            sim.fault('message-duplication')
            copies = 2
        for _ in range(copies):
            delay = 100
            if f:
                delay += sim.draw(4000, 'delay')
                if delay > 2000:
                    sim.fault('message-delay')
            m = msg
            if f and isinstance(msg, dict) is False and f == 'corrupt' and sim.chance(1, 8, 'corrupt'):
                b = bytearray(m)
                b[sim.draw(len(b), 'corrupt-at')] ^= 1 << sim.draw(8, 'corrupt-bit')
                m = bytes(b)
                sim.fault('message-corruption')
            self.n += 1
            heapq.heappush(self.q, (sim.now + delay, self.n, src, dst, m))

    def timer(self, dst, delay, msg):
        self.n += 1
        heapq.heappush(self.q, (self.sim.now + delay, self.n, None, dst, msg))

    def run(self, max_events=5000, until=None):
        sim = self.sim
        k = 0
        lastn = 0
        while self.q:
            if until is not None and until():
                return True
            k += 1
            if k > max_events:
                return False
            when, n, src, dst, msg = heapq.heappop(self.q)
            if n < lastn and src is not None:
                sim.fault('message-reordering')
            lastn = max(n, lastn)
            sim.now = max(sim.now, when)
            sim.steps += 1
            if src is not None and (frozenset((src, dst)) in self.cut):
                sim.fault('message-lost-in-partition')
                continue
            if self.down.get(dst):
                if src is not None:
                    sim.fault('message-to-crashed-node')
                    continue
            self.handlers[dst](src, msg)
        return True
