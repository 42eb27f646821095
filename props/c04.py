"""C04: chain selection in one task or thread never disturbs another"""

import contextvars

from sim import jobs
from sim.sched import Threads, Loop, pause, _Cancelled, current
from sim.tape import HarnessError
from sim.world import warm_native

ID = 'C04'
TECHNIQUE = ('seeded scheduling of tasks and of threads (switched between source lines) that select chains for themselves or '
             'temporarily, fail, are cancelled and start children, under a model of what each has selected; everything they make '
             'is checked against independent references of the chain that should be in force')
RUNS = {'quick': 5000, 'thorough': 80000}
RULE = ('one evaluation is one simulated schedule of 2 to 6 tasks or threads; non-trivial if at least two of them had different '
        'chains selected at the same time; told apart by the hash of the event trace')
STATES = '(kind of concurrency, multiset of chains in force, nesting depth, job, how the temporary selection ended)'
REAL = ['elementstx chain parameters and class dispatchers', 'bitcointx chain selection (context variables) and class dispatch',
        'addresses, transactions, scripts, keys, signature hashes, issuance ids made under each chain', 'threads, contextvars']
STUB = ['scheduler of threads and tasks', 'references for addresses, encodings, hashes', 'secp256k1-zkp functions']
ASSUMPTIONS = ['a new thread selects its chain before it does anything else (documented behaviour of the base library)',
               'a task has a copy of the context of its creator, as asyncio gives it',
               'a task that is never resumed is not closed by another one (its context manager would end in a foreign context)']


class Boom(Exception):
    pass


class Tripped(BaseException):
    """like KeyboardInterrupt"""


def warmup():
    warm_native()
    import bitcointx.core.psbt      # noqa
    import bitcointx.wallet         # noqa


class Shared:
    """what all tasks of a run can see"""

    def __init__(self, sim):
        self.sim = sim
        self.box = []           # objects passed between tasks
        self.where = {}         # task -> chain in force
        self.loops = {}
        self.budget = sim.irange(6, 30, 'budget')
        self.n = 0
        self.victims = []

    def note(self, w):
        self.where[w.name] = w.cur
        if len({jobs.fam(c) for c in self.where.values() if c is not None}) > 1:
            self.sim.nontrivial = True


class Worker:
    def __init__(self, sim, sh, name, cur, mode, loop=None):
        self.sim, self.sh, self.name, self.cur, self.mode, self.loop = sim, sh, name, cur, mode, loop
        self.depth = 0
        self.stop = False

    def verify(self, what):
        jobs.check_params(self.sim, self.cur, '%s, %s' % (self.name, what))

    def wait(self):
        """let others run"""
        if self.mode == 'thread':
            t = current()
            if t is not None:
                t.sched.point(t)
            return
        yield pause(self.sim.draw(3, 'delay') * 500)

    def param_arg(self, chain):
        """ways of naming a chain -> (argument, does it give a new instance)"""
        from bitcointx import find_chain_params
        k = self.sim.draw(3, 'arg')
        if k == 0:
            return chain
        cls = find_chain_params(name=chain)
        return cls if k == 1 else cls()

    def select(self):
        from bitcointx import select_chain_params
        sim = self.sim
        chain = sim.pick(jobs.CHAINS, 'select')
        sim.op('select', self.name, chain)
        prev, new = select_chain_params(self.param_arg(chain))
        if self.cur is not None:
            sim.eq(prev.NAME, jobs.fam(self.cur), 'previous-selection', 'reported to %s' % self.name)
        sim.eq(new.NAME, jobs.fam(chain), 'new-selection', 'reported to %s' % self.name)
        self.cur = chain
        self.sh.note(self)
        self.verify('after selecting')

    def bad_select(self):
        from bitcointx import select_chain_params, ChainParams
        sim = self.sim
        k = sim.draw(4, 'bad')
        sim.fault('bad-selection')
        sim.op('bad-select', self.name, k)
        try:
            if k == 0:
                select_chain_params('elements/nonsense')
            elif k == 1:
                select_chain_params(int)
            elif k == 2:
                with ChainParams('nonsense'):
                    pass
            else:
                with ChainParams(object()):
                    pass
        except (ValueError, TypeError):
            pass
        else:
            sim.fail('accepted', 'selection of an unknown chain')
        self.verify('after a refused selection')

    def temp(self):
        from bitcointx import ChainParams
        sim = self.sim
        chain = sim.pick(jobs.CHAINS, 'temp')
        outer = self.cur
        end = sim.wpick(((4, 'normal'), (2, 'exception'), (1, 'interrupt')), 'end')
        sim.op('enter', self.name, chain, end)
        cm = ChainParams(self.param_arg(chain))
        if sim.chance(1, 4, 'early'):
            yield from self.wait()
        self.depth += 1
        done = False
        try:
            with cm as p:
                self.cur = chain
                self.sh.note(self)
                sim.eq(p.NAME, jobs.fam(chain), 'new-selection', 'given to %s' % self.name)
                self.verify('entered')
                yield from self.steps(sim.irange(0, 3, 'inner'))
                done = True
                if end == 'exception':
                    sim.fault('exception')
                    raise Boom()
                if end == 'interrupt':
                    sim.fault('interrupt')
                    raise Tripped()
        except Boom:
            pass
        except Tripped:
            pass
        finally:
            # whatever ended it, the previous selection is in force again
            self.depth -= 1
            self.cur = outer
            self.sh.note(self)
            how = end if done else 'unwinding'
            sim.op('exit', self.name, outer, how)
            sim.state('exit', self.mode, jobs.fam(chain), jobs.fam(outer), how, self.depth)
            self.verify('left a temporary selection of %s (%s)' % (chain, how))

    def work(self):
        sim = self.sim
        j = jobs.make(sim, self.cur, heavy=sim.chance(1, 12, 'heavy'))
        sim.op('job', self.name, self.cur, j.kind)
        sim.state(self.mode, sorted(jobs.fam(c) for c in self.sh.where.values() if c), self.depth, j.kind)
        g = j.run()
        while True:
            try:
                next(g)
            except StopIteration as e:
                res = e.value
                break
            if sim.chance(1, 3, 'pause'):
                yield from self.wait()
        sim.log('result', repr(res)[:200])
        self.verify('after %s' % j.kind)

    def put(self):
        """pass an address or a transaction to whoever takes it"""
        from bitcointx.core import CTransaction
        from bitcointx.wallet import CCoinAddress
        sim = self.sim
        if sim.chance(1, 2, 'addr'):
            f = jobs.fam(self.cur)
            typ = sim.pick(jobs.R.TYPES, 'type')
            prog = sim.bytes(jobs.R.WIT[typ][1] if typ in jobs.R.WIT else 20, 'prog')
            s = jobs.R.encode(f, typ, prog)
            o = CCoinAddress(s)
            rec = ('addr', o, s, jobs.R.script(typ, prog), type(o))
        else:
            if jobs.is_el(self.cur):
                m = jobs.gen.tx(sim)
                d, tid = jobs.ref.encode(m), jobs.ref.txid(m)
            else:
                d = jobs.bitcoin_tx(sim)
                tid = jobs.ref.dsha(d)
            o = CTransaction.deserialize(d)
            rec = ('tx', o, d, tid, type(o))
        sim.op('put', self.name, rec[0], self.cur)
        self.sh.box.append((self.cur,) + rec)

    def take(self):
        """what another task made stays what it is here"""
        sim = self.sim
        if not self.sh.box:
            return
        chain, kind, o, text, other, cls = self.sh.box[sim.draw(len(self.sh.box), 'which')]
        sim.op('take', self.name, kind, chain, self.cur)
        what = '%s made under %s, used under %s' % (kind, chain, self.cur)
        sim.check(type(o) is cls, 'class-changed', what)
        if kind == 'addr':
            sim.eq(str(o), text, 'object-changed', what)
            s = o.to_scriptPubKey()
            sim.eq(bytes(s), other, 'object-changed', what)
            jobs.klass(sim, s, chain, 'Script', what)
        else:
            sim.eq(o.serialize(), text, 'object-changed', what)
            sim.eq(o.GetTxid(), other, 'object-changed', what)
            m = o.to_mutable()
            jobs.klass(sim, m, chain, 'MutableTransaction', what)
            m.nLockTime = 7
            for x in m.vout[:1]:
                jobs.klass(sim, x, chain, 'MutableTxOut', what)
            for x in m.vin[:1]:
                jobs.klass(sim, x.to_immutable(), chain, 'TxIn', what)
            jobs.klass(sim, m.to_immutable(), chain, 'Transaction', what)
        self.verify('after using an object of %s' % chain)

    def child(self):
        """a child task starts with what is in force where it was started"""
        sim = self.sim
        if self.loop is None or self.sh.n >= 7:
            return
        self.sh.n += 1
        w = Worker(sim, self.sh, '%s.%d' % (self.name, self.sh.n), self.cur, self.mode, self.loop)
        sim.op('spawn', self.name, w.name, self.cur)
        t = self.loop.spawn(w.name, w.body(sim.irange(1, 4, 'child-steps')))
        self.sh.victims.append((self.loop, t))

    def cancel(self):
        v = [t for l, t in self.sh.victims if l is self.loop and not t[4]]
        if not v:
            return
        t = v[self.sim.draw(len(v), 'victim')]
        self.sim.op('cancel', self.name, t[1])
        self.sim.fault('cancellation')
        self.loop.cancel(t)

    def steps(self, n):
        sim = self.sim
        for _ in range(n):
            if self.sh.budget <= 0:
                return
            self.sh.budget -= 1
            k = 13 if sim.data['focus'] and sim.chance(1, 2, 'on-focus') else sim.draw(14, 'step')
            if k < 2 and self.depth < 3:
                yield from self.temp()
            elif k == 2:
                self.select()
            elif k == 3:
                self.bad_select()
            elif k == 4:
                self.child()
            elif k == 5:
                self.cancel()
            elif k == 6:
                self.put()
            elif k < 9:
                self.take()
            else:
                yield from self.work()
            if sim.chance(2, 3, 'yield'):
                yield from self.wait()
            self.verify('later')

    def body(self, n):
        try:
            if self.cur is None:
                self.select()
            self.sh.note(self)
            self.verify('at the start')
            yield from self.steps(n)
            self.verify('at the end')
        finally:
            self.sh.where.pop(self.name, None)


def drain(g):
    for _ in g:
        raise HarnessError('a thread does not yield')


def run(sim):
    from bitcointx import select_chain_params
    jobs.ct.weigh(sim)
    sh = Shared(sim)
    jobs.focus(sim, (1, 3))
    main = sim.pick(jobs.CHAINS, 'main')
    select_chain_params(main)
    mode = sim.wpick(((4, 'tasks'), (3, 'threads'), (2, 'loops'), (3, 'duel')), 'mode')
    sim.op('mode', mode, main)
    jobs.check_params(sim, main, 'main program')
    if mode == 'duel':
        duel(sim, sh, main)
    elif mode == 'tasks':
        loop = Loop(sim)
        loop.on_step = lambda: jobs.check_params(sim, main, 'main program, while tasks run')
        tasks(sim, sh, loop, 'task', main)
        loop.run()
    else:
        th = Threads(sim, ['elementstx/', 'bitcointx/__init__.py', 'bitcointx/util.py', 'bitcointx/wallet.py'],
                     max_gap_bits=sim.pick((7, 10, 12), 'gap-bits'), hot=sim.pick((0, 10, 40, 100), 'hot'))
        n = sim.irange(2, 3, 'n-threads')
        for i in range(n):
            name = 't%d' % i
            inherit = sim.chance(1, 4, 'inherit')
            if mode == 'threads':
                w = Worker(sim, sh, name, main if inherit else None, 'thread')
                fn = lambda w=w, k=sim.irange(2, 5, 'steps'): drain(w.body(k))      # noqa: E731
            else:
                fn = lambda name=name, inherit=inherit: loop_thread(sim, sh, name, main if inherit else None)   # noqa: E731
            if inherit:
                ctx = contextvars.copy_context()
                fn = lambda ctx=ctx, fn=fn: ctx.run(fn)         # noqa: E731
            th.spawn(name, fn)
        th.on_switch = lambda t: jobs.check_params(sim, main, 'main thread')
        th.run()
        th.raise_errors()
        if th.switches > 4:
            sim.probe('interleaved')
    jobs.check_params(sim, main, 'main program, at the end')
    w = Worker(sim, sh, 'main', main, 'thread')
    w.take()


def duel(sim, sh, main):
    """threads of different chains that do the same kind of work at the same time"""
    jobs.focus(sim, (1, 1))
    chains = sim.shuffle(list(jobs.EL if sim.chance(2, 3, 'elements-only') else jobs.CHAINS), 'chains')[:sim.irange(2, 3, 'n')]
    th = Threads(sim, ['elementstx/'] + (['bitcointx/util.py'] if sim.chance(1, 4, 'dispatch') else []),
                 opcodes=sim.chance(1, 4, 'opcodes'), max_gap_bits=sim.pick((4, 6, 9), 'gap-bits'), hot=sim.pick((0, 5, 15, 40), 'hot'))
    for i, chain in enumerate(chains):
        w = Worker(sim, sh, 't%d' % i, None, 'thread')

        def fn(w=w, chain=chain, n=sim.irange(2, 5, 'jobs')):
            from bitcointx import select_chain_params
            select_chain_params(chain)
            w.cur = chain
            sh.note(w)
            for _ in range(n):
                drain(w.work())
        th.spawn(w.name, fn)
    th.run()
    th.raise_errors()


def loop_thread(sim, sh, name, cur):
    """a thread with an event loop of its own"""
    w = Worker(sim, sh, name, cur, 'thread')
    if cur is None:
        w.select()
    else:
        w.verify('inherited')
    loop = Loop(sim)
    tasks(sim, sh, loop, name, w.cur)
    loop.run()
    w.verify('after its tasks')


def tasks(sim, sh, loop, name, cur):
    for i in range(sim.irange(2, 3, 'n-tasks')):
        w = Worker(sim, sh, '%s/%d' % (name, i), cur, 'task', loop)
        t = loop.spawn(w.name, w.body(sim.irange(2, 5, 'steps')))
        if sim.chance(1, 2, 'may-cancel'):
            sh.victims.append((loop, t))


__all__ = ['_Cancelled']
