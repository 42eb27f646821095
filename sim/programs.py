"""Runs the example programs as they are: their source is executed with fakes
for what lies outside (processes, pipes, time, files, RPC); the package and
bitcointx are the real ones."""

import builtins
import io
import os
import pickle
import sys
import types

from sim.tape import HarnessError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
_code = {}


def where():
    import elementstx
    return os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(elementstx.__file__))), 'examples')


def code(name):
    if name not in _code:
        p = os.path.join(where(), name)
        with open(p) as f:
            _code[name] = compile(f.read(), p, 'exec')
    return _code[name]


# -------------------------------------------------------------------- ecdsa

class _Point:
    def __init__(self, k):
        from sim.tapscript import mul
        g = bytes.fromhex('0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798')
        self.p = mul(g, (k % N).to_bytes(32, 'big'))

    def x(self):
        return int.from_bytes(self.p[1:], 'big')


class _Gen:
    def __mul__(self, k):
        return _Point(k)


def _der_int(v):
    b = v.to_bytes(33, 'big').lstrip(b'\0') or b'\0'
    if b[0] & 0x80:
        b = b'\0' + b
    return b'\2' + bytes([len(b)]) + b


def _der(r, s, order):
    if s > order // 2:
        s = order - s
    b = _der_int(r) + _der_int(s)
    return b'\x30' + bytes([len(b)]) + b


class _SigningKey:
    def __init__(self, d):
        self.d = d

    @classmethod
    def from_string(cls, b, curve=None):
        return cls(int.from_bytes(b, 'big'))

    def sign_digest(self, h, k=None, sigencode=None):
        r = _Point(k).x() % N
        s = pow(k, -1, N) * (int.from_bytes(h, 'big') + self.d * r) % N
        return sigencode(r, s, N)


def fake_ecdsa():
    m = types.ModuleType('ecdsa')
    m.SECP256k1 = types.SimpleNamespace(order=N, generator=_Gen())
    m.util = types.SimpleNamespace(string_to_number=lambda b: int.from_bytes(b, 'big') if b else _empty(),
                                   number_to_string=lambda v, order: v.to_bytes(32, 'big'),
                                   sigencode_der_canonize=_der)
    m.numbertheory = types.SimpleNamespace(inverse_mod=lambda a, m: pow(a, -1, m))
    m.keys = types.SimpleNamespace(SigningKey=_SigningKey)
    return m


def _empty():
    raise ValueError('empty')


# ------------------------------------------------------------ the processes

class _Pick(pickle.Pickler):
    def persistent_id(self, o):
        return ('class', o.__name__) if isinstance(o, type) and o.__module__ == '__main__' else None


class _Unpick(pickle.Unpickler):
    ns = None

    def persistent_load(self, p):
        return self.ns[p[1]]


class Program:
    """one start of a program.  rpc(process name, conf path) -> RPC object;
    pipes() -> two ends; globs: globals changed before main() is called"""

    def __init__(self, procs, name, argv, rpc=None, pipes=None, globs=None, files=None, on_start=None):
        self.procs = procs
        self.name = name
        self.argv = [name] + list(argv)
        self.rpc = rpc
        self.pipes = pipes
        self.globs = globs or {}
        self.files = files or {}
        self.on_start = on_start
        self.instead = {}       # module -> {name: what the program gets for it}
        self.main = {}
        self.out = []           # printed by the main process
        self.err = []
        self.children = {}
        self.rand = {}          # process name -> what it got from urandom

    def dumps(self, o):
        b = io.BytesIO()
        _Pick(b, 4).dump(o)
        return b.getvalue()

    def loads(self, b):
        u = _Unpick(io.BytesIO(b))
        u.ns = self.main
        return u.load()

    def start(self):
        """-> the main process, which is not run yet"""
        return self.procs.spawn('main', lambda: self._exec(self.main, '__main__', self.out))

    def _exec(self, ns, modname, out):
        b = dict(vars(builtins))
        b['__import__'] = self._import
        b['print'] = lambda *a, sep=' ', end='\n', file=None, flush=False: out.append(sep.join(str(x) for x in a))
        b['open'] = self._open
        ns.update({'__builtins__': b, '__name__': modname, '__file__': self.name})
        if modname == '__main__' and self.globs:
            # what the source sets is changed before main() is called
            exec(_without_main(self.name), ns)
            ns.update(self.globs)
            ns['main']()
        else:
            exec(code(self.name), ns)

    def _open(self, path, *a, **k):
        self.procs.call(100)
        if path not in self.files:
            raise FileNotFoundError(2, 'No such file or directory', path)
        return io.StringIO(self.files[path])

    def _import(self, name, globs=None, locs=None, fromlist=(), level=0):
        f = self._fakes().get(name)
        if f is not None:
            return f
        m = builtins.__import__(name, globs, locs, fromlist, level)
        if name in self.instead:
            m = types.SimpleNamespace(**dict(vars(m), **self.instead[name]))
        return m

    def _fakes(self):
        if hasattr(self, '_f'):
            return self._f
        prog, procs = self, self.procs

        class Lock:
            def acquire(self, *a):
                return True

            def release(self):
                pass

        class Process:
            def __init__(self, target=None, name=None, args=()):
                self.name = name
                self._t = (target, args)
                self._p = None

            def start(self):
                t, args = self._t
                ns = {}
                out = []

                def body():
                    prog._exec(ns, '__mp_main__', out)
                    for k, v in prog.main.items():      # what a fork takes over
                        if isinstance(v, type) and v.__module__ == '__main__' or not (
                                k.startswith('__') or callable(v) or isinstance(v, types.ModuleType)):
                            ns[k] = v

                    def own(v):
                        return ns[v.__name__] if isinstance(v, types.FunctionType) and v.__globals__ is prog.main else v
                    own(t)(*[own(a) for a in args])
                procs.call(1000)
                self._p = procs.spawn(self.name, body)
                self._p.ns = ns
                self._p.said = out
                prog.children[self.name] = self._p
                if prog.on_start is not None:
                    prog.on_start(self._p)

            def join(self, timeout=None):
                procs.call(0)
                procs.wait(lambda: not self._p.alive())

            def is_alive(self):
                return self._p is not None and self._p.alive()

            def terminate(self):
                procs.kill(self._p)

        def Pipe(duplex=True):
            return prog.pipes()

        def RPCCaller(conf_file=None):
            procs.call(1000)
            return prog.rpc(procs.cur.name, conf_file)

        def sleep(secs):
            procs.call(0)
            procs.sleep(secs)

        import bitcointx.rpc
        self._f = {
            'multiprocessing': types.SimpleNamespace(Process=Process, Pipe=Pipe, Lock=Lock),
            'time': types.SimpleNamespace(sleep=sleep),
            'signal': types.SimpleNamespace(signal=lambda *a: None, SIGINT=2, SIG_IGN=1),
            'traceback': types.SimpleNamespace(print_tb=self._tb),
            'sys': types.SimpleNamespace(argv=self.argv, exit=sys.exit, exc_info=sys.exc_info,
                                         stderr=types.SimpleNamespace(write=self.err.append)),
            'os': types.SimpleNamespace(path=types.SimpleNamespace(join=os.path.join, isfile=lambda p: p in self.files),
                                        urandom=self._urandom),
            'bitcointx.rpc': types.SimpleNamespace(RPCCaller=RPCCaller, JSONRPCError=bitcointx.rpc.JSONRPCError),
            'ecdsa': fake_ecdsa(),
        }
        return self._f

    def _urandom(self, n):
        b = os.urandom(n)
        self.rand.setdefault(self.procs.cur.name, []).append(b)
        return b

    def _tb(self, tb):
        p = self.procs.cur
        p.failed = sys.exc_info()[1]


_defs = {}


def _without_main(name):
    """the program without its last lines, which call main()"""
    if name not in _defs:
        import ast
        p = os.path.join(where(), name)
        with open(p) as f:
            t = ast.parse(f.read(), p)
        if not isinstance(t.body[-1], ast.If):
            raise HarnessError('%s does not end with its call of main()' % name)
        t.body.pop()
        _defs[name] = compile(t, p, 'exec')
    return _defs[name]
