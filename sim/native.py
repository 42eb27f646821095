"""Builds and drives the stand-in for secp256k1-zkp (see native/simzkp.c)."""

import ctypes
import fcntl
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VERIF_BUILD_DIR') or os.path.join(ROOT, 'build')
LIB = os.path.join(BUILD, 'libsimzkp.so')
LIB_NOZKP = os.path.join(BUILD, 'libsimnozkp.so')
LIB_PARTIAL = os.path.join(BUILD, 'libsimpartial.so')       # lacks one of the functions that are needed
SRC = os.path.join(ROOT, 'native', 'simzkp.c')


def _stale(lib, src):
    return not os.path.exists(lib) or os.path.getmtime(lib) < os.path.getmtime(src)


def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for lib, extra in ((LIB, []), (LIB_NOZKP, ['-DSIM_NO_ZKP']),
                           (LIB_PARTIAL, ['-Dsecp256k1_surjectionproof_serialize=sim_hidden_serialize'])):
            if not _stale(lib, SRC):
                continue
            tmp = lib + '.tmp%d' % os.getpid()
            cmd = ['gcc', '-O2', '-fPIC', '-shared', '-fvisibility=hidden',
                   '-o', tmp, SRC] + extra + ['-Wl,--no-as-needed',
                                              '-l:libsecp256k1.so.1', '-ldl']
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                sys.stderr.write(r.stdout.decode('utf8', 'replace'))
                raise RuntimeError('cannot build %s' % lib)
            os.replace(tmp, lib)


class Control:
    """Fault injection seam and node-side verifier"""

    def __init__(self, path=LIB):
        lib = ctypes.CDLL(path)
        self.lib = lib
        lib.sim_nfuncs.restype = ctypes.c_int
        lib.sim_fname.restype = ctypes.c_char_p
        lib.sim_calls.restype = ctypes.c_long
        lib.sim_fired.restype = ctypes.c_long
        lib.sim_live_proofs.restype = ctypes.c_long
        lib.sim_bad_frees.restype = ctypes.c_long
        lib.sim_bad_args.restype = ctypes.c_long
        self.names = [lib.sim_fname(i).decode() for i in range(lib.sim_nfuncs())]
        self.index = {n: i for i, n in enumerate(self.names)}

    def reset(self):
        self.lib.sim_reset()

    def fail_at(self, name, n):
        """the n-th next call of the function will fail"""
        self.lib.sim_fail_at(self.index[name], ctypes.c_long(n))

    def fail_style(self, late):
        """late: functions that fail have filled their outputs by then"""
        self.lib.sim_fail_style(int(late))

    def calls(self, name):
        return self.lib.sim_calls(self.index[name])

    def fired(self, name=None):
        if name is None:
            return sum(self.lib.sim_fired(i) for i in range(len(self.names)))
        return self.lib.sim_fired(self.index[name])

    def live(self):
        return self.lib.sim_live_proofs()

    def bad_frees(self):
        return self.lib.sim_bad_frees()

    def bad_args(self):
        return self.lib.sim_bad_args()


if __name__ == '__main__':
    build()
