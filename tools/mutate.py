#!/usr/bin/env python3
"""Mutation trial of the checks (a tool for the author, not used by any check):
   tools/mutate.py list                   mutants, one per line
   tools/mutate.py run OUT.jsonl SCALE [k n [FILE]]  tries mutants number k, k+n, ... (of those in FILE) that pass the stable tests
   tools/mutate.py one NO SCALE [C..]     tries one
A mutant is made in a scratch copy under /tmp."""

import ast
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'
FILES = ['elementstx/__init__.py', 'elementstx/blech32.py', 'elementstx/liquid_addr.py', 'elementstx/wallet.py',
         'elementstx/core/__init__.py', 'elementstx/core/script.py', 'elementstx/core/secp256k1.py']
ORDER = {'elementstx/__init__.py': 'C04 C05 C18',
         'elementstx/blech32.py': 'C16 C17 C04', 'elementstx/liquid_addr.py': 'C16 C17 C04',
         'elementstx/wallet.py': 'C17 C16 C04 C11 C03 C18',
         'elementstx/core/__init__.py': 'C01 C06 C02 C03 C10 C08 C07 C15 C12 C09 C11 C13 C19 C05 C04 C18 C14 C17',
         'elementstx/core/script.py': 'C13 C14 C11 C10 C04 C06 C18 C03',
         'elementstx/core/secp256k1.py': 'C06 C05 C09 C10 C18 C12'}
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Is: 'is not',
       ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.LShift: '>>', ast.RShift: '<<', ast.BitAnd: '|', ast.BitOr: '&', ast.Mult: '+'}


def mutants():
    out = []
    for f in FILES:
        src = open(os.path.join(REPO, f)).read()
        tree = ast.parse(src)
        lines = src.encode().splitlines(keepends=True)
        off = [0]
        for x in lines:
            off.append(off[-1] + len(x))

        def span(n):
            return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

        def add(n, new, kind):
            a, b = span(n)
            out.append((f, n.lineno, a, b, new, kind))

        def text(n):
            a, b = span(n)
            return src.encode()[a:b].decode()

        def visit(n, fn):
            if isinstance(n, (ast.Raise,)):
                add(n, 'pass', 'no raise')
                return
            if isinstance(n, ast.AnnAssign):
                if n.value is not None:
                    visit(n.value, fn)
                return
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id.startswith('__') for t in n.targets):
                return
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for x in n.body:
                    visit(x, n.name)
                for x in n.args.defaults + [d for d in n.args.kw_defaults if d]:
                    visit(x, n.name)
                for x in n.decorator_list:
                    visit(x, n.name)
                return
            if isinstance(n, ast.Assert):
                return
            if isinstance(n, ast.Expr):
                if isinstance(n.value, ast.Constant):
                    return
                add(n, 'pass', 'no call')
            if isinstance(n, (ast.AugAssign,)):
                add(n, 'pass', 'no assignment')
            if isinstance(n, ast.Assign) and fn and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets):
                add(n, 'pass', 'no assignment')
            if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
                pass
            if isinstance(n, ast.Break):
                add(n, 'continue', 'break')
            if isinstance(n, ast.Continue):
                add(n, 'break', 'continue')
            if isinstance(n, (ast.If, ast.While, ast.IfExp)):
                add(n.test, '(not (%s))' % text(n.test), 'negated')
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                t = CMP.get(type(n.ops[0]))
                if t and not isinstance(n.ops[0], (ast.Is, ast.IsNot)):
                    add(n, '(%s %s %s)' % (text(n.left), t, text(n.comparators[0])), 'compare')
            if isinstance(n, ast.BoolOp):
                op = ' or ' if isinstance(n.op, ast.And) else ' and '
                add(n, '(' + op.join('(%s)' % text(v) for v in n.values) + ')', 'and/or')
                for k in range(len(n.values)):
                    rest = [text(v) for j, v in enumerate(n.values) if j != k]
                    o = ' and ' if isinstance(n.op, ast.And) else ' or '
                    add(n, '(' + o.join('(%s)' % r for r in rest) + ')', 'no operand %d' % k)
            if isinstance(n, ast.BinOp):
                t = BIN.get(type(n.op))
                if t and not isinstance(n.left, ast.Constant) or t and isinstance(n.left, ast.Constant) and not isinstance(n.left.value, str):
                    add(n, '(%s %s %s)' % (text(n.left), t, text(n.right)), 'operator')
            if isinstance(n, ast.Constant) and fn is not None or isinstance(n, ast.Constant) and isinstance(n.value, (int, bytes)):
                v = n.value
                if isinstance(v, bool):
                    add(n, repr(not v), 'constant')
                elif isinstance(v, int):
                    add(n, '(%d)' % (v + 1), 'constant+1')
                    if v > 0:
                        add(n, '(%d)' % (v - 1), 'constant-1')
                elif isinstance(v, bytes):
                    add(n, repr(bytes([v[0] ^ 1]) + v[1:] if v else b'\0'), 'constant')
            if isinstance(n, ast.Call):
                if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                    a, b = span(n.args[0])
                    c, d = span(n.args[1])
                    s = src.encode()
                    if s[a:b] != s[c:d]:
                        out.append((f, n.lineno, a, d, (s[c:d] + s[b:c] + s[a:b]).decode(), 'swapped arguments'))
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
                pass
            for c in ast.iter_child_nodes(n):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('cast', 'TypeVar', 'NamedTuple'):
                    continue
                if isinstance(c, ast.JoinedStr):
                    continue
                visit(c, fn)
        for n in tree.body:
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                continue
            visit(n, None)
    seen, res = set(), []
    for m in out:
        if m[:1] + m[2:5] not in seen:
            seen.add(m[:1] + m[2:5])
            res.append(m)
    return res


def describe(m):
    src = open(os.path.join(REPO, m[0]), 'rb').read()
    return '%s:%d %s: %r -> %r' % (m[0], m[1], m[5], src[m[2]:m[3]].decode()[:90], m[4][:90])


def make(m, w):
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    shutil.copytree(REPO + '/elementstx', w + '/elementstx', ignore=shutil.ignore_patterns('__pycache__'))
    p = os.path.join(w, m[0])
    s = open(p, 'rb').read()
    s = s[:m[2]] + m[4].encode() + s[m[3]:]
    try:
        compile(s, p, 'exec')
    except SyntaxError:
        return False
    open(p, 'wb').write(s)
    return True


def tests(w):
    env = dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE='1')
    env.pop('ELEMENTSTX_TESTS_SECP256K1_PATH', None)
    try:
        return subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'elementstx'], cwd=w, env=env,
                              stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120).returncode == 0
    except subprocess.TimeoutExpired:
        return False


def probe(w, pid, scale, timeout=300):
    env = dict(os.environ, VERIF_REPO=w)
    env.pop('VERIF_INNER', None)
    try:
        p = subprocess.run([sys.executable, os.path.join(ROOT, 'run_check.py'), 'probe', pid, scale], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    o = p.stdout.decode(errors='replace').strip().splitlines()
    return {0: 'ok', 1: 'VIOLATION'}.get(p.returncode, 'error'), (o[-1] if o else '')[:200]


def trial(m, w, scale, pids=None):
    if not make(m, w):
        return {'what': describe(m), 'result': 'no syntax'}
    if not tests(w):
        return {'what': describe(m), 'result': 'tests'}
    res = {'what': describe(m), 'result': 'survived', 'errors': []}
    for pid in pids or ORDER[m[0]].split():
        r, line = probe(w, pid, scale)
        if r == 'VIOLATION':
            res['result'] = pid
            res['line'] = line
            break
        if r != 'ok':
            res['errors'].append((pid, r, line))
    return res


def main():
    ms = mutants()
    if sys.argv[1] == 'list':
        for k, m in enumerate(ms):
            print(k, describe(m))
        return
    if sys.argv[1] == 'one':
        w = '/tmp/mut/one%s' % sys.argv[2]
        print(json.dumps(trial(ms[int(sys.argv[2])], w, sys.argv[3], sys.argv[4:]), indent=1))
        shutil.rmtree(w)
        return
    k, n = int(sys.argv[4]), int(sys.argv[5])
    w = '/tmp/mut/w%d-%s' % (k, os.path.basename(sys.argv[2]))
    todo = [int(x) for x in open(sys.argv[6])] if len(sys.argv) > 6 else range(len(ms))
    for i in todo[k::n]:
        r = trial(ms[i], w, sys.argv[3])
        r['no'] = i
        with open(sys.argv[2], 'a') as f:
            f.write(json.dumps(r) + '\n')
    shutil.rmtree(w, ignore_errors=True)


main()
