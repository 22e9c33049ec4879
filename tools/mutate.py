"""Development aid (no check uses it): mutates the library in scratch copies, keeps the mutants the
existing tests do not notice, and reports for each whether any recording differs from the baseline.

usage: mutate.py OUTDIR WORKERS [FILE-SUBSTRING] [SAMPLE]
Results: OUTDIR/results.ndjson, one line per mutant: file, line, what, tests(killed?), seen-by.
"""
import ast
import concurrent.futures as cf
import hashlib
import json
import os
import queue
import random
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SHARDS = 2
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent/pycache', PYTHONHASHSEED='0')
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in',
       ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.FloorDiv: '*', ast.Mod: '*', ast.LShift: '>>', ast.RShift: '<<',
       ast.BitOr: '&', ast.BitAnd: '|', ast.BitXor: '|'}


class Src:
    def __init__(self, text):
        self.text = text
        self.off = [0]
        for l in text.encode().splitlines(True):
            self.off.append(self.off[-1] + len(l))
        self.raw = text.encode()

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def seg(self, n):
        a, b = self.span(n)
        return self.raw[a:b].decode()

    def put(self, a, b, s):
        return (self.raw[:a] + s.encode() + self.raw[b:]).decode()


def mutants(text):
    s = Src(text)
    tree = ast.parse(text)
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0].value)
            docs.add(n.body[0])
    ann = set()
    for n in ast.walk(tree):
        for f in ('annotation', 'returns'):
            x = getattr(n, f, None)
            if isinstance(x, ast.AST):
                ann.update(ast.walk(x))
    raises = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise):
            raises.update(ast.walk(n))
            raises.discard(n)

    def sub(n, new, what):
        a, b = s.span(n)
        return n.lineno, '%s -> %s' % (s.seg(n)[:60].replace('\n', ' '), what), s.put(a, b, new)

    for n in ast.walk(tree):
        if n in docs or n in ann or n in raises:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = CMP[type(n.ops[0])]
            yield sub(n, '(%s %s %s)' % (s.seg(n.left), o, s.seg(n.comparators[0])), o)
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield sub(n, str(not n.value), str(not n.value))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            yield sub(n, str(n.value + 1), '+1')
            if n.value:
                yield sub(n, str(n.value - 1), '-1')
        elif isinstance(n, ast.Constant) and isinstance(n.value, bytes) and n.value:
            yield sub(n, repr(bytes([n.value[0] ^ 1]) + n.value[1:]), 'flip')
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value and len(n.value) < 80:
            v = n.value
            yield sub(n, repr(v[:-1] + chr(ord(v[-1]) ^ 1)), 'str')
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            yield sub(n, '(' + o.join('(%s)' % s.seg(v) for v in n.values) + ')', o)
            for k in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != k]
                yield sub(n, '(' + (' and ' if o == ' or ' else ' or ').join('(%s)' % s.seg(v) for v in rest) + ')', 'drop operand %d' % k)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield sub(n, '(%s)' % s.seg(n.operand), 'no not')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            o = BIN[type(n.op)]
            yield sub(n, '(%s %s %s)' % (s.seg(n.left), o, s.seg(n.right)), o)
            yield sub(n, '(%s)' % s.seg(n.left), 'left only')
            yield sub(n, '(%s)' % s.seg(n.right), 'right only')
        elif isinstance(n, (ast.If, ast.IfExp)):
            yield sub(n.test, '(True)', 'True')
            yield sub(n.test, '(False)', 'False')
        elif isinstance(n, ast.Slice):
            for f in ('lower', 'upper'):
                x = getattr(n, f)
                if x is not None:
                    yield sub(x, '(%s) + 1' % s.seg(x), 'slice +1')
                    yield sub(x, '(%s) - 1' % s.seg(x), 'slice -1')
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args[:2]):
            a, b = n.args[0], n.args[1]
            (a0, a1), (b0, b1) = s.span(a), s.span(b)
            t = s.raw[:a0] + s.raw[b0:b1] + s.raw[a1:b0] + s.raw[a0:a1] + s.raw[b1:]
            yield n.lineno, 'swap args ' + s.seg(n)[:60].replace('\n', ' '), t.decode()
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break)):
            yield sub(n, 'pass', 'deleted')
        if isinstance(n, ast.Call):
            # one keyword argument dropped
            for k in n.keywords:
                if k.arg and k.value.end_lineno:
                    a, b = s.span(k.value)
                    t = s.raw[:a] + b'None' + s.raw[b:]
                    yield n.lineno, 'kw %s=None in %s' % (k.arg, s.seg(n.func)[:40]), t.decode()
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            yield sub(n.value, 'None', 'return None')


def screen(repo, base, shards, *more):
    try:
        p = subprocess.run([PY, '-B', HERE + '/tools/screen.py', base, str(shards)] + list(more), env=dict(ENV, RIEMANN_REPO=repo),
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=900, text=True)
    except subprocess.TimeoutExpired:
        return 'timeout'
    return p.stdout.strip() or 'rc%d' % p.returncode


def main():
    outdir, workers = sys.argv[1], int(sys.argv[2])
    sub = sys.argv[3] if len(sys.argv) > 3 else ''
    sample = int(sys.argv[4]) if len(sys.argv) > 4 else 0
    os.makedirs(outdir, exist_ok=True)
    files = []
    for d, _, fs in os.walk('/repo/riemann'):
        if 'tests' in d or 'examples' in d:
            continue
        files += [os.path.relpath(os.path.join(d, f), '/repo') for f in fs if f.endswith('.py') and f != 'examples.py']
    todo = []
    for f in sorted(files):
        if sub and sub not in f:
            continue
        text = open('/repo/' + f).read()
        seen = {text}
        for line, what, new in mutants(text):
            if new in seen:
                continue
            seen.add(new)
            try:
                compile(new, f, 'exec')
            except (SyntaxError, ValueError):
                continue
            todo.append((f, line, what, new))
    done = set()
    res = os.path.join(outdir, 'results.ndjson')
    if os.path.exists(res):
        for l in open(res):
            r = json.loads(l)
            done.add((r['file'], r['line'], r['what']))
    random.Random(7).shuffle(todo)
    if sample:
        todo = todo[:sample]
    todo = [t for t in todo if t[:3] not in done]
    print(len(todo), 'mutants')
    slots = queue.Queue()
    for i in range(workers):
        d = os.path.join(outdir, 'copy%d' % i)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git'))
        slots.put(d)
    base = os.path.join(outdir, 'base.json')
    d = slots.get()
    print(screen(d, base, SHARDS, '--make'))
    slots.put(d)
    print('baseline done')
    out = open(res, 'a')

    def one(t):
        f, line, what, new = t
        d = slots.get()
        try:
            path = os.path.join(d, f)
            old = open(path).read()
            open(path, 'w').write(new)
            r = {'file': f, 'line': line, 'what': what}
            try:
                try:
                    p = subprocess.run([PY, '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider', '--timeout=60', 'riemann/tests'],
                                       cwd=d, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
                    r['tests'] = p.returncode == 0
                except subprocess.TimeoutExpired:
                    r['tests'] = False
                if r['tests']:
                    seen = screen(d, base, SHARDS)
                    seen = None if seen == 'same' else seen
                    r['seen'] = seen
                    if not seen:
                        r['patch'] = new
            finally:
                open(path, 'w').write(old)
            return r
        finally:
            slots.put(d)
    with cf.ThreadPoolExecutor(workers) as ex:
        for x in cf.as_completed([ex.submit(one, t) for t in todo]):
            r = x.result()
            patch = r.pop('patch', None)
            if patch is not None:
                name = hashlib.sha256(patch.encode()).hexdigest()[:10]
                open(os.path.join(outdir, name + '.py'), 'w').write(patch)
                r['file_id'] = name
            out.write(json.dumps(r) + '\n')
            out.flush()
    for i in range(workers):
        shutil.rmtree(os.path.join(outdir, 'copy%d' % i), ignore_errors=True)


main()
