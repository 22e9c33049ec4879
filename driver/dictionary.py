"""A fuzzing dictionary: the numbers, byte strings and texts written in the tree under test.

Values that the pinned tree does not have (or has fewer of) are used more often: an input that one line of a
changed tree singles out is then likely to be tried.  Only the choice of inputs depends on it, never a judgement.
"""
import ast
import collections
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.join(HERE, 'base_consts.json')
TOP = 2 ** 72


def fold(n):
    """The value of a constant expression, or None."""
    if isinstance(n, ast.Constant):
        v = n.value
        return v if isinstance(v, (int, float, bytes, str)) and not isinstance(v, bool) else None
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        v = fold(n.operand)
        return -v if isinstance(v, (int, float)) else None
    if isinstance(n, ast.BinOp):
        a, b = fold(n.left), fold(n.right)
        if isinstance(n.op, ast.Mult) and isinstance(a, bytes) and isinstance(b, int):
            return a * b if 0 <= b <= 200 else None
        if not (isinstance(a, int) and isinstance(b, int)) or abs(a) > TOP or abs(b) > TOP:
            return None
        if isinstance(n.op, ast.Pow):
            return a ** b if 0 <= b <= 80 else None
        if isinstance(n.op, ast.LShift):
            return a << b if 0 <= b <= 80 else None
        if isinstance(n.op, ast.Mult):
            return a * b
        if isinstance(n.op, ast.Add):
            return a + b
        if isinstance(n.op, ast.Sub):
            return a - b
    return None


def harvest(repo):
    c = collections.Counter()
    top = os.path.join(repo, 'riemann')
    for d, ds, fs in os.walk(top):
        ds[:] = sorted(x for x in ds if x not in ('tests', 'examples', '__pycache__'))
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            try:
                t = ast.parse(open(os.path.join(d, f), encoding='utf-8').read())
            except (SyntaxError, ValueError, OSError):
                continue
            for n in ast.walk(t):
                v = fold(n) if isinstance(n, (ast.Constant, ast.UnaryOp, ast.BinOp)) else None
                if isinstance(v, float) and v == int(v) and abs(v) < TOP:
                    v = int(v)
                if isinstance(v, int) and abs(v) < TOP:
                    c['i%d' % v] += 1
                elif isinstance(v, bytes) and 0 < len(v) <= 200:
                    c['b' + v.hex()] += 1
                elif isinstance(v, str) and 0 < len(v) <= 40 and v.isascii() and ' ' not in v:
                    c['s' + v] += 1
    return c


class Dictionary:
    def __init__(self, repo):
        now = harvest(repo)
        base = json.load(open(BASE)) if os.path.exists(BASE) else {}
        fresh = [k for k in sorted(now) if now[k] > base.get(k, 0)]
        self.fresh = bool(fresh)
        ks = fresh or sorted(now)
        ints, self.bytes, self.strs = set(), [], []
        for k in ks:
            if k[0] == 'i':
                v = abs(int(k[1:]))
                ints |= {v - 1, v, v + 1}
            elif k[0] == 'b':
                b = bytes.fromhex(k[1:])
                self.bytes.append(list(b))
                ints |= {len(b)} | ({int.from_bytes(b, 'little'), int.from_bytes(b, 'big')} if len(b) <= 8 else set())
            else:
                s = k[1:]
                self.strs.append(s)
                ints.add(len(s))
                try:
                    self.bytes.append(list(bytes.fromhex(s)))
                except ValueError:
                    pass
        self.bytes = [b for b in self.bytes if b]
        self.ints = sorted(x for x in ints if 0 <= x < TOP)
        if not self.fresh:
            self.ints = [x for x in self.ints if x < 2 ** 33]


if __name__ == '__main__':          # record the pinned tree's constants
    with open(BASE, 'w') as out:
        json.dump(dict(sorted(harvest(sys.argv[1]).items())), out, indent=0)
        out.write('\n')
