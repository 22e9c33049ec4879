"""Generation of abstract values (JSON-ready), independent of the library under test."""
import bisect
import hashlib
import os
import random

from dictionary import Dictionary

DICT = Dictionary(os.environ.get('RIEMANN_REPO', '/repo'))

NETS = ['bitcoin_main', 'bitcoin_test', 'bitcoin_reg', 'litecoin_main', 'litecoin_test', 'litecoin_reg',
        'bitcoin_cash_main', 'bitcoin_cash_test', 'bitcoin_cash_reg', 'bitcoin_gold_main', 'bitcoin_gold_test',
        'bitcoin_gold_reg', 'dogecoin_main', 'dogecoin_test', 'dogecoin_reg', 'dash_main', 'dash_test', 'dash_reg',
        'zcash_sprout_main', 'zcash_sprout_test', 'zcash_sprout_reg', 'zcash_overwinter_main',
        'zcash_overwinter_test', 'zcash_overwinter_reg', 'zcash_sapling_main', 'zcash_sapling_test',
        'zcash_sapling_reg', 'decred_main', 'decred_test', 'decred_simnet', 'pivx_main', 'pivx_test', 'pivx_reg',
        'viacoin_main', 'viacoin_test', 'viacoin_simnet', 'feathercoin_main', 'feathercoin_test',
        'feathercoin_reg', 'bitcoin_dark_main', 'bitcoin_dark_test', 'bitcoin_dark_reg', 'axe_main', 'axe_test',
        'axe_reg', 'bitcore_main', 'bitcore_test', 'bitcore_reg', 'digibyte_main', 'digibyte_test',
        'digibyte_reg', 'groestlcoin_main', 'groestlcoin_test', 'groestlcoin_reg', 'monacoin_main',
        'monacoin_test', 'monacoin_reg', 'navcoin_main', 'navcoin_test', 'navcoin_reg', 'syscoin_main',
        'syscoin_test', 'syscoin_reg', 'vertcoin_main', 'vertcoin_test', 'vertcoin_reg', 'bitcoin_private_main',
        'bitcoin_private_test', 'bitcoin_private_reg', 'verge_main', 'verge_test', 'verge_reg']
assert len(NETS) == 72 == len(set(NETS))
DECRED = [n for n in NETS if n.startswith('decred')]
SPROUT = [n for n in NETS if 'sprout' in n]
OVERWINTER = [n for n in NETS if 'overwinter' in n]
SAPLING = [n for n in NETS if 'sapling' in n]
ZCASH = SPROUT + OVERWINTER + SAPLING
FORK = [n for n in NETS if n.startswith(('bitcoin_cash', 'bitcoin_gold', 'bitcoin_private'))]
BITCOINY = [n for n in NETS if n not in DECRED + ZCASH]
PLAIN = [n for n in BITCOINY if n not in FORK]
SEGWIT = [n for n in NETS if n.startswith((
    'bitcoin_main', 'bitcoin_test', 'bitcoin_reg', 'litecoin', 'bitcoin_gold', 'viacoin', 'feathercoin', 'bitcore',
    'digibyte', 'groestlcoin', 'monacoin', 'navcoin', 'syscoin', 'vertcoin'))]
CASH = [n for n in NETS if n.startswith('bitcoin_cash')]
# one network of every behaviour
FAMILIES = ['bitcoin_main', 'litecoin_test', 'bitcoin_cash_main', 'bitcoin_gold_main', 'bitcoin_private_test',
            'dogecoin_main', 'zcash_sprout_main', 'zcash_overwinter_test', 'zcash_sapling_main', 'decred_main',
            'decred_simnet', 'bitcore_main', 'groestlcoin_main', 'vertcoin_reg']

OPNAMES = ['OP_0', 'OP_PUSHDATA1', 'OP_PUSHDATA2', 'OP_PUSHDATA4', 'OP_1NEGATE', 'OP_RESERVED'] + \
    ['OP_%d' % i for i in range(1, 17)] + \
    ('OP_NOP OP_VER OP_IF OP_NOTIF OP_VERIF OP_VERNOTIF OP_ELSE OP_ENDIF OP_VERIFY OP_RETURN OP_TOALTSTACK '
     'OP_FROMALTSTACK OP_2DROP OP_2DUP OP_3DUP OP_2OVER OP_2ROT OP_2SWAP OP_IFDUP OP_DEPTH OP_DROP OP_DUP OP_NIP '
     'OP_OVER OP_PICK OP_ROLL OP_ROT OP_SWAP OP_TUCK OP_CAT OP_SUBSTR OP_LEFT OP_RIGHT OP_SIZE OP_INVERT OP_AND '
     'OP_OR OP_XOR OP_EQUAL OP_EQUALVERIFY OP_RESERVED1 OP_RESERVED2 OP_1ADD OP_1SUB OP_2MUL OP_2DIV OP_NEGATE '
     'OP_ABS OP_NOT OP_0NOTEQUAL OP_ADD OP_SUB OP_MUL OP_DIV OP_MOD OP_LSHIFT OP_RSHIFT OP_BOOLAND OP_BOOLOR '
     'OP_NUMEQUAL OP_NUMEQUALVERIFY OP_NUMNOTEQUAL OP_LESSTHAN OP_GREATERTHAN OP_LESSTHANOREQUAL '
     'OP_GREATERTHANOREQUAL OP_MIN OP_MAX OP_WITHIN OP_RIPEMD160 OP_SHA1 OP_SHA256 OP_HASH160 OP_HASH256 '
     'OP_CODESEPARATOR OP_CHECKSIG OP_CHECKSIGVERIFY OP_CHECKMULTISIG OP_CHECKMULTISIGVERIFY OP_NOP1 OP_NOP2 '
     'OP_CHECKLOCKTIMEVERIFY OP_NOP3 OP_CHECKSEQUENCEVERIFY OP_NOP4 OP_NOP5 OP_NOP6 OP_NOP7 OP_NOP8 OP_NOP9 '
     'OP_NOP10 OP_INVALIDOPCODE').split()
SAFE_OPS = [o for o in OPNAMES if o not in ('OP_CODESEPARATOR', 'OP_PUSHDATA4', 'OP_PUSHDATA1', 'OP_PUSHDATA2')]


def T(s):
    return [ord(c) for c in s]


def big(n):
    m = abs(n)
    return {'neg': n < 0, 'mag': list(m.to_bytes((m.bit_length() + 7) // 8, 'little'))}


def le(n, w):
    return list(n.to_bytes(w, 'little'))


def cs(n):
    if n <= 252:
        return [n]
    if n <= 0xffff:
        return [253] + le(n, 2)
    if n <= 0xffffffff:
        return [254] + le(n, 4)
    return [255] + le(n, 8)


def cs_long(n, w):
    """A longer-than-needed form with w value bytes."""
    return [{2: 253, 4: 254, 8: 255}[w]] + le(n, w)


def push(b):
    n = len(b)
    if n <= 75:
        return [n] + b
    if n <= 255:
        return [76, n] + b
    return [77] + le(n, 2) + b


SPROOF = [33, 33, 65, 33, 33, 33, 33, 33]
GPROOF = [48, 96, 48]
JS = ['vold', 'vnew', 'anchor', 'nulls', 'comms', 'ek', 'seed', 'macs', 'proof', 'notes']
SJS = [8, 8, 32, 64, 64, 32, 32, 64, 296, 1202]
GJS = [8, 8, 32, 64, 64, 32, 32, 64, 192, 1202]
SPEND = ['cv', 'anchor', 'nullifier', 'rk', 'proof', 'auth']
SPENDS = [32, 32, 32, 32, 192, 64]
OUTF = ['cv', 'cmu', 'ek', 'enc', 'outc', 'proof']
OUTS = [32, 32, 32, 580, 80, 192]


def vb(b):
    return cs(len(b)) + b


def vec(f, xs):
    r = cs(len(xs))
    for x in xs:
        r += f(x)
    return r


def ser_txin(i):
    return i['op'] + vb(i['stack'] + i['redeem']) + i['seq']


def ser_txout(o):
    return o['value'] + vb(o['script'])


def ser_wit(w):
    return vec(vb, w)


def cat(fs, d):
    return sum((d[f] for f in fs), [])


def opt(o):
    return o[0] if o else []


def js_tail(d, order):
    r = vec(lambda j: cat(JS, j), d['js'])
    if d['js']:
        r += opt(d['pub']) + opt(d['sig'])
    return r


def ser(k, d):
    if k == 'outpoint':
        return d['txid'] + d['index']
    if k == 'doutpoint':
        return d['txid'] + d['index'] + d['tree']
    if k == 'txin':
        return ser_txin(d)
    if k == 'txout':
        return ser_txout(d)
    if k == 'witem':
        return vb(d['item'])
    if k == 'witness':
        return ser_wit(d['stack'])
    if k == 'tx':
        return (d['version'] + opt(d['flag']) + vec(ser_txin, d['ins']) + vec(ser_txout, d['outs'])
                + sum((ser_wit(w) for w in d['wits']), []) + d['lock'])
    if k in ('sproof', 'gproof'):
        return sum(d['parts'], [])
    if k in ('sjs', 'gjs'):
        return cat(JS, d)
    if k == 'gspend':
        return cat(SPEND, d)
    if k == 'goutput':
        return cat(OUTF, d)
    if k == 'sprout':
        r = d['version'] + vec(ser_txin, d['ins']) + vec(ser_txout, d['outs']) + d['lock']
        return r + (js_tail(d, JS) if d['version'] == [2, 0, 0, 0] else [])
    if k == 'overwinter':
        return ([3, 0, 0, 128, 112, 130, 196, 3] + vec(ser_txin, d['ins']) + vec(ser_txout, d['outs']) + d['lock']
                + d['expiry'] + js_tail(d, JS))
    if k == 'sapling':
        r = ([4, 0, 0, 128, 133, 32, 47, 137] + vec(ser_txin, d['ins']) + vec(ser_txout, d['outs']) + d['lock']
             + d['expiry'] + d['vb'] + vec(lambda x: cat(SPEND, x), d['spends'])
             + vec(lambda x: cat(OUTF, x), d['souts']) + js_tail(d, JS))
        return r + (opt(d['bsig']) if d['spends'] or d['souts'] else [])
    if k == 'dtxin':
        return d['op'] + d['seq']
    if k == 'dtxout':
        return d['value'] + d['version'] + vb(d['script'])
    if k == 'dwitness':
        return d['value'] + d['height'] + d['index'] + vb(d['stack'] + d['redeem'])
    if k == 'decred':
        return (d['version'] + vec(lambda x: ser('dtxin', x), d['ins']) + vec(lambda x: ser('dtxout', x), d['outs'])
                + d['lock'] + d['expiry'] + vec(lambda x: ser('dwitness', x), d['wits']))
    raise KeyError(k)


TXKIND = {}
for _n in BITCOINY:
    TXKIND[_n] = 'tx'
for _n in SPROUT:
    TXKIND[_n] = 'sprout'
for _n in OVERWINTER:
    TXKIND[_n] = 'overwinter'
for _n in SAPLING:
    TXKIND[_n] = 'sapling'
for _n in DECRED:
    TXKIND[_n] = 'decred'
PARTS_OF = {'tx': ['outpoint', 'txin', 'txout', 'witem', 'witness'],
            'sprout': ['outpoint', 'txin', 'txout', 'sproof', 'sjs'],
            'overwinter': ['outpoint', 'txin', 'txout', 'sproof', 'sjs'],
            'sapling': ['outpoint', 'txin', 'txout', 'gproof', 'gjs', 'gspend', 'goutput'],
            'decred': ['doutpoint', 'dtxin', 'dtxout', 'dwitness']}
PARSERS = ['outpoint', 'txin', 'txout', 'witem', 'witness', 'tx', 'sproof', 'gproof', 'sjs', 'gjs', 'gspend',
           'goutput', 'sprout', 'overwinter', 'sapling', 'doutpoint', 'dtxin', 'dtxout']
COPIERS = ['outpoint', 'txin', 'txout', 'witness', 'tx', 'sprout', 'overwinter', 'sapling',
           'doutpoint', 'dtxin', 'dtxout', 'dwitness', 'decred']


class Gen(random.Random):
    """Random abstract values with an eye on boundaries."""

    def near(self, lo, hi, p=None):
        """Now and then a number from the dictionary in lo..hi-1."""
        if self.random() < (p or (0.12 if DICT.fresh else 0.02)):
            i, j = bisect.bisect_left(DICT.ints, lo), bisect.bisect_left(DICT.ints, hi)
            if i < j:
                return DICT.ints[i + int(self.random() * (j - i))]
        return None

    def randrange(self, start, stop=None, step=1):
        lo, hi = (0, start) if stop is None else (start, stop)
        if step == 1 and hi - lo > 6:
            v = self.near(lo, hi)
            if v is not None:
                return v
        return super().randrange(lo, hi, step)

    def rb(self, n):
        b = self.rb0(n)
        m = self.random()
        if n > 1 and m < 0.06:                 # zeros, or another byte, at either end
            k = 1 + int(self.random() * min(n - 1, 4))
            x = [0, 0, 255, 128][int(self.random() * 4)]
            b = [x] * k + b[k:] if self.random() < 0.5 else b[:n - k] + [x] * k
        elif n and m > (0.93 if DICT.fresh else 0.99) and DICT.bytes:
            x = self.choice(DICT.bytes)[:n]
            k = self.choice([0, n - len(x), int(self.random() * (n - len(x) + 1))])
            b = b[:k] + x + b[k + len(x):]
        elif n and DICT.fresh and m > 0.88:
            v = self.near(0, 256, 1.1)
            b[self.choice([0, n - 1, int(self.random() * n)])] = v if v is not None else 0
        return b

    def rb0(self, n):
        m = self.random()
        if m < 0.72:
            return list(self.randbytes(n))
        if m < 0.78:
            return [0] * n
        if m < 0.84:
            return [255] * n
        if m < 0.92:
            return [(i + 1) % 256 for i in range(n)]
        return [self.randrange(256)] * n

    def pick(self, *xs):
        return self.choice(xs)

    def n32(self):
        v = self.near(0, 2 ** 32)
        return v if v is not None else self.choice([0, 1, 2, 0xfc, 0xfd, 0xff, 0x100, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffe,
                            0xffffffff, self.randrange(2 ** 32), self.randrange(2 ** 32), self.randrange(2 ** 32)])

    def n64(self):
        v = self.near(0, 2 ** 64)
        return v if v is not None else self.choice([0, 1, 546, 549, 550, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1,
                            21 * 10 ** 14, self.randrange(2 ** 64), self.randrange(2 ** 40), self.randrange(10 ** 9)])

    def seq(self):
        v = self.near(0, 2 ** 32)
        return le(v if v is not None else self.choice([0, 1, 0xffffffff, 0xfffffffe, 0xfffffffd, 0x80000000, self.randrange(2 ** 32),
                               self.randrange(2 ** 32)]), 4)

    def version(self):
        v = self.near(0, 2 ** 32)
        return le(v if v is not None else self.choice([1, 2, 2, 1, 0, 3, 0x80000003, self.n32()]), 4)

    def lock(self):
        v = self.near(0, 2 ** 32)
        return le(v if v is not None else self.choice([0, 0, 1, 499999999, 500000000, 500000001, 0xffffffff, self.n32()]), 4)

    def outpoint_b(self):
        m = self.random()
        if m < 0.07:
            return [0] * 32 + [255] * 4
        if m < 0.10:
            return [0] * 36
        if m < 0.13:
            return self.rb(32) + [255] * 4
        return self.rb(32) + le(self.n32(), 4)

    def key(self):
        return [self.pick(2, 3)] + self.rb(32) if self.random() < 0.7 else [4] + self.rb(64)

    def std_script(self):
        m = self.randrange(7)
        h = self.rb(20)
        if m == 0:
            return [118, 169, 20] + h + [136, 172]
        if m == 1:
            return [169, 20] + h + [135]
        if m == 2:
            return [0, 20] + h
        if m == 3:
            return [0, 32] + self.rb(32)
        if m == 4:
            return [106] + push(self.rb(self.randrange(0, 78)))
        if m == 5:
            return push(self.key()) + [172]
        k = self.randrange(1, 4)
        return [80 + self.randrange(1, k + 1)] + sum((push(self.key()) for _ in range(k)), []) + [80 + k, 174]

    def script_len(self, big=False):
        v = self.near(0, 2000)
        if v is not None:
            return v
        m = self.random()
        if m < 0.70:
            return self.randrange(0, 60)
        if m < 0.9:
            return self.choice([0, 1, 74, 75, 76, 77, 107, 200, 250, 251])
        return self.choice([252, 253, 254, 255, 256, 300] + ([1000, 65535, 65536] if big else []))

    def out_script(self, parseable=False, big=False):
        if self.random() < 0.5:
            return self.std_script()
        n = self.script_len(big)
        return self.rb(min(n, 251) if parseable else n)

    def tokens(self, n, net='bitcoin_main', maxdata=80):
        r = []
        for _ in range(n):
            if self.random() < 0.55:
                ops = [x for x in DICT.strs if x in SAFE_OPS] if DICT.fresh else []
                r.append(T(self.choice(ops if ops and self.random() < 0.3 else SAFE_OPS)))
            else:
                ln = self.near(1, 530) or self.choice([1, 1, 2, 20, 32, 33, 65, 72, self.randrange(1, maxdata)])
                r.append(T(bytes(self.rb(ln)).hex()))
        return r

    def script_sig(self):
        """(stack, redeem) with many shapes; the split is arbitrary."""
        m = self.randrange(12)
        if m in (0, 1):
            return [], []
        if m in (2, 3):
            return push(self.rb(self.choice([71, 72, 73]))) + push(self.key()), []
        if m == 4:
            return [0] + push(self.rb(72)) + push(self.rb(71)), push(self.std_script())
        if m == 5:
            return [], push([0, 20] + self.rb(20))
        if m == 6:
            return self.rb(self.randrange(1, 40)), self.rb(self.randrange(0, 40))
        if m == 7:
            n = self.choice([75, 76, 251, 252, 253, 254, 255, 256])
            j = self.randrange(0, n + 1)
            b = self.rb(n)
            return b[:j], b[j:]
        if m == 8:
            return push(self.rb(self.randrange(1, 76))), push(self.rb(self.choice([1, 5, 76, 255, 256])))
        if m == 9:
            return [], push(push(self.key()) + [172])
        if m == 10:
            return [self.choice([0, 79, 81, 96])], push([81])
        return self.rb(self.randrange(0, 20)), []

    def long_sig(self):
        n = self.choice([1000, 1648, 1649, 1650])
        j = self.choice([0, n, n // 2, 1])
        b = self.rb(n)
        return b[:j], b[j:]

    def txin(self, small=False):
        s, r = ([], []) if small else self.script_sig()
        if not small and self.random() < 0.03:
            s, r = self.long_sig()
        return {'op': self.outpoint_b(), 'stack': s, 'redeem': r, 'seq': self.seq()}

    def txout(self, parseable=False, small=False, big=False):
        return {'value': le(self.n64(), 8),
                'script': self.rb(self.randrange(4)) if small else self.out_script(parseable, big)}

    def items(self, n):
        return [self.rb(v if v is not None else self.choice([0, 0, 1, 32, 33, 64, 65, 71, 72, 73, 100] +
                                    ([252, 253, 520] if self.random() < 0.1 else [])))
                for v in [self.near(0, 2000) for _ in range(n)]]

    def counts(self, wide):
        v = self.near(1, 260, 0.05 if DICT.fresh else 0.01)
        if v is not None:
            return v
        m = self.random()
        if m < 0.02:
            return 6 + int(self.random() * 40)
        if m < 0.9 or not wide:
            return self.choice([1, 1, 1, 2, 2, 3, 4, 5])
        return self.choice([251, 252, 253, 254, 255, 256, 257])

    def tx(self, segwit=None, wits=None, parseable=False, wide=False, nin=None, nout=None, big=False):
        nin = nin or self.counts(wide)
        nout = nout or self.counts(wide)
        segwit = (self.random() < 0.5) if segwit is None else segwit
        ins = [self.txin(small=nin > 20) for _ in range(nin)]
        outs = [self.txout(parseable, small=nout > 20, big=big) for _ in range(nout)]
        w = []
        if segwit and (self.random() < 0.7 if wits is None else wits):
            w = [self.items(self.choice([0, 0, 1, 2, 2, 3]) if nin <= 20 else self.choice([0, 0, 1]))
                 for _ in range(nin)]
        return {'version': self.version(), 'flag': [[0, 1]] if segwit else [], 'ins': ins, 'outs': outs,
                'wits': w, 'lock': self.lock()}

    def proof(self, k):
        return {'parts': [self.rb(n) for n in (SPROOF if k == 'sproof' else GPROOF)]}

    def jsplit(self, k):
        d = {f: self.rb(n) for f, n in zip(JS, SJS if k == 'sjs' else GJS)}
        z = self.choice(['vold', 'vnew', 'both'])
        for f in ('vold', 'vnew'):
            d[f] = [0] * 8 if z in (f, 'both') else le(self.n64(), 8)
        return d

    def spend(self):
        return {f: self.rb(n) for f, n in zip(SPEND, SPENDS)}

    def shout(self):
        return {f: self.rb(n) for f, n in zip(OUTF, OUTS)}

    def js_fields(self, k, n):
        return {'js': [self.jsplit(k) for _ in range(n)],
                'pub': [self.rb(32)] if n else [], 'sig': [self.rb(64)] if n else []}

    def njs(self):
        return self.choice([0, 0, 0, 1, 1, 2, 3, 5]) if self.random() < 0.8 else self.randrange(0, 6)

    def sprout(self, njs=None, parseable=False, version=None, nin=None, nout=None):
        n = self.njs() if njs is None else njs
        v = version or (2 if n else self.choice([1, 2]))
        nin = self.choice([1, 1, 2, 3]) if nin is None else nin
        nout = self.choice([0, 1, 1, 2, 3]) if nout is None else nout
        if v == 2 and n and self.random() < 0.15:
            nin = 0
        return dict({'version': le(v, 4), 'ins': [self.txin() for _ in range(nin)],
                     'outs': [self.txout(parseable) for _ in range(nout)], 'lock': self.lock()},
                    **self.js_fields('sjs', n))

    def expiry(self):
        return le(self.choice([0, 1, 499999999, 499999998, self.randrange(500000000)]), 4)

    def overwinter(self, njs=None, parseable=False, nin=None, nout=None):
        n = self.njs() if njs is None else njs
        nin = (self.choice([1, 1, 2, 3]) if not n or self.random() < 0.8 else 0) if nin is None else nin
        nout = self.choice([0, 1, 1, 2, 3]) if nout is None else nout
        return dict({'ins': [self.txin() for _ in range(nin)], 'outs': [self.txout(parseable) for _ in range(nout)],
                     'lock': self.lock(), 'expiry': self.expiry()}, **self.js_fields('sjs', n))

    def sapling(self, njs=None, parseable=False, nin=None, nout=None, nsp=None, nso=None):
        n = self.njs() if njs is None else njs
        nsp = self.choice([0, 0, 1, 2, 3]) if nsp is None else nsp
        nso = self.choice([0, 0, 1, 2]) if nso is None else nso
        nin = (self.choice([1, 1, 2, 3]) if not (n or nsp) or self.random() < 0.8 else 0) if nin is None else nin
        nout = self.choice([0, 1, 1, 2, 3]) if nout is None else nout
        sh = nsp or nso
        vbal = self.choice([0, 1, -1, 2 ** 63 - 1, -2 ** 63, self.randrange(-10 ** 12, 10 ** 12)]) if sh else 0
        return dict({'ins': [self.txin() for _ in range(nin)], 'outs': [self.txout(parseable) for _ in range(nout)],
                     'lock': self.lock(), 'expiry': self.expiry(),
                     'vb': list(vbal.to_bytes(8, 'little', signed=True)),
                     'spends': [self.spend() for _ in range(nsp)], 'souts': [self.shout() for _ in range(nso)],
                     'bsig': [self.rb(64)] if sh else []}, **self.js_fields('gjs', n))

    def dtxin(self):
        return {'op': self.rb(32) + le(self.n32(), 4) + [self.choice([0, 1, 255])], 'seq': self.seq()}

    def dtxout(self, parseable=False, big=False):
        return {'value': le(self.n64(), 8), 'version': self.choice([[0, 0], [0, 0], [1, 0], [255, 255]]),
                'script': self.out_script(parseable, big)}

    def dwit(self):
        s, r = self.script_sig()
        return {'value': le(self.n64(), 8), 'height': le(self.n32(), 4), 'index': le(self.n32(), 4),
                'stack': s, 'redeem': r}

    def decred(self, wits=None, wide=False, nin=None, nout=None, big=False):
        nin = nin or self.counts(wide)
        nout = nout or self.counts(wide)
        w = (self.random() < 0.8) if wits is None else wits
        return {'version': le(self.choice([1, 2, 0x00020001, self.n32()]), 4),
                'ins': [self.dtxin() for _ in range(nin)], 'outs': [self.dtxout(big=big) for _ in range(nout)],
                'lock': self.lock(), 'expiry': le(self.n32(), 4),
                'wits': [self.dwit() for _ in range(nin)] if w else []}

    def obj(self, k, parseable=False, wide=False):
        if k == 'outpoint':
            b = self.outpoint_b()
            return {'txid': b[:32], 'index': b[32:]}
        if k == 'doutpoint':
            return {'txid': self.rb(32), 'index': le(self.n32(), 4), 'tree': self.rb(1)}
        if k == 'txin':
            return self.txin()
        if k == 'txout':
            return self.txout(parseable)
        if k == 'witem':
            return {'item': self.items(1)[0]}
        if k == 'witness':
            return {'stack': self.items(self.randrange(5))}
        if k == 'tx':
            return self.tx(parseable=parseable, wide=wide)
        if k in ('sproof', 'gproof'):
            return self.proof(k)
        if k in ('sjs', 'gjs'):
            return self.jsplit(k)
        if k == 'gspend':
            return self.spend()
        if k == 'goutput':
            return self.shout()
        if k == 'dtxin':
            return self.dtxin()
        if k == 'dtxout':
            return self.dtxout(parseable)
        if k == 'dwitness':
            return self.dwit()
        if k == 'decred':
            return self.decred(wide=wide)
        return getattr(self, k)(parseable=parseable)

    def nets_for(self, k):
        if k in ('doutpoint', 'dtxin', 'dtxout', 'dwitness', 'decred'):
            return DECRED
        if k == 'sprout':
            return SPROUT
        if k == 'overwinter':
            return OVERWINTER
        if k == 'sapling':
            return SAPLING
        if k in ('sproof', 'gproof', 'sjs', 'gjs', 'gspend', 'goutput'):
            return ZCASH
        if k in ('outpoint', 'txin', 'txout', 'witem', 'witness'):
            return NETS
        return BITCOINY

    def num(self, bits=None):
        v = self.near(0, 2 ** 72 if bits is None else 2 ** bits)
        if v is not None:
            return v
        b = bits if bits is not None else self.randrange(0, 72)
        n = self.getrandbits(b) if b else 0
        return self.choice([n, n, 1 << b, (1 << b) - 1, (1 << b) + 1])


def _related(make):
    """Members of one transaction are now and then equal, or equal in one part."""
    def f(self, *a, **kw):
        d = make(self, *a, **kw)
        if 'bsig' in d and not d['spends'] and not d['souts'] and self.random() < 0.06:
            d = dict(d, bsig=[self.rb(64)])            # a signature over nothing is given, and must not be written
        if 'js' in d and not d['js'] and self.random() < 0.03:
            d = dict(d, pub=[self.rb(32)], sig=[self.rb(64)])
        if self.random() < 0.8:
            return d
        vs = [v for v in ('ins', 'outs', 'wits', 'js', 'spends', 'souts') if 1 < len(d.get(v, ())) < 20]
        if not vs:
            return d
        v = self.choice(vs)
        xs = list(d[v])
        i, j = self.sample(range(len(xs)), 2)
        x, y = xs[i], xs[j]
        m = self.random()
        if m < 0.4 or isinstance(x, list):
            y = x
        elif v == 'ins' and m < 0.6:                   # two outputs of the same transaction
            y = dict(y, op=x['op'][:32] + y['op'][32:])
        else:
            fs = [q for q in x if q not in ('vold', 'vnew')]
            fs = [self.choice(fs)] if m < 0.8 else [q for q in fs if q != fs[int(m * 1000) % len(fs)]]
            y = dict(y, **{q: x[q] for q in fs})
        xs[j] = y
        return dict(d, **{v: xs})
    return f


for _n in ('tx', 'sprout', 'overwinter', 'sapling', 'decred'):
    setattr(Gen, _n, _related(getattr(Gen, _n)))


# ---------------------------------------------------------------- address texts
B58A = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
B32A = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'


def b58(b):
    z = len(b) - len(bytes(b).lstrip(b'\0'))
    n, s = int.from_bytes(bytes(b), 'big'), ''
    while n:
        n, r = divmod(n, 58)
        s = B58A[r] + s
    return '1' * z + s


def dsha(b):
    return list(hashlib.sha256(hashlib.sha256(bytes(b)).digest()).digest())


def b58check(b, check=None):
    return b58(list(b) + (dsha(b)[:4] if check is None else check))


def to5(b, pad=True, padbits=0):
    acc = bits = 0
    out = []
    for x in b:
        acc, bits = (acc << 8) | x, bits + 8
        while bits >= 5:
            bits -= 5
            out.append((acc >> bits) & 31)
    if bits and pad:
        out.append(((acc << (5 - bits)) & 31) | padbits)
    return out


def bpoly(vs):
    g = [0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3]
    c = 1
    for v in vs:
        t = c >> 25
        c = (c & 0x1ffffff) << 5 ^ v
        for i in range(5):
            c ^= g[i] if (t >> i) & 1 else 0
    return c


def bech(hrp, vs, const=1, odd=None):
    """odd: (position, character): what a careless reader that takes the character for vs[position] would accept."""
    e = [ord(x) >> 5 for x in hrp] + [0] + [ord(x) & 31 for x in hrp]
    p = bpoly(e + vs + [0] * 6) ^ const
    t = [B32A[v] for v in vs + [(p >> 5 * (5 - i)) & 31 for i in range(6)]]
    if odd:
        t[odd[0]] = odd[1]
    return hrp + '1' + ''.join(t)


def cpoly(vs):
    g = [0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8, 0x1e4f43e470]
    c = 1
    for v in vs:
        t = c >> 35
        c = (c & 0x07ffffffff) << 5 ^ v
        for i in range(5):
            c ^= g[i] if (t >> i) & 1 else 0
    return c ^ 1


def cash(prefix, vs, odd=None):
    p = cpoly([ord(c) & 31 for c in prefix] + [0] + vs + [0] * 8)
    t = [B32A[v] for v in vs + [(p >> 5 * (7 - i)) & 31 for i in range(8)]]
    if odd:
        t[odd[0]] = odd[1]
    return prefix + ':' + ''.join(t)


# enough of the address parameters to make plausible inputs; the specification has its own table
HRPS = ['bc', 'tb', 'bcrt', 'ltc', 'tltc', 'btg', 'tbtg', 'via', 'tvia', 'svia', 'fc', 'tf', 'fcrt', 'dgb', 'dgbt',
        'dgbrt', 'grs', 'tgrs', 'grsrt', 'vtc', 'tvtc']
HRP_OF = {'bitcoin_main': 'bc', 'bitcoin_test': 'tb', 'bitcoin_reg': 'bcrt', 'litecoin_main': 'ltc',
          'litecoin_test': 'tltc', 'litecoin_reg': 'tltc', 'bitcoin_gold_main': 'btg', 'bitcoin_gold_test': 'tbtg',
          'bitcoin_gold_reg': 'tbtg', 'viacoin_main': 'via', 'viacoin_test': 'tvia', 'viacoin_simnet': 'svia',
          'feathercoin_main': 'fc', 'feathercoin_test': 'tf', 'feathercoin_reg': 'fcrt', 'digibyte_main': 'dgb',
          'digibyte_test': 'dgbt', 'digibyte_reg': 'dgbrt', 'groestlcoin_main': 'grs', 'groestlcoin_test': 'tgrs',
          'groestlcoin_reg': 'grsrt', 'vertcoin_main': 'vtc', 'vertcoin_test': 'tvtc', 'vertcoin_reg': 'bcrt'}
CASH_OF = {'bitcoin_cash_main': 'bitcoincash', 'bitcoin_cash_test': 'bchtest', 'bitcoin_cash_reg': 'bchtest'}
VERSION_BYTES = {  # pkh, sh
    'bitcoin_main': ([0], [5]), 'bitcoin_test': ([111], [196]), 'litecoin_main': ([48], [50]),
    'zcash_sprout_main': ([28, 184], [28, 189]), 'decred_main': ([7, 63], [7, 26]),
    'bitcoin_private_main': ([19, 37], [19, 175]), 'dogecoin_main': ([30], [22])}
