"""Generators: for every property, the calls made on the library (actions of the
specification), aimed at the places where implementations go wrong.  Nothing here
decides anything: every recorded event is judged by the specification (spec/Trace.tla)."""
import hashlib
import itertools
import json
import os
import pickle
import struct
import sys

from data import *                                           # noqa: F401,F403
from data import Gen, T, big, le, cs, cs_long, push, ser
import data as D


class Ctx:
    def __init__(self, prop, shard, nshards, seed, tier):
        self.prop, self.shard, self.nshards, self.seed, self.tier = prop, shard, nshards, seed, tier
        self.g = Gen(int.from_bytes(hashlib.sha256(('%s/%d/%d' % (prop, seed, shard)).encode()).digest()[:8], 'big'))
        self.common = Gen(int.from_bytes(hashlib.sha256(('%s/%d/common' % (prop, seed)).encode()).digest()[:8], 'big'))
        self.scale = float(os.environ.get('VERIF_SCALE', '1')) * (1 if tier == 'quick' else 6)

    def mine(self, xs):
        """This shard's part of an enumeration."""
        for i, x in enumerate(xs):
            if i % self.nshards == self.shard:
                yield x

    def many(self, n):
        """n times in total over all shards (times the tier's scale)."""
        return range(max(1, int(n * self.scale) // self.nshards))

    def fresh(self, lo, hi, most=12):
        """Sizes in lo .. hi written in the tree under test and not in the pinned one."""
        xs = [x for x in D.DICT.ints if lo <= x <= hi] if D.DICT.fresh else []
        return xs if len(xs) <= most else self.common.sample(xs, most)

    @property
    def deep(self):
        return self.tier != 'quick'


class Zygote:
    """A process forked right after import: answers 'what would this call give in a fresh process
    in which only this network was ever selected'."""

    def __init__(self, ops):
        a, b = os.pipe()
        c, d = os.pipe()
        self.memo = {}
        self.pid = os.fork()
        if self.pid == 0:
            os.close(b)
            os.close(c)
            self.serve(ops, os.fdopen(a, 'rb'), os.fdopen(d, 'wb'))
            os._exit(0)
        os.close(a)
        os.close(d)
        self.w, self.r = os.fdopen(b, 'wb'), os.fdopen(c, 'rb')

    def serve(self, ops, r, w):
        while True:
            h = r.read(4)
            if len(h) < 4:
                return
            req = pickle.loads(r.read(struct.unpack('<I', h)[0]))
            x, y = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(x)
                    ops.run('select', {'name': req[0]})
                    out = pickle.dumps(ops.run(req[1], req[2]))
                    with os.fdopen(y, 'wb') as f:
                        f.write(out)
                finally:
                    os._exit(0)
            os.close(y)
            with os.fdopen(x, 'rb') as f:
                out = f.read()
            os.waitpid(pid, 0)
            w.write(struct.pack('<I', len(out)) + out)
            w.flush()

    def fresh(self, net, opname, a):
        key = (net, opname, json.dumps(a, sort_keys=True))
        if key not in self.memo:
            b = pickle.dumps((net, opname, a))
            self.w.write(struct.pack('<I', len(b)) + b)
            self.w.flush()
            n = struct.unpack('<I', self.r.read(4))[0]
            self.memo[key] = pickle.loads(self.r.read(n))
        return self.memo[key]

    def close(self):
        self.w.close()
        os.waitpid(self.pid, 0)


# ---------------------------------------------------------------- shorthand
def use(net):
    return 'select', {'name': net}


RESET = ('reset', {'x': 0})
FORMS = ['bytes', 'bytes', 'bytes', 'bytearray', 'bytedata']
PFORMS = ['bytes', 'bytes', 'bytearray', 'bytedata', 'hex']
SRCS = ['mk', 'parse', 'copy', 'hexparse']


def mk(k, d, form='bytes', wrong=(), swap=(), vswap=(), **kw):
    return 'mk', dict({'k': k, 'd': d, 'form': form, 'wrong': list(wrong), 'swap': list(swap),
                       'vswap': list(vswap)}, **kw)


def parse(k, b, form='bytes'):
    return 'parse', {'k': k, 'b': b, 'form': form}


def enc(n):
    return 'vi_enc', {'v': big(n)}


def dec(b, form='bytes'):
    return 'vi_dec', {'b': b, 'form': form}


def req(idx, base='all', acp=False, script=(), value=None, js=False, via='wrap'):
    return {'idx': idx, 'base': base, 'acp': acp, 'script': list(script), 'value': [] if value is None else [list(value)],
            'js': js, 'via': via}


def parseable(k, d):
    """Will the library's parser accept every output script?"""
    return k not in ('decred', 'dwitness') and all(len(o['script']) <= 251 for o in d.get('outs', []))


def some_net(c, k):
    ns = c.g.nets_for(k)
    fam = [n for n in ns if n in FAMILIES]
    return c.g.choice(fam or ns) if c.g.random() < 0.5 else c.g.choice(ns)


# =================================================================== C01, C02
def probe(g, net):
    """One random call whose result may depend on the network."""
    k = g.randrange(14)
    fam = TXKIND.get(net, 'tx')
    if k == 0:
        return 'addr', {'f': 'from_script', 'b': g.std_script(), 'dflt': g.random() < 0.5, 'cash': True}
    if k == 1:
        return 'addr', {'f': g.choice(['parse', 'to_script', 'parse_hash']), 't': T(any_address(g, g.choice([net, g.choice(NETS)])))}
    if k == 2:
        return dec(g.choice([[253, 5, 0], [254, 1, 0, 0, 0], [255] + [0] * 8, [253, 253, 0], [7], [253, 1]]))
    if k == 3:
        return 'ser', {'toks': [T(g.choice(['OP_SHA256', 'OP_BLAKE256', 'OP_CHECKLOCKTIMEVERIFY', 'OP_DUP', 'OP_NOP2']))], 'hex': False}
    if k == 4:
        return 'deser', {'b': [g.choice([168, 192, 177, 97, 186])], 'hex': False}
    if k == 5:
        return 'hash', {'f': g.choice(['hash160', 'hash256', 'sha256', 'blake256']), 'b': g.rb(g.randrange(80)), 'size': [], 'person': []}
    if k == 6:
        f = g.choice(['p2sh', 'p2wsh', 'legacy_p2sh'])
        return 'addr', {'f': f, 'toks': g.tokens(2)}
    if k == 7:
        return 'addr', {'f': g.choice(['p2pkh', 'p2wpkh', 'legacy_p2pkh']), 'pub': g.key()}
    if k == 8:
        kk = g.choice(['tx', 'sprout', 'overwinter', 'sapling', 'decred', 'dtxin', 'dtxout', 'doutpoint', 'dwitness',
                       'sjs', 'gjs', 'gspend', 'goutput', 'sproof', 'gproof', fam])
        return mk(kk, small_obj(g, kk))
    if k == 9:
        kk = g.choice(['tx', 'sprout', 'overwinter', 'sapling', fam])
        d = small_obj(g, kk)
        return parse(kk, ser(kk, d))
    if k == 10:
        d = small_obj(g, fam)
        rs = [req(0, g.choice(['all', 'single']), g.random() < 0.3, vb_script(g, fam), le(g.n64(), 8))]
        return 'sig', {'k': fam, 'd': d, 'src': 'mk', 'reqs': rs}
    if k == 11:
        return tb_random(g, net)
    if k == 12:
        return g.choice([('bech32', {'f': 'enc', 'b': [0] + g.rb(20)}), ('cash', {'f': 'enc', 'b': [0] + g.rb(20)}),
                         ('b58', {'f': 'enc', 'b': g.rb(g.randrange(1, 30)), 'dflt': True, 'check': True})])
    d = g.tx(parseable=True, nin=1, nout=g.choice([1, 2]))
    return 'std', {'f': g.choice(['tx', 'outs']), 'd': d, 'src': 'mk'}


def small_obj(g, k):
    if k == 'tx':
        return g.tx(parseable=True, nin=g.choice([1, 2]), nout=g.choice([1, 2]))
    if k == 'sprout':
        return g.sprout(njs=0, parseable=True, nin=1, nout=1)
    if k == 'overwinter':
        return g.overwinter(njs=0, parseable=True, nin=1, nout=1)
    if k == 'sapling':
        return g.sapling(njs=0, parseable=True, nin=1, nout=1, nsp=0, nso=0)
    if k == 'decred':
        return g.decred(nin=1, nout=1, wits=True)
    return g.obj(k)


BADNAMES = ['', 'bitcoin', 'BITCOIN_MAIN', 'bitcoin_main ', ' bitcoin_main', 'bitcoin_mainnet', 'btc', 'zcash_main',
            'decred', 'None', 'bitcoin_main\n', 'Bitcoin_main', 'litecoin_simnet', 'bitcoin-main']


def g_C01(c):
    g = c.g
    for _ in c.many(2200):
        m = g.random()
        if m < 0.22:
            yield 'select', {'name': g.choice(BADNAMES)}
        else:
            yield use(g.choice(FAMILIES) if g.random() < 0.6 else g.choice(NETS))
        net = None
        for _ in range(g.choice([1, 2, 3])):
            yield probe(g, g.choice(FAMILIES))


def net_probes(g, n):
    """Every observable consequence of a network's parameters."""
    for s in ([118, 169, 20] + g.rb(20) + [136, 172], [169, 20] + g.rb(20) + [135], [0, 20] + g.rb(20), [0, 32] + g.rb(32)):
        yield 'addr', {'f': 'from_script', 'b': s, 'dflt': True, 'cash': True}
        yield 'addr', {'f': 'from_script', 'b': s, 'dflt': False, 'cash': False}
    yield 'addr', {'f': 'p2wpkh', 'pub': g.key()}
    yield 'addr', {'f': 'p2pkh', 'pub': g.key()}
    yield 'addr', {'f': 'legacy_p2sh', 'toks': [T('OP_1')]}
    yield 'addr', {'f': 'p2wsh', 'toks': [T('OP_1')]}
    yield 'bech32', {'f': 'enc', 'b': [0] + g.rb(20)}
    yield 'cash', {'f': 'enc', 'b': [8] + g.rb(20)}
    for h in ([HRP_OF[n]] if n in HRP_OF else []) + ['bc', 'tb', 'ltc']:
        t = bech(h, [0] + to5(g.rb(20)))
        yield 'addr', {'f': 'to_script', 't': T(t)}
        yield 'bech32', {'f': 'dec', 't': T(t)}
    t = cash(CASH_OF.get(n, 'bitcoincash'), to5([0] + g.rb(20)))
    yield 'cash', {'f': 'dec', 't': T(t)}
    yield 'addr', {'f': 'to_script', 't': T(t)}
    yield 'hash', {'f': 'hash160', 'b': g.rb(9), 'size': [], 'person': []}
    yield 'hash', {'f': 'hash256', 'b': g.rb(9), 'size': [], 'person': []}
    for o in ('OP_SHA256', 'OP_BLAKE256', 'OP_NOP2', 'OP_CHECKLOCKTIMEVERIFY', 'OP_CHECKSEQUENCEVERIFY'):
        yield 'ser', {'toks': [T(o)], 'hex': False}
    for b in (168, 192, 177, 178, 176):
        yield 'deser', {'b': [b], 'hex': False}
    yield dec([253, 5, 0])
    k = TXKIND[n]
    for kk in ('tx', 'sprout', 'overwinter', 'sapling', 'decred'):
        if kk == 'tx' or kk == k or g.random() < 0.3:
            d = small_obj(g, kk)
            yield mk(kk, d)
    for seg in (True, False):
        d = g.tx(segwit=seg, parseable=True, nin=2, nout=2)
        yield mk('tx', d)
        yield parse('tx', ser('tx', d))
        r = [req(i, b, a, cs(25) + g.rb(25), le(g.n64(), 8)) for i in (0, 1) for b in ('all', 'single') for a in (True, False)]
        if k == 'tx':
            yield 'sig', {'k': 'tx', 'd': d, 'src': 'mk', 'reqs': r}
    yield tb_tx(g, n)
    yield 'tb', {'f': 'p2wpkh_output_script', 'pub': g.key()}
    yield 'tb', {'f': 'pkh_output', 'value': big(5), 'pub': g.key(), 'wit': False}
    yield 'tb', {'f': 'outpoint', 'txid': g.rb(32), 'index': big(3), 'tree': []}


def g_C02(c):
    ns = NETS + NETS
    g = c.common
    g.shuffle(ns)
    for rnd in range(1 if not c.deep else 4):
        for n in c.mine(ns):
            yield use(n)
            ps = list(net_probes(c.g, n))
            c.g.shuffle(ps)
            yield from ps
        # parameters must not leak between networks visited in another order
        for _ in c.many(400):
            yield use(c.g.choice(NETS))
            yield from itertools.islice(shuffled(c.g, list(net_probes(c.g, c.g.choice(NETS)))), 2)


def shuffled(g, xs):
    xs = list(xs)
    g.shuffle(xs)
    return xs


# =================================================================== C03
CSNETS = ['bitcoin_main', 'zcash_sprout_main', 'zcash_overwinter_main', 'zcash_sapling_test', 'decred_main']


def edge_numbers():
    out = set(range(0, 300)) | set(range(65520, 65560))
    for p in range(8, 72):
        out |= {2 ** p + i for i in (-2, -1, 0, 1, 2)}
        out |= {253 * 2 ** p, 255 * 2 ** p, 10 ** (p // 4)}
    return sorted(out)


def g_C03(c):
    g = c.g
    for n in CSNETS:
        yield use(n)
        strict = 'overwinter' in n or 'sapling' in n
        yield from (enc(v) for v in c.mine(edge_numbers()))
        yield from (enc(-v) for v in c.mine([1, 2, 252, 255, 256, 65536, 2 ** 32, 2 ** 63, 2 ** 64]))
        for p in c.mine(range(256)):
            for ln in range(0, 11):
                if p > 252 or ln in (0, 1, 3):
                    yield dec([p] + g.rb(ln), g.choice(PFORMS))
        for w in (2, 4, 8):
            for v in c.mine([0, 1, 252, 253, 254, 255, 256, 65535, 65536, 65537, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1,
                             2 ** 64 - 1, 2 ** 56, 2 ** 24, 2 ** 48, 2 ** 63] + [1 << (8 * i) for i in range(8)] +
                            [(1 << (8 * i)) - 1 for i in range(9)] + [0xfd, 0xfe, 0xff]):
                if v < 256 ** w:
                    b = cs_long(v, w)
                    for tail in ([], [0], g.rb(3)):
                        yield dec(b + tail, g.choice(PFORMS))
                    yield dec(b[:-1], g.choice(PFORMS))
        yield dec([])
        for v in c.mine(edge_numbers()):
            if v < 2 ** 64:
                yield dec(cs(v) + g.rb(g.choice([0, 0, 1, 5])), g.choice(PFORMS))
    nets = CSNETS
    for _ in c.many(6000):
        if g.random() < 0.02:
            yield use(g.choice(NETS))
        v = g.num()
        m = g.randrange(4)
        if m == 0:
            yield enc(v if g.random() < 0.95 else -v)
        elif m == 1 and v < 2 ** 64:
            yield dec(cs(v) + g.rb(g.randrange(3)), g.choice(PFORMS))
        elif m == 2:
            w = g.choice([2, 4, 8])
            yield dec(cs_long(v % 256 ** w, w) + g.rb(g.randrange(3)), g.choice(PFORMS))
        else:
            yield dec(g.rb(g.randrange(12)), g.choice(PFORMS))


# =================================================================== C04
SCRIPTNETS = ['bitcoin_main', 'decred_main', 'zcash_sapling_main', 'bitcoin_cash_main']
BADTOKS = ['OP_', 'OP_FOO', 'op_dup', 'OP_17', 'OP_PUSHDATA4', 'OP_CODESEPARATOR', 'abc', 'zz', '0x00', 'a', 'OP_BLAKE256',
           'OP_0x51', 'OP_FALSE', 'OP_TRUE', 'OP_PUSHDATA3', 'g0', '0', 'é0', '-1', '+1', 'OP_DUP,', 'OP_NOP2', 'OP_NOP11',
           '00zz', 'abcdefg', 'OP_HASH160x', 'HASH160', '1_1_', '0_00', '٠٠']


def ser_ev(toks, hexy=False):
    return 'ser', {'toks': toks, 'hex': hexy}


def deser_ev(b, hexy=False):
    return 'deser', {'b': b, 'hex': hexy}


def hx(b, up=False):
    s = bytes(b).hex()
    return T(s.upper() if up else s)


def g_C04(c):
    g = c.g
    for n in SCRIPTNETS:
        yield use(n)
        for o in c.mine(OPNAMES + ['OP_BLAKE256']):
            yield ser_ev([T(o)], g.random() < 0.5)
            yield ser_ev([T('OP_DUP'), T(o), hx([1, 2])], g.random() < 0.5)
        for o in c.mine(BADTOKS):
            yield ser_ev([T(o)])
            yield ser_ev([T('OP_DUP'), T(o)], True)
            yield ser_ev([hx([5]), T(o), T('OP_1')])
        for b in c.mine(range(256)):
            yield deser_ev([b], g.random() < 0.5)
            yield deser_ev([b] + g.rb(g.choice([1, 2, 3, 80])), g.random() < 0.5)
            yield deser_ev([97, b], False)
            # the same byte as data must survive
            yield deser_ev([1, b, 81], False)
            yield ser_ev([hx([b])], False)
    yield use('bitcoin_main')
    lens = list(range(0, 1006)) if c.deep else sorted(set(
        list(range(0, 90)) + list(range(240, 275)) + list(range(505, 530)) + list(range(990, 1006)) + list(range(90, 990, 37))))
    for ln in c.mine(lens + [1100, 2000, 65535, 65536] + c.fresh(90, 70000)):
        if ln == 0:
            continue
        b = g.rb(ln)
        yield ser_ev([hx(b, g.random() < 0.2)], g.random() < 0.3)
        yield ser_ev([T('OP_1'), hx(b), T('OP_1')], g.random() < 0.3)
        if ln <= 1000:
            yield deser_ev(push(b), g.random() < 0.3)
            yield deser_ev([81] + push(b) + [172], g.random() < 0.3)
            yield deser_ev(push(b)[:-1], g.random() < 0.3)
            yield deser_ev(push(b) + push(g.rb(3)), False)
        # longer than needed pushes
        if ln <= 255:
            yield deser_ev([76, ln] + b, False)
            yield deser_ev([76, ln] + b[:-1], False)
        yield deser_ev([77] + le(ln % 65536, 2) + b[:ln % 65536], False)
        yield deser_ev([77] + le(ln % 65536, 2) + b[:ln % 65536][:-1], False)
        if ln <= 300:
            yield deser_ev([78] + le(ln, 4) + b, False)
    for b in c.mine([[76], [77], [78], [77, 1], [77, 0, 1], [76, 0], [77, 0, 0], [78, 0, 0, 0, 0], [75], [1], [76, 1],
                     [81, 76], [81, 77, 5], [76, 255], [77, 255, 255], [2, 7], [76, 0, 81], [77, 0, 0, 81], [0], [], [0, 0],
                     [81, 76, 0], [82, 2], [171], [81, 171], [1, 171], [186], [254], [255], [80]]):
        yield deser_ev(b)
        yield deser_ev(b, True)
    for _ in c.many(5000):
        if g.random() < 0.05:
            yield use(g.choice(SCRIPTNETS + [g.choice(NETS)]))
        m = g.randrange(6)
        if m in (0, 1):
            ts = g.tokens(g.randrange(0, 12), maxdata=g.choice([4, 80, 300]))
            if g.random() < 0.1:
                ts.insert(g.randrange(len(ts) + 1), T(g.choice(BADTOKS)))
            if ts:
                yield ser_ev(ts, g.random() < 0.3)
        elif m in (2, 3):
            b = []
            for _ in range(g.randrange(1, 8)):
                x = g.random()
                if x < 0.4:
                    b += push(g.rb(g.choice([1, 2, 20, 33, 75, 76, 255, 256, g.randrange(1, 90)])))
                elif x < 0.8:
                    b.append(g.choice([0, 79, 81, 96, 97, 118, 135, 169, 172, 174, 185, 255, 168, 192, 177]))
                else:
                    b.append(g.randrange(256))
            if g.random() < 0.3:
                b = b[:g.randrange(len(b) + 1)]
            yield deser_ev(b, g.random() < 0.3)
        elif m == 4:
            yield deser_ev(g.std_script())
        else:
            yield deser_ev(g.rb(g.randrange(0, 40)), g.random() < 0.3)


# =================================================================== C05, C06, C17, C18, C34
def fuzz(g, b):
    """A mangled copy of an encoding."""
    b = list(b)
    m = g.randrange(11)
    if not b:
        return [g.randrange(256)]
    i = g.randrange(len(b))
    if m == 0:
        return b[:i]
    if m == 1:
        return b + g.rb(g.choice([1, 1, 2, 4, 32]))
    if m in (2, 3):
        b[i] ^= 1 << g.randrange(8)
        return b
    if m == 4:
        b[i] = g.choice([0, 1, 252, 253, 254, 255])
        return b
    if m == 5:
        return b[:i] + b[i + 1:]
    if m == 6:
        return b[:i] + [g.randrange(256)] + b[i:]
    if m == 7:      # near the structure's start, where the counts are
        i = min(len(b) - 1, g.choice([4, 5, 6, 7, 8, 9, 10, 40, 41, 42, 43]))
        b[i] = g.choice([0, 1, 2, 3, 252, 253, 254, 255, b[i] ^ 1])
        return b
    if m == 8:      # a longer form of some small count
        i = min(len(b) - 1, g.choice([4, 6, 8, i]))
        return b[:i] + cs_long(b[i], g.choice([2, 4, 8])) + b[i + 1:]
    if m == 9:
        return b[:-g.choice([1, 2, 3, 4, 5])]
    return b + b[-g.choice([1, 4]):]


def with_all(c, k, d, net=None):
    """Build, and parse the encoding of, one object in several ways."""
    g = c.g
    yield mk(k, d, g.choice(FORMS), **({'none': True} if k == 'tx' and g.random() < 0.5 else
                                       {'pos': True} if g.random() < 0.3 else {}))
    if g.random() < 0.08:
        o = odd_width(g, k, d)
        if o is not None:
            yield mk(k, o, g.choice(FORMS))
    if k in D.PARSERS:
        yield parse(k, ser(k, d), g.choice(PFORMS))


def odd_width(g, k, d):
    """d with one field of fixed size a little shorter or longer, or None."""
    fs = [(f, ty) for f, ty in byte_fields(k) if ty in ('b', 'ob') and d[f] and f not in ('script', 'stack', 'redeem', 'item')]
    if not fs:
        return None
    f, ty = g.choice(fs)
    v = d[f] if ty == 'b' else d[f][0]
    nv = g.choice([v[:-1], v + [0], v[1:], v[:1], [], v + v])
    return dict(d, **{f: nv if ty == 'b' else [nv]})


def grow(g, k, d, what, n):
    """d with the named vector grown to n (small) members."""
    d = dict(d)
    if what == 'ins':
        d['ins'] = [{'op': g.rb(36), 'stack': [], 'redeem': [], 'seq': g.rb(4)} for _ in range(n)] if k != 'decred' \
            else [{'op': g.rb(37), 'seq': g.rb(4)} for _ in range(n)]
        if d.get('wits'):
            d['wits'] = [[[i % 256]] if i % 3 else [] for i in range(n)] if k == 'tx' else \
                [{'value': g.rb(8), 'height': g.rb(4), 'index': g.rb(4), 'stack': [], 'redeem': []} for _ in range(n)]
    elif what == 'outs':
        d['outs'] = [{'value': g.rb(8), 'script': [i % 256]} for i in range(n)] if k != 'decred' \
            else [{'value': g.rb(8), 'version': [0, 0], 'script': [i % 256]} for i in range(n)]
    elif what == 'spends':
        d['spends'] = [g.spend() for _ in range(n)]
        d['bsig'] = [g.rb(64)]
    elif what == 'souts':
        d['souts'] = [g.shout() for _ in range(n)]
        d['bsig'] = [g.rb(64)]
    return d


COUNTS = [252, 253, 254, 255, 256, 257]


def g_C05(c):
    g = c.g
    for n in c.mine(BITCOINY):
        yield use(n)
        for seg in (True, False):
            yield from with_all(c, 'tx', g.tx(segwit=seg, parseable=True))
    # wide transactions
    for what, n, seg in c.mine([(w, n, s) for w in ('ins', 'outs') for n in COUNTS + [300] + c.fresh(3, 600, 6) for s in (True, False)]):
        yield use(g.choice(BITCOINY))
        yield from with_all(c, 'tx', grow(g, 'tx', g.tx(segwit=seg, wits=True, parseable=True, nin=1, nout=1), what, n))
    # long scripts, long witness items, many witness items
    for ln in c.mine([0, 1, 75, 76, 250, 251, 252, 253, 254, 255, 256, 257, 999, 1000, 10000, 65534, 65535, 65536, 65537] + c.fresh(2, 70000)):
        yield use(g.choice(BITCOINY))
        for seg in (True, False):
            d = g.tx(segwit=seg, wits=True, parseable=True, nin=2, nout=2)
            d['outs'][g.randrange(2)]['script'] = g.rb(ln)
            yield from with_all(c, 'tx', d)
            yield from with_all(c, 'txout', d['outs'][0])
        d = g.tx(segwit=True, wits=True, parseable=True, nin=2, nout=1)
        d['wits'][g.randrange(2)] = [g.rb(3), g.rb(ln), []]
        yield from with_all(c, 'tx', d)
        if ln <= 1000:
            d = g.tx(segwit=True, wits=True, parseable=True, nin=2, nout=1)
            d['wits'][g.randrange(2)] = [[i % 256] for i in range(ln)]
            yield from with_all(c, 'tx', d)
    for ln in c.mine([0, 1, 252, 253, 255, 256, 1649, 1650]):
        yield use(g.choice(BITCOINY))
        for j in {0, ln, ln // 2}:
            d = g.tx(parseable=True, nin=2, nout=1)
            b = g.rb(ln)
            d['ins'][1].update(stack=b[:j], redeem=b[j:])
            yield from with_all(c, 'tx', d)
            yield from with_all(c, 'txin', d['ins'][1])
    for _ in c.many(900):
        if g.random() < 0.2:
            yield use(some_net(c, 'tx'))
        d = g.tx(parseable=g.random() < 0.85)
        m = g.random()
        if m < 0.6:
            yield from with_all(c, 'tx', d)
        elif m < 0.7:
            k = g.choice(['outpoint', 'txin', 'txout', 'witem', 'witness'])
            yield from with_all(c, k, g.obj(k, parseable=g.random() < 0.8))
        elif m < 0.75:
            # marker without witnesses and the other way round, encoded by hand
            b = d['version'] + [0, 1] + ser('tx', dict(d, flag=[], wits=[]))[4:]
            yield parse('tx', b, g.choice(PFORMS))
        else:
            b = ser('tx', dict(d, outs=[o for o in d['outs']]))
            for _ in range(2):
                b = fuzz(g, b) if g.random() < 0.8 else b
            yield parse('tx', b, g.choice(PFORMS))


def cuts(n, g, every=120):
    """Offsets at which to cut an encoding of n bytes."""
    if n <= every:
        return list(range(n))
    return sorted(set(list(range(0, 60)) + list(range(n - 40, n)) + [g.randrange(n) for _ in range(every - 100)]))


def g_C06(c):
    g = c.g
    kinds = ['outpoint', 'txin', 'txout', 'witem', 'witness', 'tx', 'sproof', 'gproof', 'sjs', 'gjs', 'gspend', 'goutput',
             'sprout', 'overwinter', 'sapling', 'doutpoint', 'dtxin', 'dtxout']
    jobs = [(k, j) for j in range(2) for k in kinds]
    # every cut, a byte more
    for k, j in c.mine(jobs):
        yield use(some_net(c, k))
        if k == 'tx':
            for seg, w in ((False, False), (True, True), (True, False)):
                d = g.tx(segwit=seg, wits=w, parseable=True, nin=g.choice([1, 2]), nout=g.choice([1, 2]))
                d['ins'] = [dict(i, stack=g.rb(4), redeem=[]) for i in d['ins']]
                if w:
                    d['wits'] = [[g.rb(2), g.rb(3)] for _ in d['ins']]
                d['outs'] = [dict(o, script=g.rb(3)) for o in d['outs']]
                b = ser(k, d)
                yield from (parse(k, b[:i], g.choice(PFORMS)) for i in cuts(len(b), g, 400))
                yield from (parse(k, b + g.rb(i), g.choice(PFORMS)) for i in (1, 2, 4))
                # every count and length: bump it
                for i in range(len(b)):
                    if b[i] < 8 and g.random() < (0.5 if not c.deep else 1):
                        for v in (b[i] + 1, 252, 253, 255):
                            yield parse(k, b[:i] + [v] + b[i + 1:])
        else:
            for shape in range(3 if k in ('sprout', 'overwinter', 'sapling') else 1):
                if k == 'sprout':
                    d = g.sprout(njs=shape, parseable=True, nin=1, nout=1)
                elif k == 'overwinter':
                    d = g.overwinter(njs=shape, parseable=True, nin=1, nout=1)
                elif k == 'sapling':
                    d = g.sapling(njs=shape % 2, parseable=True, nin=1, nout=1, nsp=shape % 2, nso=shape // 2)
                else:
                    d = g.obj(k, parseable=True)
                b = ser(k, d)
                yield from (parse(k, b[:i], g.choice(PFORMS)) for i in cuts(len(b), g, 130 if len(b) > 600 else 500))
                if k in D.TXKIND.values():
                    yield from (parse(k, b + g.rb(i), g.choice(PFORMS)) for i in (1, 2, 4, 64))
    # lengths that reach past the end, in every width
    for k in c.mine(['tx', 'txin', 'txout', 'witem', 'witness', 'overwinter', 'sapling', 'sprout', 'dtxout']):
        yield use(some_net(c, k))
        for w in (1, 2, 4, 8):
            for v in (1, 10, 253, 65536, 2 ** 31, 2 ** 32 - 1, 2 ** 63, 2 ** 64 - 1):
                if v >= 256 ** w or (w == 1 and v > 252):
                    continue
                n = [v] if w == 1 else cs_long(v, w)
                if k == 'witem':
                    bs = [n, n + g.rb(min(v - 1, 9))]
                elif k == 'witness':
                    bs = [n, n + [0], [1] + n + g.rb(min(v - 1, 9)), [2, 0] + n]
                elif k == 'txout':
                    bs = [g.rb(8) + n + g.rb(min(v - 1, 9))]
                elif k == 'dtxout':
                    bs = [g.rb(10) + n + g.rb(min(v - 1, 9))]
                elif k == 'txin':
                    bs = [g.rb(36) + n + g.rb(min(v - 1, 9)), g.rb(36) + n + g.rb(min(v + 3, 12))]
                else:
                    pre = {'tx': le(2, 4), 'sprout': le(2, 4), 'overwinter': [3, 0, 0, 128, 112, 130, 196, 3],
                           'sapling': [4, 0, 0, 128, 133, 32, 47, 137]}[k]
                    i1 = [1] + g.rb(36) + [0] + g.rb(4)
                    o1 = [1] + g.rb(8) + [1, 81]
                    bs = [pre + n + g.rb(50), pre + i1 + n + g.rb(20), pre + [1] + g.rb(36) + n + g.rb(9),
                          pre + i1 + [1] + g.rb(8) + n + g.rb(5), pre + i1 + o1 + g.rb(4) + n + g.rb(10),
                          pre + i1 + o1 + g.rb(4) + g.rb(4) + n + g.rb(5), pre + i1 + o1 + g.rb(16) + n]
                    if k == 'tx':
                        bs += [pre + [0, 1] + i1 + o1 + n + g.rb(6), pre + [0, 1] + i1 + o1 + [1] + n + g.rb(6),
                               pre + [0, 1] + n + g.rb(20)]
                for b in bs:
                    yield parse(k, b, g.choice(PFORMS))
    for _ in c.many(2600):
        k = g.choice(kinds + ['tx'] * 6 + ['sprout', 'overwinter', 'sapling'])
        if g.random() < 0.5:
            yield use(some_net(c, k))
        big_kinds = ('sprout', 'overwinter', 'sapling')
        d = g.obj(k, parseable=True) if k not in big_kinds or g.random() < 0.2 else small_obj(g, k)
        b = ser(k, d)
        yield parse(k, fuzz(g, b), g.choice(PFORMS))
        if g.random() < 0.15:       # another format's transaction
            kk = g.choice(['tx', 'sprout', 'overwinter', 'sapling'])
            yield parse(k, ser(kk, small_obj(g, kk)))


def g_C07(c):
    g = c.g
    for n in c.mine(NETS):
        k = TXKIND[n]
        yield use(n)
        d = g.obj(k, parseable=True)
        yield from with_all(c, k, d)
        yield 'copy', {'k': k, 'd': d, 'src': g.choice(['mk', 'parse']) if k != 'decred' else 'mk', 'fields': [], 'd2': d}
    for k, what, n in c.mine([(k, w, n) for k in ('tx', 'decred', 'sapling', 'sprout', 'overwinter')
                              for w in ('ins', 'outs') for n in [252, 253, 256] + c.fresh(3, 600, 6)]):
        yield use(some_net(c, k))
        yield from with_all(c, k, grow(g, k, small_obj(g, k), what, n))
    for _ in c.many(700):
        k = g.choice(['tx', 'tx', 'tx', 'sprout', 'overwinter', 'sapling', 'decred'])
        yield use(some_net(c, k))
        d = g.obj(k, parseable=True) if k in ('tx', 'decred') or g.random() < 0.3 else small_obj(g, k)
        yield from with_all(c, k, d)
        if k == 'tx' and d['flag']:
            # other witnesses, same id
            d2 = dict(d, wits=[g.items(g.randrange(3)) for _ in d['ins']])
            yield mk(k, d2)
            yield 'copy', {'k': k, 'd': d, 'src': g.choice(SRCS[:2]), 'fields': ['wits'], 'd2': d2}
            yield mk(k, dict(d, wits=[]))
            yield mk(k, dict(d, wits=[], flag=[]))
        elif k == 'decred':
            yield mk(k, dict(d, wits=[g.dwit() for _ in d['ins']]))
            yield 'copy', {'k': k, 'd': d, 'src': 'mk', 'fields': ['wits'], 'd2': dict(d, wits=[g.dwit() for _ in d['ins']])}
        else:
            d2 = dict(d, lock=g.lock())
            yield 'copy', {'k': k, 'd': d, 'src': g.choice(SRCS[:2]), 'fields': ['lock'], 'd2': d2}


# =================================================================== signing
def vb_script(g, k='tx'):
    """A script argument: length-prefixed, except on Decred."""
    n = g.choice([0, 1, 22, 25, 25, 35, 75, 76, 105, 251, 252, 253, 254, 255, 256, 300])
    b = g.rb(n) if g.random() < 0.5 else g.std_script()
    return b if k == 'decred' else cs(len(b)) + b


def sig_reqs(g, k, d, n=None):
    """Digest requests: all positions, both types, with and without the modifier, in random order."""
    nin, nout = len(d['ins']), len(d['outs'])
    idxs = list(range(nin)) if nin <= 6 else sorted({0, 1, nin - 1, nin - 2, nout - 1, min(nout, nin - 1), 252, 253, 255, 256})
    out = []
    for i in idxs:
        if not 0 <= i < nin:
            continue
        for base in ('all', 'single'):
            for acp in (False, True):
                via = g.choice(['wrap', 'wrap', 'kw']) if k not in ('overwinter', 'sapling') else g.choice(['wrap', 'kw', 'gen'])
                out.append(req(i, base, acp, vb_script(g, k), le(g.n64(), 8), False, via))
        if k in ('overwinter', 'sapling'):
            out += [req(i, 'none', acp, vb_script(g, k), le(g.n64(), 8), False, 'gen') for acp in (False, True)]
    if k not in ('overwinter', 'sapling') and nin and g.random() < 0.5:
        out.append(req(0, 'none', g.random() < 0.5, vb_script(g, k), le(g.n64(), 8), False, g.choice(['wrap', 'seg'])))
    if k in ('overwinter', 'sapling'):
        sc = vb_script(g, k)
        out += [req(0, 'all', False, sc, le(g.n64(), 8), True, 'wrap'), req(0, 'all', False, [], None, True, 'gen'),
                req(0, 'all', False, [], None, True, 'none'),
                req(0, 'none', False, sc, le(g.n64(), 8), True, 'gen'), req(0, 'none', True, sc, le(g.n64(), 8), True, 'gen'),
                req(0, 'all', True, sc, le(g.n64(), 8), True, 'wrap'), req(0, 'single', True, sc, le(g.n64(), 8), True, 'gen'),
                req(g.randrange(nin) if nin else 0, 'all', False, sc, le(g.n64(), 8), True, 'wrap')]
    g.shuffle(out)
    if n is not None and len(out) > n:
        out = out[:n]
    if out and g.random() < 0.5:
        out.append(dict(out[0]))           # the same request again
    return out


def bad_value_reqs(g, d):
    out = []
    for i in range(min(2, len(d['ins']))):
        for base in ('all', 'single'):
            for acp in (False, True):
                for v in (None, [], g.rb(7), g.rb(9), g.rb(4), g.rb(16), [0] * 7):
                    out.append(req(i, base, acp, vb_script(g), v))
    return g.sample(out, 8)


def sig_ev(k, d, reqs, src='mk'):
    return 'sig', {'k': k, 'd': d, 'src': src, 'reqs': reqs}


def sig_src(g, k, d):
    if k == 'decred':
        return g.choice(['mk', 'mk', 'copy'])
    return g.choice(['mk', 'mk', 'parse', 'copy', 'hexparse']) if parseable(k, d) else g.choice(['mk', 'copy'])


def signing(c, k, nets, make, n, value_checks=False):
    """Shapes nin x nout exhaustively, then random transactions."""
    g = c.g
    for nin, nout in c.mine([(i, j) for i in range(1, 5) for j in range(1, 5)]):
        yield use(g.choice(nets))
        d = make(nin, nout)
        yield sig_ev(k, d, sig_reqs(g, k, d), sig_src(g, k, d))
    for nin, nout in c.mine([(253, 2), (2, 253), (256, 256), (255, 1), (300, 257)]):
        yield use(g.choice(nets))
        d = make(1, 1)
        d = grow(g, k, grow(g, k, d, 'ins', nin), 'outs', nout)
        yield sig_ev(k, d, sig_reqs(g, k, d, 8), sig_src(g, k, d))
    for _ in c.many(n):
        if g.random() < 0.4:
            yield use(g.choice(nets))
        d = make(g.choice([1, 1, 2, 2, 3, 4, 6]), g.choice([1, 1, 2, 2, 3, 5]))
        rs = sig_reqs(g, k, d, 10)
        if value_checks and g.random() < 0.3:
            rs += bad_value_reqs(g, d)
            g.shuffle(rs)
        yield sig_ev(k, d, rs, sig_src(g, k, d))


def long_scripts(c, k, nets, make):
    g = c.g
    for ln in c.mine([0, 1, 75, 76, 251, 252, 253, 254, 255, 256, 520, 1000, 1649, 1650]):
        yield use(g.choice(nets))
        d = make(2, 2)
        b = g.rb(ln)
        s = b if k == 'decred' else cs(ln) + b
        yield sig_ev(k, d, [dict(q, script=s) for q in sig_reqs(g, k, d, 4)], sig_src(g, k, d))
        for o in d['outs']:
            o['script'] = g.rb(ln)
        yield sig_ev(k, d, sig_reqs(g, k, d, 4), sig_src(g, k, d))


def g_C08(c):
    g = c.g

    def make(i, j):
        return g.tx(segwit=False, parseable=g.random() < 0.8, nin=i, nout=j)
    yield from signing(c, 'tx', PLAIN, make, 700)
    yield from long_scripts(c, 'tx', PLAIN, make)
    for _ in c.many(150):       # versions and lock times of every size
        yield use(g.choice(PLAIN))
        d = dict(make(2, 2), version=le(g.n32(), 4), lock=le(g.n32(), 4))
        yield sig_ev('tx', d, sig_reqs(g, 'tx', d, 6), sig_src(g, 'tx', d))


def g_C09(c):
    g = c.g
    nets = [n for n in PLAIN]
    seg = [n for n in PLAIN if n in SEGWIT]

    def make(i, j):
        return g.tx(segwit=True, parseable=g.random() < 0.8, nin=i, nout=j)
    yield from signing(c, 'tx', seg, make, 600, True)
    yield from long_scripts(c, 'tx', nets, make)
    for _ in c.many(120):
        yield use(g.choice(seg))
        d = make(2, 2)
        rs = [dict(q, via='seg') for q in sig_reqs(g, 'tx', d, 4)]
        yield sig_ev('tx', d, rs, sig_src(g, 'tx', d))
        yield from pairs_for(g, 'tx', d, vary=('wits', 'sigs'))


def g_C10(c):
    g = c.g

    def make(i, j):
        return g.tx(parseable=g.random() < 0.8, nin=i, nout=j)
    for n in c.mine(FORK * 2):
        yield use(n)
        d = make(2, 3)
        yield sig_ev('tx', d, sig_reqs(g, 'tx', d), sig_src(g, 'tx', d))
        # the same bytes signed on other fork networks
        d = g.tx(parseable=True, nin=2, nout=2)
        rs = sig_reqs(g, 'tx', d, 5)
        for m in g.sample(FORK, 3):
            yield use(m)
            yield sig_ev('tx', d, rs, 'mk')
    yield from signing(c, 'tx', FORK, make, 450, True)
    yield from long_scripts(c, 'tx', FORK, make)
    # an object built on one network and signed on another
    for _ in c.many(60):
        yield RESET
        yield use(g.choice(BITCOINY))
        d = make(2, 2)
        yield 'new', {'h': 1, 'k': 'tx', 'd': d, 'src': 'mk', 'form': 'bytes'}
        for _ in range(3):
            yield use(g.choice(BITCOINY))
            yield 'hsig', {'h': 1, 'k': 'tx', 'reqs': sig_reqs(g, 'tx', d, 4)}
    yield RESET


def g_C11(c):
    g = c.g

    def make(i, j):
        return g.overwinter(njs=g.choice([0, 0, 0, 0, 1, 2]), parseable=g.random() < 0.8, nin=i, nout=j)
    yield from signing(c, 'overwinter', OVERWINTER, make, 260)
    yield from long_scripts(c, 'overwinter', OVERWINTER, lambda i, j: g.overwinter(njs=0, parseable=True, nin=i, nout=j))
    for njs in c.mine([0, 1, 2, 3, 4, 5] * 2):
        yield use(g.choice(OVERWINTER))
        d = g.overwinter(njs=njs, parseable=True)
        yield sig_ev('overwinter', d, sig_reqs(g, 'overwinter', d, 12), sig_src(g, 'overwinter', d))
    for _ in c.many(40):
        yield use(g.choice(OVERWINTER))
        d = g.overwinter(njs=g.choice([0, 1]), nin=g.choice([1, 2]), nout=2)
        yield from pairs_for(g, 'overwinter', d, vary=('sigs', 'jssig', 'js', 'pub', 'expiry'))


def g_C12(c):
    g = c.g

    def make(i, j):
        return g.sapling(njs=g.choice([0, 0, 0, 0, 1]), parseable=g.random() < 0.8, nin=i, nout=j,
                         nsp=g.choice([0, 0, 0, 1, 2]), nso=g.choice([0, 0, 0, 1, 2]))
    yield from signing(c, 'sapling', SAPLING, make, 240)
    yield from long_scripts(c, 'sapling', SAPLING, lambda i, j: g.sapling(njs=0, parseable=True, nin=i, nout=j, nsp=0, nso=0))
    for njs, nsp, nso in c.mine([(a, b, d) for a in (0, 1, 2) for b in (0, 1, 3) for d in (0, 1, 2)] + [(5, 0, 0), (0, 6, 0), (0, 0, 5)]):
        yield use(g.choice(SAPLING))
        d = g.sapling(njs=njs, parseable=True, nsp=nsp, nso=nso)
        yield sig_ev('sapling', d, sig_reqs(g, 'sapling', d, 8), sig_src(g, 'sapling', d))
    for _ in c.many(40):
        yield use(g.choice(SAPLING))
        d = g.sapling(njs=g.choice([0, 0, 1]), nin=g.choice([1, 2]), nout=2, nsp=g.choice([0, 1, 2]), nso=g.choice([0, 1]))
        yield from pairs_for(g, 'sapling', d, vary=('sigs', 'jssig', 'js', 'pub', 'expiry', 'auth', 'bsig', 'vb', 'spends', 'souts'))


def g_C13(c):
    g = c.g

    def make(i, j):
        return g.sprout(njs=g.choice([0, 0, 0, 0, 1]), parseable=g.random() < 0.8, nin=i, nout=j)
    yield from signing(c, 'sprout', SPROUT, make, 320)
    yield from long_scripts(c, 'sprout', SPROUT, lambda i, j: g.sprout(njs=0, parseable=True, nin=i, nout=j))
    for njs, v in c.mine([(0, 1), (0, 2), (1, 2), (2, 2), (3, 2), (5, 2)] * 2):
        yield use(g.choice(SPROUT))
        d = g.sprout(njs=njs, parseable=True, version=v, nin=g.choice([1, 2, 3]))
        yield sig_ev('sprout', d, sig_reqs(g, 'sprout', d), sig_src(g, 'sprout', d))


def g_C14(c):
    g = c.g

    def make(i, j):
        return g.decred(wits=True, nin=i, nout=j)
    for k in c.many(160):
        yield use(g.choice(DECRED))
        d = g.decred(wits=g.random() < 0.8)
        yield mk('decred', d, g.choice(FORMS))
    yield from signing(c, 'decred', DECRED, make, 300)
    yield from long_scripts(c, 'decred', DECRED, make)
    for what, n in c.mine([('ins', 253), ('outs', 253), ('ins', 256), ('outs', 300)]):
        yield use(g.choice(DECRED))
        yield mk('decred', grow(g, 'decred', make(1, 1), what, n))


# ------------------------------------------------------------- C35: pairs
def other(g, b):
    """A different byte string of the same length."""
    b = list(b)
    if not b:
        return b
    m = g.randrange(4)
    if m == 0:
        i = g.choice([0, len(b) - 1, g.randrange(len(b))])
        b[i] ^= 1 << g.randrange(8)
        return b
    if m == 1:
        r = b[1:] + b[:1]
        return r if r != b else [b[0] ^ 1] + b[1:]
    r = g.rb(len(b))
    return r if r != b else [b[0] ^ 1] + b[1:]


def copy_d(d):
    return json.loads(json.dumps(d))


def vary_tx(g, k, d, a, what):
    """(d', a') changed in one respect; None if there is nothing of the kind to change."""
    d, a = copy_d(d), dict(a)
    n, m = len(d['ins']), len(d['outs'])
    i = g.randrange(n) if n else 0
    if g.random() < 0.5 and n:
        i = a['idx']
    j = g.randrange(m) if m else 0
    if what == 'version' and 'version' in d:
        d['version'] = g.choice([[1, 0, 0, 0], [2, 0, 0, 0]]) if k == 'sprout' and not d['js'] else d['version'] if k == 'sprout' else other(g, d['version'])
    elif what == 'lock':
        d['lock'] = other(g, d['lock'])
    elif what == 'expiry' and 'expiry' in d:
        d['expiry'] = g.expiry() if k != 'decred' else other(g, d['expiry'])
    elif what == 'outpoint' and n:
        d['ins'][i]['op'] = other(g, d['ins'][i]['op'])
    elif what == 'sequence' and n:
        d['ins'][i]['seq'] = other(g, d['ins'][i]['seq'])
    elif what == 'sigs' and n and k != 'decred':
        s, r = g.script_sig()
        d['ins'][i].update(stack=s, redeem=r)
    elif what == 'value' and m:
        d['outs'][j]['value'] = other(g, d['outs'][j]['value'])
    elif what == 'script' and m:
        d['outs'][j]['script'] = other(g, d['outs'][j]['script']) or [g.randrange(256)]
    elif what == 'oversion' and m and k == 'decred':
        d['outs'][j]['version'] = other(g, d['outs'][j]['version'])
    elif what == 'dropout' and m > 1:
        del d['outs'][-1]
    elif what == 'addout':
        d['outs'].append(g.dtxout() if k == 'decred' else g.txout())
    elif what == 'swapout' and m > 1:
        x = g.sample(range(m), 2)
        d['outs'][x[0]], d['outs'][x[1]] = d['outs'][x[1]], d['outs'][x[0]]
    elif what == 'addin':
        d['ins'].append(g.dtxin() if k == 'decred' else g.txin())
        if d.get('wits'):
            d['wits'].append(g.dwit() if k == 'decred' else g.items(1))
    elif what == 'dropin' and n > 1 and a['idx'] < n - 1:
        del d['ins'][-1]
        if d.get('wits'):
            del d['wits'][-1]
    elif what == 'swapin' and n > 1:
        x = g.sample(range(n), 2)
        d['ins'][x[0]], d['ins'][x[1]] = d['ins'][x[1]], d['ins'][x[0]]
    elif what == 'idx' and n > 1:
        a['idx'] = g.choice([x for x in range(n) if x != a['idx']])
    elif what == 'argscript':
        s = vb_script(g, k)
        a['script'] = s if g.random() < 0.5 else (other(g, a['script']) if k in ('overwinter', 'sapling', 'decred') else s)
    elif what == 'argvalue':
        a['value'] = [other(g, a['value'][0])]
    elif what == 'type':
        a['base'] = g.choice([x for x in ('all', 'single', 'none') if x != a['base'] and (x != 'none' or k in ('overwinter', 'sapling'))])
    elif what == 'acp':
        a['acp'] = not a['acp']
    elif what == 'wits' and k == 'tx' and d['flag']:
        d['wits'] = [g.items(g.randrange(3)) for _ in d['ins']]
    elif what == 'wits' and k == 'decred' and d['wits']:
        i = g.randrange(n)
        d['wits'][i] = g.dwit()
    elif what in ('js',) and d.get('js'):
        x = g.randrange(len(d['js']))
        f = g.choice(['anchor', 'nulls', 'comms', 'ek', 'seed', 'macs', 'proof', 'notes', 'vold', 'vnew'])
        if f in ('vold', 'vnew'):
            d['js'][x]['vold'] = d['js'][x]['vnew'] = [0] * 8
            d['js'][x][f] = le(g.n64(), 8)
        else:
            d['js'][x][f] = other(g, d['js'][x][f])
    elif what == 'pub' and d.get('js'):
        d['pub'] = [other(g, d['pub'][0])]
    elif what == 'jssig' and d.get('js'):
        d['sig'] = [other(g, d['sig'][0])]
    elif what == 'auth' and d.get('spends'):
        x = g.randrange(len(d['spends']))
        d['spends'][x]['auth'] = other(g, d['spends'][x]['auth'])
    elif what == 'spends' and d.get('spends'):
        x = g.randrange(len(d['spends']))
        f = g.choice(['cv', 'anchor', 'nullifier', 'rk', 'proof'])
        d['spends'][x][f] = other(g, d['spends'][x][f])
    elif what == 'souts' and d.get('souts'):
        x = g.randrange(len(d['souts']))
        f = g.choice(['cv', 'cmu', 'ek', 'enc', 'outc', 'proof'])
        d['souts'][x][f] = other(g, d['souts'][x][f])
    elif what == 'bsig' and d.get('bsig'):
        d['bsig'] = [other(g, d['bsig'][0])]
    elif what == 'vb' and (d.get('spends') or d.get('souts')):
        d['vb'] = other(g, d['vb'])
    else:
        return None
    return d, a


VARY = ['version', 'lock', 'expiry', 'outpoint', 'sequence', 'sigs', 'value', 'script', 'oversion', 'dropout', 'addout',
        'swapout', 'addin', 'dropin', 'swapin', 'idx', 'argscript', 'argvalue', 'type', 'acp', 'wits', 'js', 'pub', 'jssig',
        'auth', 'spends', 'souts', 'bsig', 'vb']


def pairs_for(g, k, d, vary=None, reqs=None):
    rs = reqs or [q for q in sig_reqs(g, k, d) if q['via'] != 'none']
    rs = [q for q in rs if (q['value'] or q['js']) and (q['base'] != 'none' or k in ('overwinter', 'sapling'))]
    rs = [dict(q, value=q['value'] or [le(5, 8)]) for q in rs]
    if not rs:
        return
    for what in vary or VARY:
        q = g.choice(rs)
        q = dict(q, via='wrap')
        r = vary_tx(g, k, d, q, what)
        if r is not None:
            yield 'pair', {'k': k, 'd1': d, 'a1': q, 'd2': r[0], 'a2': r[1]}


def g_C35(c):
    g = c.g
    makers = {
        'tx': lambda: g.tx(nin=g.choice([1, 2, 3, 3, 4]), nout=g.choice([1, 2, 3, 3, 4])),
        'sprout': lambda: g.sprout(njs=g.choice([0, 0, 0, 1]), nin=g.choice([1, 2, 3]), nout=g.choice([1, 2, 3])),
        'overwinter': lambda: g.overwinter(njs=g.choice([0, 0, 1]), nin=g.choice([1, 2, 3]), nout=g.choice([1, 2, 3])),
        'sapling': lambda: g.sapling(njs=g.choice([0, 0, 0, 1]), nin=g.choice([1, 2, 3]), nout=g.choice([1, 2, 3])),
        'decred': lambda: g.decred(wits=True, nin=g.choice([1, 2, 3]), nout=g.choice([1, 2, 3]))}
    for _ in c.many(90):
        for k in makers:
            yield use(some_net(c, k))
            for _ in range(3 if k in ('tx', 'decred') else 1):
                yield from pairs_for(g, k, makers[k]())


# =================================================================== C15, C16
ATTACKS = ['set', 'set', 'setnew', 'del', 'append', 'setbytes', 'item', 'args', 'allargs', 'observed', 'outputs', 'vec',
           'copy', 'sign']


def attack_ev(g, h, k, d, how):
    a = {'h': h, 'how': how, 'n': g.randrange(5000)}
    if how == 'sign':
        if not d.get('ins') or k not in D.TXKIND.values():
            a['how'] = 'outputs'
            return 'attack', a
        a['req'] = g.choice(sig_reqs(g, k, d))
    return 'attack', a


HEAPKINDS = ['outpoint', 'txin', 'txout', 'witem', 'witness', 'tx', 'tx', 'tx', 'sproof', 'gproof', 'sjs', 'gjs', 'gspend',
             'goutput', 'sprout', 'overwinter', 'sapling', 'doutpoint', 'dtxin', 'dtxout', 'dwitness', 'decred', 'decred']


def heap_obj(g, k):
    if k == 'sprout':
        return g.sprout(njs=g.choice([0, 0, 1]), parseable=True, nin=g.choice([1, 2]), nout=1)
    if k == 'overwinter':
        return g.overwinter(njs=g.choice([0, 0, 1]), parseable=True, nin=g.choice([1, 2]), nout=1)
    if k == 'sapling':
        return g.sapling(njs=g.choice([0, 0, 1]), parseable=True, nin=g.choice([1, 2]), nout=1, nsp=g.choice([0, 1]), nso=g.choice([0, 1]))
    if k == 'tx':
        return g.tx(parseable=True, nin=g.choice([1, 2, 3]), nout=g.choice([1, 2, 3]))
    if k == 'decred':
        return g.decred(nin=g.choice([1, 2]), nout=g.choice([1, 2]))
    return g.obj(k, parseable=True)


def new_ev(g, h, k, d, src):
    a = {'h': h, 'k': k, 'd': d, 'src': src, 'form': g.choice(['bytes', 'bytearray', 'bytedata'])}
    if src == 'copy':
        a['d0'] = heap_obj(g, k)
    return 'new', a


def hsig_ev(g, h, k, d, n=3):
    return 'hsig', {'h': h, 'k': k, 'reqs': sig_reqs(g, k, d, n)}


def g_C15(c):
    g = c.g
    signable = set(D.TXKIND.values())
    # every way of attacking every kind, built in every way
    jobs = [(k, s, f) for k in dict.fromkeys(HEAPKINDS) for s in ('mk', 'parse', 'copy') for f in ('bytes', 'bytearray', 'bytedata')]
    for k, src, form in c.mine(jobs):
        if (src == 'parse' and k not in D.PARSERS) or (src == 'copy' and k not in D.COPIERS):
            continue
        yield RESET
        yield use(some_net(c, k))
        d = heap_obj(g, k)
        op, a = new_ev(g, 1, k, d, src)
        if src == 'copy' and k in ('sprout', 'overwinter', 'sapling', 'tx'):
            a['d'] = d = heap_obj(g, k)
            a['d0'] = d0 = copy_d(d)
            d0['lock'] = g.lock()
        yield op, dict(a, form=form)
        for how in dict.fromkeys(ATTACKS):
            yield attack_ev(g, 1, k, d, how)
            if g.random() < 0.4:
                yield 'obs', {'h': 1, 'k': k}
        yield 'obs', {'h': 1, 'k': k}
        if k in signable and d['ins'] and not (k == 'decred' and not d['wits']):
            yield hsig_ev(g, 1, k, d)
            yield 'obs', {'h': 1, 'k': k}
    # compact-size numbers
    for n in c.mine([0, 1, 252, 253, 65535, 65536, 2 ** 32 - 1, 2 ** 32, 2 ** 64 - 1]):
        yield enc(n)
        yield dec(list(D.cs(n)) + [1], g.choice(['bytes', 'hex', 'bytearray', 'bytedata']))
    # sessions: several objects, copies of objects, networks changing underneath
    for _ in c.many(170):
        yield RESET
        k = g.choice(HEAPKINDS)
        yield use(some_net(c, k))
        d = heap_obj(g, k)
        srcs = ['mk', 'mk'] + (['parse'] if k in D.PARSERS else [])
        yield new_ev(g, 1, k, d, g.choice(srcs))
        live = [1]
        if k in D.COPIERS and g.random() < 0.5:
            yield 'new', {'h': 2, 'k': k, 'd': d, 'src': 'copyof', 'h0': 1, 'form': 'bytes'}
            live.append(2)
        for _ in range(g.randrange(6, 16)):
            m = g.random()
            h = g.choice(live)
            if m < 0.08:
                yield use(g.choice(FAMILIES))
            elif m < 0.7:
                yield attack_ev(g, h, k, d, g.choice(ATTACKS))
            elif m < 0.85:
                yield 'obs', {'h': h, 'k': k}
            elif k in signable and d['ins']:
                yield hsig_ev(g, h, k, d, 2)
        for h in live:
            yield 'obs', {'h': h, 'k': k}
    yield RESET


def fields_of(k):
    import ops
    return [f for f, _, _ in ops.KINDS[k][1]]


def spoil(g, k, d, f):
    """Field f made invalid (or at least odd)."""
    d = copy_d(d)
    v = d[f]
    if f in ('flag',):
        d[f] = g.choice([[[0, 0]], [[1, 1]], [[0]], [[0, 1, 0]]])
    elif f in ('pub', 'sig', 'bsig'):
        d[f] = [g.rb(g.choice([31, 33, 63, 65]))]
    elif f == 'ins':
        d[f] = []
    elif f == 'outs':
        d[f] = []
    elif f == 'wits':
        d[f] = v + v[:1] if v else v
        if k == 'tx':
            d[f] = [[] for _ in range(len(d['ins']) + 1)]
    elif f in ('js', 'spends', 'souts'):
        d[f] = v * 6 if f == 'js' else v
    elif f == 'expiry' and k in ('overwinter', 'sapling'):
        d[f] = le(g.choice([500000000, 2 ** 32 - 1]), 4)
    elif f == 'version' and k == 'sprout':
        d[f] = g.choice([le(3, 4), le(0, 4), le(1, 4), [1, 0, 0]])
    elif f in ('stack', 'redeem') and k == 'txin':
        d[f] = g.rb(1700)
    elif isinstance(v, list) and all(isinstance(x, int) for x in v) and f not in ('script', 'stack', 'redeem', 'op', 'proof'):
        d[f] = v[:-1] if g.random() < 0.5 else v + [0]
    return d


def blanks(d, f):
    """Values of field f that are empty or all zero: an override all the same."""
    v = d[f]
    if isinstance(v, list) and not any(isinstance(x, (dict, list)) for x in v):
        return [[], [0] * len(v)] if v else [[]]
    return [[]] if isinstance(v, list) else []


def copy_ev(k, d, src, fields, d2, form='bytes'):
    return 'copy', {'k': k, 'd': d, 'src': src, 'fields': fields, 'd2': d2, 'form': form}


def g_C16(c):
    g = c.g
    for k in D.COPIERS:
        fs = fields_of(k)
        subsets = [list(x) for r in range(len(fs) + 1) for x in itertools.combinations(fs, r)]
        if len(subsets) > 64 and not c.deep:
            subsets = [[], fs] + [[f] for f in fs] + [list(x) for x in itertools.combinations(fs, 2)] + \
                c.common.sample(subsets, 14)
        heavy = k in ('sprout', 'overwinter', 'sapling')
        for s in c.mine(subsets):
            yield use(some_net(c, k))
            for _ in range(1 if heavy else 2):
                d, d2 = heap_obj(g, k), heap_obj(g, k)
                if k in ('tx', 'decred') and g.random() < 0.6:
                    d2 = g.tx(segwit=True if d['flag'] else None, parseable=True, nin=len(d['ins']), nout=g.choice([1, 2])) \
                        if k == 'tx' else g.decred(nin=len(d['ins']), nout=2, wits=True)
                src = g.choice(['mk', 'mk', 'parse', 'copy']) if k in D.PARSERS else g.choice(['mk', 'copy'])
                yield copy_ev(k, d, src, s, d2, g.choice(FORMS))
        for f in c.mine(fs * 3):
            yield use(some_net(c, k))
            d = heap_obj(g, k)
            yield copy_ev(k, d, 'mk', [f], spoil(g, k, d, f))
        for f in c.mine(fs):
            yield use(some_net(c, k))
            d = heap_obj(g, k)
            for v in blanks(d, f):
                yield copy_ev(k, d, g.choice(['mk', 'copy']), [f], dict(copy_d(d), **{f: v}), g.choice(FORMS))
    for _ in c.many(500):
        k = g.choice(D.COPIERS + ['tx', 'tx', 'txin', 'decred'])
        fs = fields_of(k)
        if g.random() < 0.4:
            yield use(some_net(c, k))
        d = heap_obj(g, k)
        d2 = heap_obj(g, k)
        f = g.sample(fs, g.randrange(len(fs) + 1))
        if g.random() < 0.15 and f:
            d2 = spoil(g, k, d2, f[0])
        yield copy_ev(k, d, g.choice(['mk', 'parse', 'copy']) if k in D.PARSERS else 'mk', f, d2, g.choice(FORMS))
    # chains of copies, networks changing underneath
    for _ in c.many(120):
        yield RESET
        k = g.choice(D.COPIERS)
        yield use(some_net(c, k))
        d = heap_obj(g, k)
        yield new_ev(g, 1, k, d, 'mk')
        for h in (2, 3, 4):
            d2 = heap_obj(g, k)
            f = g.sample(fields_of(k), min(len(fields_of(k)), g.choice([0, 1, 1, 2])))
            f = [x for x in f if x not in ('ins', 'wits', 'flag', 'version', 'js', 'pub', 'sig', 'bsig', 'spends', 'souts', 'vb')]
            if g.random() < 0.15:
                yield use(some_net(c, k))
            yield 'hcopy', {'h': h - 1, 'h2': h, 'k': k, 'fields': f, 'd2': d2}
        for h in (1, 2, 3, 4):
            yield 'obs', {'h': h, 'k': k}
    yield RESET


# =================================================================== C17, C18
def g_C17(c):
    g = c.g
    for n in c.mine(ZCASH * 2):
        k = TXKIND[n]
        yield use(n)
        yield from with_all(c, k, g.obj(k, parseable=True))
        yield from with_all(c, k, small_obj(g, k))
    for k, j in c.mine([(k, j) for k in ('sprout', 'overwinter', 'sapling') for j in range(6)]):
        yield use(some_net(c, k))
        yield from with_all(c, k, getattr(g, k)(njs=j, parseable=True))
    for nsp, nso, nj in c.mine([(a, b, j) for a in (0, 1, 2) for b in (0, 1, 2) for j in (0, 1)]):
        yield use(some_net(c, 'sapling'))
        yield from with_all(c, 'sapling', g.sapling(njs=nj, parseable=True, nsp=nsp, nso=nso))
    for k, what, n in c.mine([(k, w, n) for k in ('sprout', 'overwinter', 'sapling') for w in ('ins', 'outs') for n in [252, 253, 254, 256] + c.fresh(3, 600, 6)] +
                             [('sapling', 'spends', 252), ('sapling', 'spends', 253), ('sapling', 'spends', 258), ('sapling', 'souts', 100)]):
        yield use(some_net(c, k))
        yield from with_all(c, k, grow(g, k, getattr(g, k)(njs=0, nin=1, nout=1, parseable=True), what, n))
    for k in c.mine(['sjs', 'gjs', 'gspend', 'goutput', 'sproof', 'gproof'] * 4):
        yield use(g.choice(ZCASH))
        yield from with_all(c, k, g.obj(k))
    for ln in c.mine([250, 251, 252, 253, 255, 256, 1000] + c.fresh(2, 70000)):
        for k in ('sprout', 'overwinter', 'sapling'):
            yield use(some_net(c, k))
            d = small_obj(g, k)
            d['outs'][0]['script'] = g.rb(ln)
            yield from with_all(c, k, d)
            d = small_obj(g, k)
            b = g.rb(ln)
            d['ins'][0].update(stack=b, redeem=[])
            yield from with_all(c, k, d)
    for _ in c.many(420):
        k = g.choice(['sprout', 'overwinter', 'sapling'])
        yield use(some_net(c, k))
        d = getattr(g, k)(njs=g.choice([0, 0, 0, 1, 2]), parseable=g.random() < 0.85)
        if g.random() < 0.6:
            yield from with_all(c, k, d)
        else:
            yield parse(k, fuzz(g, ser(k, d)), g.choice(PFORMS))


def g_C18(c):
    g = c.g
    kinds = ['doutpoint', 'dtxin', 'dtxout', 'dwitness', 'decred']
    for k in c.mine(kinds * 16):
        yield use(g.choice(DECRED))
        yield from with_all(c, k, g.obj(k, parseable=True))
    for what, n in c.mine([(w, n) for w in ('ins', 'outs') for n in COUNTS + c.fresh(3, 600, 6)]):
        yield use(g.choice(DECRED))
        yield mk('decred', grow(g, 'decred', g.decred(wits=True, nin=1, nout=1), what, n))
    for ln in c.mine([0, 1, 75, 250, 251, 252, 253, 254, 255, 256, 1000, 1649, 1650, 65535, 65536] + c.fresh(2, 70000)):
        yield use(g.choice(DECRED))
        o = dict(g.dtxout(), script=g.rb(ln))
        yield from with_all(c, 'dtxout', o)
        d = g.decred(wits=True, nin=2, nout=2)
        d['outs'][1] = o
        yield mk('decred', d)
        if ln <= 1650:
            b = g.rb(ln)
            j = g.choice([0, ln, ln // 2])
            w = dict(g.dwit(), stack=b[:j], redeem=b[j:])
            yield mk('dwitness', w)
            d = g.decred(wits=True, nin=2, nout=1)
            d['wits'][1] = w
            yield mk('decred', d)
    for _ in c.many(1100):
        if g.random() < 0.2:
            yield use(g.choice(DECRED))
        k = g.choice(kinds + ['decred'] * 3)
        d = g.obj(k, parseable=g.random() < 0.8)
        if k == 'decred' or g.random() < 0.7:
            yield from with_all(c, k, d)
        elif k in D.PARSERS:
            yield parse(k, fuzz(g, ser(k, d)), g.choice(PFORMS))


# =================================================================== C19 .. C24
def any_address(g, net, kind=None):
    """A plausible address text for a network."""
    from ops import riemann  # noqa: F401
    vers = VERSION_BYTES.get(net) or ([g.choice([0, 5, 30, 48, 50, 111, 196])], [g.choice([0, 5, 50, 196])])
    m = kind if kind is not None else g.randrange(7)
    if m in (0, 1):
        return b58check(vers[m] + g.rb(20))
    if m in (2, 3) and net in HRP_OF:
        return bech(HRP_OF[net], [0] + to5(g.rb(20 if m == 2 else 32)))
    if m in (4, 5) and net in CASH_OF:
        return cash(CASH_OF[net], to5([0 if m == 4 else 8] + g.rb(20)))
    return b58check([g.randrange(256)] + g.rb(20))


ADDRNETS = ['bitcoin_main', 'bitcoin_test', 'bitcoin_cash_main', 'bitcoin_cash_test', 'bitcoin_gold_main', 'litecoin_main',
            'zcash_sprout_main', 'zcash_sapling_test', 'decred_main', 'decred_test', 'bitcore_main', 'bitcoin_private_main',
            'groestlcoin_main', 'viacoin_main', 'vertcoin_main', 'dogecoin_main', 'digibyte_main']


def known_versions():
    """Version bytes as the specification has them, read from the specification's own table."""
    import re
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'Networks.tla')
    out = {}
    for m in re.finditer(r'"(\w+)" :> Row\(<<([0-9, ]*)>>, <<([0-9, ]*)>>', open(p).read()):
        out[m.group(1)] = [[int(x) for x in m.group(i).split(',') if x.strip()] for i in (2, 3)]
    return out


VERS = known_versions()
assert set(VERS) == set(NETS)


def b58c_for(net, payload):
    if net.startswith('decred'):
        return None         # BLAKE-256 checksum: obtained from the library instead
    return b58check(payload)


def b58ev(f, **kw):
    return 'b58', dict({'f': f, 'dflt': True, 'check': True}, **kw)


def corrupt(g, s, alphabet):
    """A text near s."""
    m = g.randrange(12)
    i = g.randrange(len(s)) if s else 0
    if not s:
        return g.choice('0OIl1')
    if m in (0, 1, 2):
        return s[:i] + g.choice(alphabet) + s[i + 1:]
    if m == 3:
        return s[:i] + s[i + 1:]
    if m == 4:
        return s[:i] + g.choice(alphabet) + s[i:]
    if m == 5 and len(s) > 1:
        i = g.randrange(len(s) - 1)
        return s[:i] + s[i + 1] + s[i] + s[i + 2:]
    if m == 6:
        return s[:i] + g.choice('0OIl bio1+/_-é \n') + s[i + 1:]
    if m == 7:
        return s + g.choice([' ', '\n', alphabet[0], '1'])
    if m == 8:
        return g.choice([' ', '\n', alphabet[0], '1']) + s
    if m == 9:
        return s[:i] + s[i].swapcase() + s[i + 1:]
    if m == 10:
        return s.swapcase()
    return s[:g.randrange(len(s) + 1)]


def g_C19(c):
    g = c.g
    fam = ['bitcoin_main', 'zcash_sprout_main', 'decred_main', 'groestlcoin_main']
    for n in fam:
        yield use(n)
        for ln in c.mine(list(range(0, 60)) + [80, 100]):
            for z in {0, 1, min(2, ln), ln}:
                if z <= ln:
                    b = [0] * z + g.rb(ln - z)
                    yield b58ev('enc', b=b)
                    yield b58ev('enc', b=b, dflt=False, check=True)
                    yield b58ev('enc', b=b, dflt=False, check=False)
                    yield b58ev('enc_check', b=b)
                    t = T(b58(b))
                    yield b58ev('dec', t=t, dflt=False, check=False)
                    yield b58ev('dec', t=t)
                    t = T(b58check(b))
                    yield b58ev('dec', t=t)
                    yield b58ev('dec_check', t=t)
                    yield b58ev('has', t=t)
        for ch in c.mine(range(0, 300)):
            t = T(b58check([0] + g.rb(20)))
            t[g.randrange(len(t))] = ch
            yield b58ev(g.choice(['dec', 'dec_check', 'has']), t=t)
            yield b58ev('dec', t=T('1')[:g.randrange(2)] + [ch] + T('z')[:g.randrange(2)], dflt=False, check=False)
    for n in c.mine(NETS):
        yield use(n)
        b = g.choice(VERS[n]) + g.rb(20)
        yield b58ev('enc', b=b)
        yield b58ev('dec', t=T(b58check(b)))
        yield 'addr', {'f': 'parse', 't': T(b58check(b))}
    # characters outside the alphabet, in texts that a reader taking them for some digit (or skipping them) would accept
    yield use('bitcoin_main')
    for ch in c.mine('0OIl+-_/ \n\t\u0131\u212a'):
        for v in range(-1, 58):
            for _ in range(8):
                t = b58check([g.choice([0, 5])] + g.rb(20))
                ps = [i for i, x in enumerate(t) if x == B58A[v] and i > 1 and (v >= 0 or t[i - 1] != 'z')]
                if ps:
                    i = g.choice(ps)
                    t = t[:i] + ch + t[i + 1:] if v >= 0 else t[:i - 1] + B58A[B58A.find(t[i - 1]) + 1] + ch + t[i + 1:]
                    yield b58ev(g.choice(['dec', 'dec_check', 'has']), t=T(t))
                    break
        t = b58check([0] + g.rb(20))
        for u in (ch + t, t + ch, t[:9] + ch + t[9:], t.replace('o', ch, 1)):
            yield b58ev('dec', t=T(u))
            yield 'addr', {'f': 'to_script', 't': T(u)}
    # checksums wrong in one bit
    for i in c.mine(range(32)):
        yield use('bitcoin_main')
        b = g.rb(g.choice([0, 1, 21, 33]))
        ck = dsha(b)[:4]
        ck[i // 8] ^= 1 << (i % 8)
        for f in ('dec', 'dec_check', 'has'):
            yield b58ev(f, t=T(b58check(b, ck)))
        for cut in (1, 2, 3):
            yield b58ev('dec', t=T(b58(b + dsha(b)[:cut])))
    for _ in c.many(1800):
        if g.random() < 0.1:
            yield use(g.choice(fam + [g.choice(NETS)]))
        b = [0] * g.choice([0, 0, 1, 3]) + g.rb(g.randrange(0, 40))
        t = b58check(b)
        if g.random() < 0.6:
            t = corrupt(g, t, B58A)
        yield b58ev(g.choice(['dec', 'dec_check', 'has']), t=T(t))
        if g.random() < 0.3:
            yield b58ev('dec', t=T(corrupt(g, b58(b), B58A)), dflt=False, check=False)


BECHNETS = sorted(HRP_OF)


def bech_texts(g, hrp):
    """Texts around the rules, valid and invalid."""
    p20, p32 = g.rb(20), g.rb(32)
    v = g.randrange(17)
    yield bech(hrp, [0] + to5(p20))
    yield bech(hrp, [0] + to5(p32))
    yield bech(hrp, [0] + to5(p20)).upper()
    yield bech(hrp, [v] + to5(g.rb(g.randrange(2, 41))))
    yield bech(hrp, [v] + to5(g.rb(g.randrange(2, 41)))).upper()
    for ln in (0, 1, 2, 19, 20, 21, 31, 32, 33, 39, 40, 41, 45):
        yield bech(hrp, [g.choice([0, 1, 16])] + to5(g.rb(ln)))
    for ver in (0, 1, 15, 16, 17, 31):
        yield bech(hrp, [ver] + to5(p20))
    # padding
    for ln in (21, 22, 23, 24, 25):
        base = to5(g.rb(ln))
        yield bech(hrp, [1] + base + [0])
        yield bech(hrp, [1] + base[:-1] + [base[-1] | 1])
        yield bech(hrp, [1] + base[:-1] + [base[-1] ^ 1])
        yield bech(hrp, [1] + base + [0, 0])
    yield bech(hrp, [0] + to5(p20) + [0])
    yield bech(hrp, [0] + to5(p32)[:-1] + [to5(p32)[-1] | 1])
    # other constants, other hrps
    yield bech(hrp, [1] + to5(p32), 0x2bc830a3)
    yield bech(hrp, [0] + to5(p20), 0)
    for h in (g.choice(HRPS), hrp + 'x', hrp[:-1] or 'x', 'x' + hrp, hrp.upper(), hrp + '1', 'b' + hrp[1:], hrp[0] * 2, '1' + hrp):
        yield bech(h, [0] + to5(p20))
    # case mixing
    s = bech(hrp, [0] + to5(p20))
    i = g.randrange(len(s))
    yield s[:i] + s[i].upper() + s[i + 1:]
    yield s[:len(hrp)].upper() + s[len(hrp):]
    yield hrp + s[len(hrp):].upper()
    # no data, no separator
    yield bech(hrp, [])
    yield bech(hrp, [0])
    yield hrp + s[len(hrp) + 1:]
    yield s[len(hrp) + 1:]
    yield '1' + s[len(hrp) + 1:]
    yield ''
    # too long
    yield bech(hrp, [1] + to5(g.rb(52)))
    yield bech(hrp, [1] + to5(g.rb(80)))
    # out of alphabet
    for ch in '1bioé \x7f!':
        j = g.randrange(len(hrp) + 1, len(s))
        yield s[:j] + ch + s[j + 1:]


def g_C20(c):
    g = c.g
    for n in c.mine(BECHNETS + ['dogecoin_main', 'bitcore_main', 'navcoin_main', 'decred_main', 'bitcoin_cash_main', 'zcash_sprout_main',
                                'groestlcoin_main', 'syscoin_main', 'monacoin_main']):
        yield use(n)
        h = HRP_OF.get(n, 'bc')
        for b in [[0] + g.rb(20), [0] + g.rb(32)] + [[g.randrange(17)] + g.rb(ln) for ln in (1, 2, 3, 19, 21, 33, 39, 40, 41)] + \
                [[v] + g.rb(20) for v in (0, 1, 2, 15, 16, 17, 31, 32, 81, 96, 255)] + [[0] + g.rb(ln) for ln in (2, 19, 21, 31, 33, 40)]:
            # second byte is the length in the library's form
            yield 'bech32', {'f': 'enc', 'b': b}
            yield 'bech32', {'f': 'enc', 'b': [b[0], len(b) - 1] + b[1:]}
        for t in bech_texts(g, h):
            yield 'bech32', {'f': 'dec', 't': T(t)}
            if g.random() < 0.3:
                yield 'bech32', {'f': 'b32_dec', 't': T(t)}
                yield 'bech32', {'f': 'seg_dec', 'hrp': T(h), 't': T(t)}
            if g.random() < 0.3:
                yield 'addr', {'f': 'to_script', 't': T(t)}
    yield use('bitcoin_main')
    # every single-character change of an address
    for i in c.mine(range(42)):
        s = bech('bc', [0] + to5(c.common.rb(20)) if False else [0] + to5(g.rb(20)))
        for ch in (g.sample(B32A, 8) if not c.deep else B32A):
            yield 'bech32', {'f': 'dec', 't': T(s[:i] + ch + s[i + 1:])}
    for ch in c.mine(range(1, 300)):
        s = bech('bc', [0] + to5(g.rb(20)))
        i = g.randrange(len(s))
        yield 'bech32', {'f': 'dec', 't': T(s[:i]) + [ch] + T(s[i + 1:])}
    # characters outside the alphabet, with a checksum that suits a reader taking them for some value
    for ch in c.mine('bio1BIO0-_: \u212a\u0131'):
        for v in [-1] + list(range(32)):
            for at in (0, g.randrange(1, 33)):
                w = [0] + to5(g.rb(20))
                w[at] = v
                s = bech('bc', w, odd=(at, ch))
                yield 'bech32', {'f': 'dec', 't': T(s)}
                if v == -1:
                    yield 'addr', {'f': 'to_script', 't': T(s)}
    # human-readable parts of the caller's
    for _ in c.many(260):
        h = g.choice(HRPS + ['a', '1', '11', 'a1', '!', '~', 'x1x', '?1ezyfcl', 'split', 'an83', 'a' * 83, 'q' * 30])
        if g.random() < 0.3:
            h = ''.join(chr(g.choice([33, 49, 57, 64, 91, 96, 97, 122, 126, g.randrange(97, 123)])) for _ in range(g.choice([1, 2, 5, 20, 45, 80])))
        p = g.rb(g.choice([20, 32, g.randrange(0, 43)]))
        v = g.randrange(18)
        yield 'bech32', {'f': 'seg_enc', 'hrp': T(h), 'ver': v, 'b': p}
        w = [g.randrange(32) for _ in range(g.choice([0, 1, 2, 33, 53, g.randrange(85)]))]
        yield 'bech32', {'f': 'b32_enc', 'hrp': T(h), 'b': w}
        t = bech(h, w)
        for s in (t, t.upper(), corrupt(g, t, B32A), bech(h, w, 0x2bc830a3), bech(h, [v] + to5(p))):
            yield 'bech32', {'f': 'b32_dec', 't': T(s)}
            yield 'bech32', {'f': 'seg_dec', 'hrp': T(h if g.random() < 0.8 else g.choice(HRPS)), 't': T(s)}
    for _ in c.many(900):
        if g.random() < 0.3:
            n = g.choice(BECHNETS)
            yield use(n)
        else:
            n = None
        h = HRP_OF[n] if n else g.choice(HRPS)
        m = g.random()
        if m < 0.3:
            yield 'bech32', {'f': 'enc', 'b': [g.choice([0, 0, 1, g.randrange(18)])] + [20] + g.rb(g.choice([20, 32, g.randrange(0, 43)]))}
        elif m < 0.6:
            yield 'bech32', {'f': 'dec', 't': T(bech(h, [g.randrange(18)] + to5(g.rb(g.choice([20, 32, g.randrange(0, 43)])))))}
        else:
            s = corrupt(g, bech(h, [g.randrange(17)] + to5(g.rb(g.choice([20, 32, g.randrange(2, 41)])))), B32A)
            if g.random() < 0.3:
                s = corrupt(g, s, B32A)
            yield 'bech32', {'f': 'dec', 't': T(s)}


def cash_texts(g, pre):
    p = g.rb(20)
    s = cash(pre, to5([0] + p))
    yield s
    yield cash(pre, to5([8] + p))
    for v in (1, 2, 3, 7, 9, 16, 120, 128, 255):
        yield cash(pre, to5([v] + p))
    for ln in (0, 1, 2, 19, 21, 24, 28, 32, 40, 64):
        yield cash(pre, to5([g.choice([0, 8])] + g.rb(ln)))
    yield s[len(pre) + 1:]
    yield ':' + s[len(pre) + 1:]
    yield 'x' + s
    yield s.replace(':', '')
    yield s.replace(':', '::')
    yield s.upper()
    yield pre.upper() + s[len(pre):]
    yield pre + s[len(pre):].upper()
    for q in ('bitcoincash', 'bchtest', 'bchreg', 'simpleledger', pre + 'x', pre[:-1], pre[:-1] + chr(ord(pre[-1]) ^ 32), 'pref'):
        yield cash(q, to5([0] + p))
    w = to5([0] + p)
    yield cash(pre, w + [0])
    yield cash(pre, w + [0, 0])
    yield cash(pre, w[:-1])
    yield cash(pre, w[:-1] + [w[-1] | 1])
    yield cash(pre, w[:-1] + [w[-1] ^ 2])
    yield cash(pre, [])
    yield cash(pre, [0])
    for ln in range(20, 26):
        b = to5([0] + g.rb(ln))
        yield cash(pre, b[:-1] + [b[-1] | 1])
        yield cash(pre, b + [0])
    i = g.randrange(len(pre) + 1, len(s))
    yield s[:i] + s[i].upper() + s[i + 1:]
    for ch in '1bio:é B':
        yield s[:i] + ch + s[i + 1:]
    yield ''
    yield pre + ':'
    yield pre


def g_C21(c):
    g = c.g
    for n in c.mine((CASH * 4) + ['bitcoin_main', 'litecoin_main', 'decred_main', 'zcash_sprout_main', 'bitcoin_gold_main', 'dogecoin_main']):
        yield use(n)
        pre = CASH_OF.get(n, 'bitcoincash')
        for t in cash_texts(g, pre):
            yield 'cash', {'f': 'dec', 't': T(t)}
            if g.random() < 0.4:
                yield 'addr', {'f': g.choice(['to_script', 'parse_hash', 'parse']), 't': T(t)}
        for v in (0, 8, 1, 2, 3, 16, 120, 128, 255):
            yield 'cash', {'f': 'enc', 'b': [v] + g.rb(20)}
        for ln in list(range(0, 45)) + [64]:
            yield 'cash', {'f': 'enc', 'b': [g.choice([0, 8])] + g.rb(ln)}
    yield use('bitcoin_cash_main')
    for i in c.mine(range(54)):
        s = cash('bitcoincash', to5([g.choice([0, 8])] + g.rb(20)))
        for ch in (g.sample(B32A, 8) if not c.deep else B32A):
            yield 'cash', {'f': 'dec', 't': T(s[:i] + ch + s[i + 1:])}
    for ch in c.mine(range(1, 300)):
        s = cash('bitcoincash', to5([0] + g.rb(20)))
        i = g.randrange(12, len(s))
        yield 'cash', {'f': 'dec', 't': T(s[:i]) + [ch] + T(s[i + 1:])}
    for ch in c.mine('bio1BIO0-_ \u212a\u0131'):
        for v in [-1] + list(range(32)):
            for at in (0, 1, g.randrange(2, 34)):
                w = to5([g.choice([0, 8])] + g.rb(20))
                w[at] = v
                s = cash('bitcoincash', w, odd=(at, ch))
                yield 'cash', {'f': 'dec', 't': T(s)}
                if v == -1:
                    yield 'addr', {'f': 'to_script', 't': T(s)}
    for _ in c.many(700):
        if g.random() < 0.2:
            yield use(g.choice(CASH))
        s = cash(g.choice(['bitcoincash', 'bchtest']), to5([g.choice([0, 8])] + g.rb(20)))
        if g.random() < 0.8:
            s = corrupt(g, s, B32A)
        if g.random() < 0.2:
            s = corrupt(g, s, B32A)
        yield 'cash', {'f': 'dec', 't': T(s)}


def valid_texts(g, n):
    """(text) addresses of network n in every form, by an encoder of our own (not Decred)."""
    out = []
    if not n.startswith('decred'):
        out += [b58check(VERS[n][0] + g.rb(20)), b58check(VERS[n][1] + g.rb(20))]
    if n in HRP_OF:
        for ln in (20, 32):
            s = bech(HRP_OF[n], [0] + to5(g.rb(ln)))
            out += [s, s.upper()]
    if n in CASH_OF:
        out += [cash(CASH_OF[n], to5([0] + g.rb(20))), cash(CASH_OF[n], to5([8] + g.rb(20)))]
    return out


def odd_texts(g, n):
    """Addresses that must be refused, or that sit at an edge."""
    out = []
    v0, v1 = VERS[n]
    for v in (v0, v1):
        for ln in (0, 1, 19, 21, 32):
            out.append(b58check(v + g.rb(ln)))
        out.append(b58check([x ^ 1 for x in v] + g.rb(20)))
        out.append(b58check(v[:1] + g.rb(20)) if len(v) > 1 else b58check(v + [0] + g.rb(20)))
    out.append(b58check(g.rb(20)))
    out.append(b58check([0] + VERS[n][0] + g.rb(20)))
    other_net = g.choice(NETS)
    out += valid_texts(g, other_net)
    if n in HRP_OF:
        h = HRP_OF[n]
        out += [bech(h, [v] + to5(g.rb(ln))) for v, ln in ((1, 20), (1, 32), (2, 32), (16, 2), (0, 19), (0, 21), (0, 40), (17, 20))]
        s = bech(h, [0] + to5(g.rb(20)))
        out += [s + 'q', 'q' + s, s[:-1], s[1:], s + 'qqqqqq', corrupt(g, s, B32A), h + '1', h]
    if n in CASH_OF:
        p = CASH_OF[n]
        out += [cash(p, to5([v] + g.rb(20))) for v in (1, 2, 3, 7, 9, 16, 24, 128, 136)]
        out += [cash(p, to5([v] + g.rb(ln))) for v in (0, 8) for ln in (19, 21, 32, 24)]
        s = cash(p, to5([0] + g.rb(20)))
        out += [s[len(p) + 1:], corrupt(g, s, B32A), s + 'q']
    out += ['', ' ', 'nonsense', '1', 'bc1', 'OP_DUP', '0x00', '1' * 34, 'bitcoincash:', b58(g.rb(25))]
    return out


def odd_scripts(g):
    h = g.rb(20)
    pkh = [118, 169, 20] + h + [136, 172]
    sh = [169, 20] + h + [135]
    out = [[], [0], [0, 20], [0, 32], [0, 20] + h[:-1], [0, 20] + h + [0], [0, 32] + h, [0, 32] + g.rb(31), [0, 32] + g.rb(33),
           [0, 21] + g.rb(21), [0, 40] + g.rb(40), [81, 20] + h, [81, 32] + g.rb(32), [96, 2, 1, 2], [0, 2, 1, 2],
           pkh[:-1], pkh + [0], [97] + pkh, pkh[:-1] + [173], pkh[:-2] + [135, 172], [118, 169, 19] + h[:-1] + [136, 172],
           [118, 169, 21] + h + [1, 136, 172], [118, 168, 20] + h + [136, 172], [117, 169, 20] + h + [136, 172],
           sh[:-1], sh + [0], [97] + sh, sh[:-1] + [136], [169, 19] + h[:-1] + [135], [169, 21] + h + [0, 135], [170, 20] + h + [135],
           [169, 76, 20] + h + [135], [118, 169, 76, 20] + h + [136, 172], [169, 32] + g.rb(32) + [135],
           push(g.key()) + [172], [81] + push(g.key()) + [81, 174], [106, 4, 1, 2, 3, 4], [106] + pkh, [106] + [0, 20] + h,
           g.rb(22), g.rb(23), g.rb(25), g.rb(34), [0, 20] + h + [135], [118, 169] + sh, h, [20] + h, [169, 20] + h + [135, 172],
           [118, 169, 20] + h + [135, 172], [118, 169, 20] + h + [136], [0, 0], [0, 1], [135], [172], [136, 172],
           [118, 192, 20] + h + [136, 172], [169, 20] + h, [0, 20] + h + h[:12],
           [118, 169, 20] + g.rb(19) + [136, 172], [118, 169, 20] + g.rb(21) + [136, 172], [169, 20] + g.rb(19) + [135]]
    return out


def near_scripts(g, c):
    """Every standard form with each of its fixed bytes replaced by every value, and each prefix anywhere else."""
    forms = [([118, 169, 20], 20, [136, 172]), ([169, 20], 20, [135]), ([0, 20], 20, []), ([0, 32], 32, [])]
    for k, (pre, n, post) in enumerate(forms):
        for at in c.mine(range(256 * len(pre + post))):
            i, v = divmod(at, 256)
            s = pre + g.rb(n) + post
            i = i if i < len(pre) else i + n
            if c.deep or s[i] != v and (v < 4 or g.random() < 0.4 or v in (s[i] ^ 1, s[i] ^ 128, 0x50, 0x51, 0x60, 0x4c)):
                yield s[:i] + [v] + s[i + 1:]
        for other, m, tail in forms:                     # a form's length, another one's prefix at any place
            for at in range(len(pre) + n + len(post) + 1):
                s = g.rb(len(pre) + n + len(post))
                s[0] = s[0] or 81
                s[at:at + len(other)] = other
                if len(s) == len(pre) + n + len(post) and g.random() < (1 if c.deep else 0.5):
                    yield s


def g_C22(c):
    g = c.g
    yield use(g.choice(['bitcoin_main', 'litecoin_test', 'bitcoin_cash_main', 'vertcoin_main', 'dogecoin_main', 'decred_main']))
    for s in near_scripts(g, c):
        yield 'addr', {'f': 'from_script', 'b': s, 'dflt': g.random() < 0.5, 'cash': g.random() < 0.5}
    for n in c.mine(NETS):
        yield use(n)
        for s in ([118, 169, 20] + g.rb(20) + [136, 172], [169, 20] + g.rb(20) + [135], [0, 20] + g.rb(20), [0, 32] + g.rb(32)):
            for ca in (None, True, False):
                yield 'addr', {'f': 'from_script', 'b': s, 'dflt': ca is None, 'cash': ca is not False}
            yield 'roundtrip', {'b': s, 'cash': True}
            yield 'roundtrip', {'b': s, 'cash': False}
        for t in valid_texts(g, n):
            yield 'addr', {'f': 'to_script', 't': T(t)}
        for t in (odd_texts(g, n) if n in ADDRNETS or c.deep else g.sample(odd_texts(g, n), 10)):
            yield 'addr', {'f': 'to_script', 't': T(t)}
        for s in (odd_scripts(g) if n in ADDRNETS or c.deep else g.sample(odd_scripts(g), 8)):
            yield 'addr', {'f': 'from_script', 'b': s, 'dflt': g.random() < 0.5, 'cash': g.random() < 0.5}
    # special hash contents
    for n in c.mine(ADDRNETS):
        yield use(n)
        for h in ([0] * 20, [255] * 20, [0] * 19 + [1], [1] + [0] * 19, [136, 172] * 10, [20] * 20, [118, 169] * 10):
            for s in ([118, 169, 20] + h + [136, 172], [169, 20] + h + [135], [0, 20] + h, [0, 32] + h + h[:12]):
                yield 'roundtrip', {'b': s, 'cash': g.random() < 0.5}
    for _ in c.many(800):
        if g.random() < 0.2:
            n = g.choice(ADDRNETS)
            yield use(n)
        else:
            n = None
        m = g.random()
        if m < 0.4:
            yield 'roundtrip', {'b': g.std_script(), 'cash': g.random() < 0.5}
        elif m < 0.7:
            yield 'addr', {'f': 'from_script', 'b': fuzz(g, g.std_script()), 'dflt': True, 'cash': True}
        else:
            t = g.choice(valid_texts(g, g.choice(ADDRNETS)) or ['x'])
            yield 'addr', {'f': 'to_script', 't': T(t if g.random() < 0.4 else corrupt(g, t, B58A + B32A))}


def g_C23(c):
    g = c.g
    for n in c.mine(NETS):
        yield use(n)
        for t in valid_texts(g, n):
            yield 'addr', {'f': 'parse_hash', 't': T(t)}
            yield 'addr', {'f': 'parse', 't': T(t)}
        for s in ([118, 169, 20] + g.rb(20) + [136, 172], [169, 20] + g.rb(20) + [135], [0, 20] + g.rb(20), [0, 32] + g.rb(32)):
            yield 'hashback', {'b': s, 'cash': True}
            yield 'hashback', {'b': s, 'cash': False}
        for t in g.sample(odd_texts(g, n), 10 if not c.deep else 20):
            yield 'addr', {'f': 'parse_hash', 't': T(t)}
            yield 'addr', {'f': 'parse', 't': T(t)}
    for n in c.mine(ADDRNETS):
        yield use(n)
        for h in ([0] * 20, [255] * 20, [0] * 19 + [1], [1] + [0] * 19, [20] + [0] * 19):
            for s in ([118, 169, 20] + h + [136, 172], [169, 20] + h + [135], [0, 20] + h, [0, 32] + h + h[:12]):
                yield 'hashback', {'b': s, 'cash': g.random() < 0.5}
    for _ in c.many(800):
        if g.random() < 0.25:
            yield use(g.choice(ADDRNETS))
        t = g.choice(valid_texts(g, g.choice(ADDRNETS)) or ['x'])
        yield 'addr', {'f': g.choice(['parse_hash', 'parse']), 't': T(t if g.random() < 0.5 else corrupt(g, t, B58A + B32A))}


def long_tokens(g, size):
    """A script text of exactly so many bytes."""
    out = []
    while size > 80:
        n = g.choice([75, 255, 520, 1000]) if size > 1100 else min(75, size - 1)
        out.append(T(bytes(g.rb(n)).hex()))
        size -= n + (1 if n <= 75 else 2 if n <= 255 else 3)
    if size > 1 and g.random() < 0.5:                  # one push takes all the rest
        return shuffled(g, out + [T(bytes(g.rb(min(75, size - 1))).hex())] + [T('OP_NOP')] * max(0, size - 76))
    return shuffled(g, out + [T(g.choice(['OP_DUP', 'OP_1', 'OP_HASH160', 'OP_CHECKSIG'])) for _ in range(size)])


LONG_SCRIPTS = (75, 76, 77, 252, 253, 254, 255, 256, 257, 518, 519, 520, 521, 522, 999, 1000, 1001, 1650, 1651, 3600, 3601, 10000, 10001)


def g_C24(c):
    g = c.g
    for size in c.mine(tuple(range(1, 75)) + (LONG_SCRIPTS if c.deep else LONG_SCRIPTS[:19]) + tuple(c.fresh(75, 70000, 6))):
        toks = long_tokens(g, size)
        for n in ('bitcoin_main', g.choice(ADDRNETS)):
            yield use(n)
            for f in ('p2sh', 'p2wsh', 'legacy_p2sh'):
                yield 'made', {'f': f, 'toks': toks}

    def one(n):
        pub = g.key() if g.random() < 0.8 else g.rb(g.choice([0, 1, 20, 32, 64, 100]))
        toks = g.tokens(g.choice([1, 2, 3, 5]))
        if g.random() < 0.06:
            toks.insert(0, T(g.choice(BADTOKS)))
        yield 'made', {'f': g.choice(['p2pkh', 'p2wpkh', 'legacy_p2pkh']), 'pub': pub}
        yield 'made', {'f': 'pkh', 'pub': pub, 'wit': g.random() < 0.5, 'cash': g.random() < 0.5}
        yield 'made', {'f': g.choice(['p2sh', 'p2wsh', 'legacy_p2sh']), 'toks': toks}
        yield 'made', {'f': 'sh', 'toks': toks, 'wit': g.random() < 0.5, 'cash': g.random() < 0.5}
    for n in c.mine(NETS):
        yield use(n)
        pub = g.key()
        toks = g.tokens(2)
        for f in ('p2pkh', 'p2wpkh', 'legacy_p2pkh'):
            yield 'made', {'f': f, 'pub': pub}
        for f in ('p2sh', 'p2wsh', 'legacy_p2sh'):
            yield 'made', {'f': f, 'toks': toks}
        for w in (True, False):
            for ca in (True, False):
                yield 'made', {'f': 'pkh', 'pub': pub, 'wit': w, 'cash': ca}
                yield 'made', {'f': 'sh', 'toks': toks, 'wit': w, 'cash': ca}
    # the same request, word for word, on one network after another
    for _ in c.many(24):
        pub = g.key()
        toks = g.tokens(2) + [T(g.choice(['OP_SHA256', 'OP_BLAKE256', 'OP_HASH160', 'OP_1']))]
        for n in shuffled(g, ['bitcoin_main', 'decred_main', g.choice(ADDRNETS), g.choice(DECRED)]) + ['bitcoin_main']:
            yield use(n)
            wit = g.random() < 0.5
            for f, kw in shuffled(g, [('p2pkh', {'pub': pub}), ('p2sh', {'toks': toks}), ('p2wpkh', {'pub': pub}), ('p2wsh', {'toks': toks}),
                                      ('pkh', {'pub': pub, 'wit': wit, 'cash': True}), ('sh', {'toks': toks, 'wit': wit, 'cash': True})])[:4]:
                yield 'made', dict({'f': f}, **kw)
    for _ in c.many(280):
        n = g.choice(ADDRNETS + NETS)
        yield use(n)
        yield from one(n)


# =================================================================== C25, C26
def tbv(f, **kw):
    return 'tb', dict({'f': f}, **kw)


def opd(g, net):
    return g.obj('doutpoint' if net in DECRED else 'outpoint')


def edge_num(g, bits):
    m = g.random()
    if m < 0.75:
        return g.choice([0, 1, 2, 255, 256, 2 ** (bits - 1), 2 ** bits - 1, g.getrandbits(bits), g.getrandbits(bits // 2)])
    return g.choice([2 ** bits, 2 ** bits + 1, -1, -2 ** 31, 2 ** (bits + 8)])


def tb_random(g, net):
    toks = g.tokens(g.choice([0, 1, 2, 4]))
    if g.random() < 0.05:
        toks.append(T(g.choice(BADTOKS)))
    pub = g.key() if g.random() < 0.8 else g.rb(g.choice([0, 1, 20, 66]))
    f = g.randrange(22)
    val = big(edge_num(g, 64))
    seq = big(edge_num(g, 32))
    w = g.random() < 0.5
    if f == 0:
        return tbv('sh_script_pubkey', script=g.rb(g.randrange(40)), wit=w)
    if f == 1:
        return tbv('sh_output_script', toks=toks, wit=w)
    if f == 2:
        return tbv(g.choice(['p2sh_output_script', 'p2wsh_output_script']), toks=toks)
    if f == 3:
        return tbv('pkh_output_script', pub=pub, wit=w)
    if f == 4:
        return tbv(g.choice(['p2pkh_output_script', 'p2wpkh_output_script']), pub=pub)
    if f == 5:
        return tbv('sh_output', value=val, toks=toks, wit=w)
    if f == 6:
        return tbv(g.choice(['p2sh_output', 'p2wsh_output']), value=val, toks=toks)
    if f == 7:
        return tbv('pkh_output', value=val, pub=pub, wit=w)
    if f == 8:
        return tbv(g.choice(['p2pkh_output', 'p2wpkh_output']), value=val, pub=pub)
    if f == 9:
        return tbv('op_return_output', data=g.rb(g.choice([0, 1, 20, 40, 74, 75, 76, 77, 78, 80, 100])))
    if f == 10:
        return tbv('empty_witness')
    if f == 11:
        return tbv('witness_stack_item', data=g.rb(g.choice([0, 1, 72, 252, 253])))
    if f == 12:
        return tbv('witness', items=g.items(g.randrange(5)))
    if f == 13:
        return tbv('decred_witness', d=g.dwit())
    if f in (14, 15):
        return tbv('outpoint', txid=g.rb(32) if g.random() < 0.9 else g.rb(g.choice([0, 31, 33])), index=big(edge_num(g, 32)),
                   tree=[] if g.random() < 0.5 else [big(edge_num(g, 8))])
    if f == 16:
        return tbv('script_sig', stack=g.tokens(g.choice([0, 1, 2, 3])), redeem=toks if g.random() < 0.8 else [])
    if f == 17:
        s, r = g.script_sig()
        return tbv('legacy_input', op=opd(g, net), stack=s, redeem=r, seq=seq)
    if f == 18:
        return tbv('witness_input', op=opd(g, net), seq=seq)
    if f == 19:
        return tbv('decred_input', op=opd(g, net), seq=seq)
    if f == 20:
        return tbv('length_prepend', data=g.rb(g.choice([0, 1, 25, 252, 253, 300])))
    return tb_tx(g, net)


def tb_tx(g, net, **force):
    k = TXKIND[net]
    d = g.obj(k)
    ik, ok = ('dtxin', 'dtxout') if k == 'decred' else ('txin', 'txout')
    jk = 'gjs' if k == 'sapling' else 'sjs'

    def n4(b):
        return big(int.from_bytes(bytes(b), 'little'))
    a = {'f': 'tx', 'version': n4(d.get('version', le(g.choice([1, 2, 3, 4]), 4))), 'ins': d['ins'], 'outs': d['outs'],
         'lock': n4(d['lock']), 'expiry': [], 'vb': [], 'spends': [], 'souts': [], 'wits': [], 'js': [], 'pub': [], 'sig': [],
         'bsig': [], 'ik': ik, 'ok': ok, 'jk': jk}
    if k == 'tx':
        if d['flag']:
            a['wits'] = [d['wits'] or [[] for _ in d['ins']]]
            if g.random() < 0.1:
                a['wits'] = [[]]
    elif k == 'decred':
        a['expiry'] = [n4(d['expiry'])]
        if d['wits'] or g.random() < 0.5:
            a['wits'] = [d['wits']]
    else:
        if d['js'] or (k == 'sprout' and g.random() < 0.7) or g.random() < 0.3:
            a['js'] = [d['js']]
        a['pub'], a['sig'] = d['pub'], d['sig']
        if k != 'sprout':
            a['expiry'] = [n4(d['expiry'])]
        if k == 'sapling':
            v = int.from_bytes(bytes(d['vb']), 'little', signed=True)
            if v or g.random() < 0.5:
                a['vb'] = [big(v)]
            if d['spends'] or g.random() < 0.5:
                a['spends'] = [d['spends']]
            if d['souts'] or g.random() < 0.5:
                a['souts'] = [d['souts']]
            a['bsig'] = d['bsig']
    m = g.random()
    if m < 0.04:
        a['version'] = big(g.choice([-1, 2 ** 32, 2 ** 40]))
    elif m < 0.08:
        a['lock'] = big(g.choice([-1, 2 ** 32, 2 ** 40]))
    elif m < 0.1:
        a['ins'] = []
    elif m < 0.12:
        a['outs'] = []
    elif m < 0.15 and a['vb']:
        a['vb'] = [big(g.choice([2 ** 63, -2 ** 63 - 1, 2 ** 64]))]
    elif m < 0.18 and a['expiry']:
        a['expiry'] = [big(g.choice([-1, 2 ** 32, 500000000, 499999999]))]
    elif m < 0.21 and k == 'tx':
        a['wits'] = [[[] for _ in range(len(d['ins']) + 1)]]
    a.update(force)
    return 'tb', a


def g_C25(c):
    g = c.g
    for size in c.mine(tuple(range(1, 75)) + (LONG_SCRIPTS if c.deep else LONG_SCRIPTS[:19]) + tuple(c.fresh(75, 70000, 6))):
        toks = long_tokens(g, size)
        for n in ('bitcoin_main', g.choice(ADDRNETS)):
            yield use(n)
            for f in ('p2sh_output_script', 'p2wsh_output_script'):
                yield tbv(f, toks=toks)
            yield tbv('sh_script_pubkey', script=g.rb(size), wit=g.random() < 0.5)
    for n in c.mine(NETS):
        yield use(n)
        for w in (True, False):
            yield tbv('sh_script_pubkey', script=g.rb(9), wit=w)
            yield tbv('sh_output_script', toks=g.tokens(2), wit=w)
            yield tbv('pkh_output_script', pub=g.key(), wit=w)
            yield tbv('sh_output', value=big(g.n64()), toks=g.tokens(2), wit=w)
            yield tbv('pkh_output', value=big(g.n64()), pub=g.key(), wit=w)
        for f in ('p2sh_output_script', 'p2wsh_output_script'):
            yield tbv(f, toks=g.tokens(2))
        for f in ('p2pkh_output_script', 'p2wpkh_output_script'):
            yield tbv(f, pub=g.key())
        for f in ('p2sh_output', 'p2wsh_output'):
            yield tbv(f, value=big(g.n64()), toks=g.tokens(2))
        for f in ('p2pkh_output', 'p2wpkh_output'):
            yield tbv(f, value=big(g.n64()), pub=g.key())
        s, r = g.script_sig()
        yield tbv('legacy_input', op=opd(g, n), stack=s, redeem=r, seq=big(g.n32()))
        yield tbv('witness_input', op=opd(g, n), seq=big(g.n32()))
        yield tbv('decred_input', op=opd(g, n), seq=big(g.n32()))
        yield tbv('outpoint', txid=g.rb(32), index=big(g.n32()), tree=[])
        yield tbv('outpoint', txid=g.rb(32), index=big(g.n32()), tree=[big(g.randrange(256))])
        yield tbv('decred_witness', d=g.dwit())
        yield tbv('op_return_output', data=g.rb(g.randrange(78)))
        yield tbv('script_sig', stack=g.tokens(2), redeem=g.tokens(3))
    for n in ('bitcoin_main', 'decred_main'):
        yield use(n)
        for ln in c.mine(range(0, 90)):
            yield tbv('op_return_output', data=g.rb(ln))
        for v in c.mine([0, 1, 255, 256, 65535, 65536, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 1, -1, -255, -2 ** 63]):
            yield tbv('pkh_output', value=big(v), pub=g.key(), wit=False)
            yield tbv('sh_output', value=big(v), toks=[T('OP_1')], wit=False)
            yield tbv('outpoint', txid=g.rb(32), index=big(v), tree=[])
            yield tbv('outpoint', txid=g.rb(32), index=big(1), tree=[big(v)])
            yield tbv('legacy_input', op=opd(g, n), stack=[], redeem=[], seq=big(v))
            yield tbv('witness_input', op=opd(g, n), seq=big(v))
        # redeem scripts whose serialized form crosses the push boundaries
        for ln in c.mine([1, 2, 70, 72, 73, 74, 75, 76, 77, 78, 100, 200, 250, 252, 253, 254, 255, 256, 257, 400, 990, 995, 997, 998, 999, 1000]):
            toks = [hx(g.rb(min(ln, 990)))] + [T('OP_1')] * g.choice([0, 1, 2])
            yield tbv('script_sig', stack=g.tokens(g.choice([0, 1, 2])), redeem=toks)
            yield tbv('sh_output_script', toks=toks, wit=g.random() < 0.5)
            yield tbv('script_sig', stack=[T('OP_0')], redeem=[T('OP_NOP')] * ln)
        for ln in c.mine([0, 1, 75, 76, 251, 252, 253, 254, 255, 256, 65535, 65536]):
            yield tbv('witness_stack_item', data=g.rb(ln))
            yield tbv('witness', items=[g.rb(ln), [1]])
            yield tbv('length_prepend', data=g.rb(ln))
            yield tbv('sh_script_pubkey', script=g.rb(ln), wit=False)
        for m in c.mine([0, 1, 2, 251, 252, 253, 254, 256]):
            yield tbv('witness', items=[[i % 256] for i in range(m)])
    for _ in c.many(30):
        pub = g.key()
        toks = g.tokens(2) + [T(g.choice(['OP_SHA256', 'OP_BLAKE256', 'OP_HASH160', 'OP_1']))]
        v = big(g.n64())
        for n in shuffled(g, ['bitcoin_main', 'decred_main', g.choice(FAMILIES)]) + ['bitcoin_main']:
            yield use(n)
            w = g.random() < 0.5
            for f, kw in shuffled(g, [('sh_output_script', {'toks': toks, 'wit': w}), ('pkh_output_script', {'pub': pub, 'wit': w}),
                                      ('p2sh_output', {'value': v, 'toks': toks}), ('p2pkh_output', {'value': v, 'pub': pub}),
                                      ('script_sig', {'stack': toks, 'redeem': toks})])[:3]:
                yield tbv(f, **kw)
    for _ in c.many(1100):
        if g.random() < 0.5:
            n = g.choice(FAMILIES)
            yield use(n)
            last = n
        else:
            n = None
        for _ in range(2):
            e = tb_random(g, n or 'bitcoin_main') if n else None
            if e is None:
                yield use('decred_test')
                e = tb_random(g, 'decred_test')
            if e[1]['f'] != 'tx':
                yield e


def g_C26(c):
    g = c.g

    def simple_events(n):
        dec_ = n in DECRED
        ik, ok = ('dtxin', 'dtxout') if dec_ else ('txin', 'txout')
        jk = 'gjs' if n in SAPLING else 'sjs'
        for t in (valid_texts(g, n) or [None]):
            if t and g.random() < 0.6:
                yield tbv('s_output', value=big(edge_num(g, 64)), addr=T(t))
        if g.random() < 0.3:
            yield tbv('s_output', value=big(g.n64()), addr=T(g.choice(odd_texts(g, n))))
        yield 's_output_for', {'value': big(g.n64()), 'b': g.std_script()}
        h = bytes(g.rb(32)).hex()
        yield tbv('s_outpoint', txid=T(h if g.random() < 0.8 else h.upper()), index=big(edge_num(g, 32)),
                  tree=[] if g.random() < 0.6 else [big(edge_num(g, 8))])
        if g.random() < 0.3:
            yield tbv('s_outpoint', txid=T(g.choice([h[:-2], h + '00', h[:-1], 'zz' + h[2:], ''])), index=big(1), tree=[])
        yield tbv('s_input', op=opd(g, n), seq=[] if g.random() < 0.5 else [big(edge_num(g, 32))])
        ins = [g.obj(ik) for _ in range(g.choice([1, 2, 3]))]
        outs = [g.obj(ok) for _ in range(g.choice([1, 2, 3]))]
        if g.random() < 0.2:                           # a part given twice, or two parts that share a field
            xs = g.choice([ins, outs])
            x, y = g.choice(xs), g.obj(ik if xs is ins else ok)
            xs.append(g.choice([x] + [dict(y, **{f: x[f]}) for f in x]))
        if n in SPROUT + OVERWINTER + SAPLING and g.random() < 0.3:
            j = g.js_fields('gjs' if n in SAPLING else 'sjs', g.choice([0, 1]))
        else:
            j = {'js': [], 'pub': [], 'sig': []}
        a = {'f': 's_legacy_tx', 'version': [], 'lock': [], 'expiry': [], 'js': [j['js']] if j['js'] or g.random() < 0.2 else [],
             'pub': j['pub'], 'sig': j['sig'], 'ins': ins, 'outs': outs, 'ik': ik, 'ok': ok, 'jk': jk}
        if g.random() < 0.5:
            a['version'] = [big(g.choice([1, 2, 1, 2, g.n32()]))]
        if g.random() < 0.6:
            a['lock'] = [big(edge_num(g, 32))]
        if g.random() < 0.6:
            a['expiry'] = [big(g.choice([0, 1, 499999999, g.randrange(500000000), 500000000]))]
        yield 'tb', a
        b = {f: a[f] for f in ('version', 'lock', 'ins', 'outs', 'ik', 'ok')}
        yield 'tb', dict(b, f='s_witness_tx')
    for n in c.mine(NETS):
        yield use(n)
        for _ in range(2):
            yield tb_tx(g, n)
        yield from simple_events(n)
    for n in c.mine(FAMILIES):
        yield use(n)
        for m in (253, 256) if n in ('bitcoin_main', 'decred_main', 'zcash_sapling_main') else ():
            op, a = tb_tx(g, n)
            k = TXKIND[n]
            d = grow(g, k, {'ins': [], 'outs': []}, 'ins', m)
            a['ins'] = d['ins']
            a['wits'] = [] if k != 'tx' or not a['wits'] else [[[] for _ in range(m)]]
            yield op, a
    for _ in c.many(420):
        n = g.choice(FAMILIES + ZCASH + DECRED) if g.random() < 0.7 else g.choice(NETS)
        yield use(n)
        yield tb_tx(g, n)
        if g.random() < 0.5:
            yield from simple_events(n)


# =================================================================== C27
def g_C27(c):
    g = c.g

    def make(k):
        d = {'tx': lambda: g.tx(nin=g.choice([1, 2, 3, 5]), nout=g.choice([1, 2, 3, 5])),
             'sprout': lambda: g.sprout(njs=g.choice([0, 1, 2, 3])),
             'overwinter': lambda: g.overwinter(njs=g.choice([0, 1, 2, 3])),
             'sapling': lambda: g.sapling(njs=g.choice([0, 0, 1, 2])),
             'decred': lambda: g.decred(wits=True)}[k]()
        return d
    for _ in c.many(1000):
        k = g.choice(['tx', 'tx', 'sprout', 'overwinter', 'sapling', 'sapling', 'decred', 'decred'])
        yield use(some_net(c, k))
        d = make(k)
        if g.random() < 0.3:
            for o in d['outs']:
                o['value'] = le(g.choice([2 ** 64 - 1, 2 ** 63, 2 ** 62, 0]), 8)
        if k == 'sapling' and (d['spends'] or d['souts']):
            d['vb'] = list(g.choice([1, -1, 2 ** 63 - 1, -2 ** 63, -10 ** 8, 10 ** 8, -256, 255, 128, -128]).to_bytes(8, 'little', signed=True))
        n = g.choice([len(d['ins']), len(d['ins']), 0, 1, 4])
        ins = [big(g.choice([g.n64(), 0, 2 ** 64, 2 ** 80, g.randrange(10 ** 10)])) for _ in range(n)]
        yield 'fee', {'k': k, 'd': d, 'src': sig_src(g, k, d), 'ins': ins}
    for k, n in c.mine([('tx', 253), ('decred', 253), ('tx', 300)]):
        yield use(some_net(c, k))
        d = grow(g, k, grow(g, k, make(k), 'ins', n), 'outs', n)
        yield 'fee', {'k': k, 'd': d, 'src': 'mk', 'ins': [big(g.n64()) for _ in range(n)]}


# =================================================================== C28
def salt_of(g, size):
    n = 16 if size <= 256 else 32
    return g.rb(n if g.random() < 0.6 else g.choice([1, n // 4, n - 1, n + 1, n + 3, 2 * n, 3 * n]))


BSIZES = (224, 256, 384, 512)


def blk(size):
    return 64 if size <= 256 else 128


def split(g, b):
    """A random chunking."""
    out, i = [], 0
    while i < len(b):
        n = g.choice([0, 1, 2, 3, 63, 64, 65, 127, 128, 129, 55, 56, 111, 112, len(b), g.randrange(1, 200)])
        out.append(b[i:i + n])
        i += n
    return out or [[]]


HDL = itertools.count(1)


def utf8_text(g, n):
    return [g.choice([65, 97, 48, 32, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x20ac, 0xffff, 0x10000, 0x1f600, 0]) for _ in range(n)]


def bl_session(g, size, chunks, salt=None, finals=1, texts=(), tail=None):
    h = 1 if g.random() < 0.5 else 2
    yield 'bl_new', {'h': h, 'size': size, 'salt': [] if salt is None else [salt]}
    for i, ch in enumerate(chunks):
        yield 'bl_update', {'h': h, 'b': ch, 'text': i in texts, 'form': 'bytes'}
    for i in range(finals):
        yield 'bl_final', {'h': h, 'how': g.choice(['final', 'digest', 'hex']), 'b': tail or [] if i == 0 else [], 'text': False, 'form': 'bytes'}


def g_C28(c):
    g = c.g
    yield use('bitcoin_main')
    # every length around the block and padding boundaries, one-shot and cut in two
    for size in BSIZES:
        bs = blk(size)
        lens = list(range(0, 3 * bs + 2)) if c.deep else sorted(set(
            list(range(0, 6)) + [x + d for x in (bs - bs // 8 - 1, bs, 2 * bs - bs // 8 - 1, 2 * bs, 3 * bs) for d in range(-2, 3)]
            + list(range(7, 2 * bs, 9)) + [3 * bs + 1, 5 * bs] + c.fresh(6, 20000)))
        for ln in c.mine(lens):
            b = g.rb(ln)
            salt = salt_of(g, size)
            yield 'hash', {'f': 'blake', 'b': b, 'size': [size], 'person': []}
            yield 'hash', {'f': 'blake', 'b': b, 'size': [size], 'person': [salt]}
            i = g.randrange(ln + 1)
            yield from bl_session(g, size, [b[:i], b[i:]])
            i = g.randrange(ln + 1)
            yield from bl_session(g, size, [b[:i]], g.choice([None, salt]), g.choice([1, 2, 3]), tail=b[i:])
            if size == 256:
                yield 'hash', {'f': 'blake_hash', 'b': b, 'size': [], 'person': []}
                yield 'hash', {'f': 'blake256', 'b': b, 'size': [], 'person': []}
            yield RESET
    # every pair (buffered, chunk) modulo the block
    for size in BSIZES:
        bs = blk(size)
        pts = [0, 1, 2, bs // 2, bs - 2, bs - 1, bs, bs + 1, 2 * bs - 1, 2 * bs, 2 * bs + 1]
        for x, y in c.mine([(x, y) for x in pts for y in pts]):
            b = g.rb(x + y)
            yield from bl_session(g, size, [b[:x], b[x:]])
            yield from bl_session(g, size, [b[:x]], None, 2, tail=b[x:])
            yield RESET
    for _ in c.many(260):
        size = g.choice(BSIZES)
        b = g.rb(g.choice([0, 1, g.randrange(300), g.randrange(700)]))
        chunks = split(g, b)
        salt = salt_of(g, size) if g.random() < 0.3 else None
        yield from bl_session(g, size, chunks, salt, g.choice([1, 1, 2, 3]))
        if g.random() < 0.4:
            tx = [utf8_text(g, g.randrange(0, 40)) for _ in range(g.choice([1, 2]))]
            yield from bl_session(g, size, tx, salt, 1, texts=range(9))
        yield RESET
        # salts: given late (refused, and of no effect), given twice, given before
        if g.random() < 0.3:
            yield 'bl_new', {'h': 1, 'size': size, 'salt': []}
            for _ in range(g.choice([0, 0, 1, 2, 3])):
                yield 'bl_salt', {'h': 1, 'b': g.choice([[], salt_of(g, size)]), 'form': 'bytes'}
            for ch in chunks[:3]:
                yield 'bl_update', {'h': 1, 'b': ch, 'text': False, 'form': 'bytes'}
                if g.random() < 0.5:
                    yield 'bl_salt', {'h': 1, 'b': salt_of(g, size), 'form': 'bytes'}
            yield 'bl_final', {'h': 1, 'how': 'final', 'b': [], 'text': False, 'form': 'bytes'}
            yield 'bl_salt', {'h': 1, 'b': salt_of(g, size), 'form': 'bytes'}
            yield 'bl_final', {'h': 1, 'how': 'final', 'b': [], 'text': False, 'form': 'bytes'}
            yield 'bl_new', {'h': 2, 'size': g.choice([0, 1, 32, 64, 128, 160, 255, 257, 512 + 256, 1024, 225]), 'salt': []}
            yield RESET
        # interleaved hashers
        if g.random() < 0.5:
            sizes = [g.choice(BSIZES) for _ in range(3)]
            for h, s in enumerate(sizes):
                yield 'bl_new', {'h': h, 'size': s, 'salt': [] if g.random() < 0.6 else [salt_of(g, s)]}
            for _ in range(6):
                yield 'bl_update', {'h': g.randrange(3), 'b': g.rb(g.choice([0, 1, 63, 64, 65, 130])), 'text': False, 'form': 'bytes'}
            for h in shuffled(g, range(3)):
                yield 'bl_final', {'h': h, 'how': 'final', 'b': [], 'text': False, 'form': 'bytes'}
            for h in shuffled(g, range(3)):
                yield 'bl_final', {'h': h, 'how': g.choice(['final', 'digest', 'hex']), 'b': [], 'text': False, 'form': 'bytes'}
            yield RESET


# =================================================================== C29
def g_C29(c):
    g = c.g

    def ints(v):
        for f in ('i2le', 'i2be', 'i2le_script'):
            yield 'int', {'f': f, 'v': big(v)}
    for v in c.mine(sorted(set(list(range(0, 300)) + [x for p in range(7, 140) for x in (2 ** p - 1, 2 ** p, 2 ** p + 1, 255 * 2 ** p)]))):
        yield from ints(v)
        w0 = (v.bit_length() + 7) // 8
        for w in {0, 1, 2, 4, 8, max(0, w0 - 1), w0, w0 + 1, 32}:
            for f in ('i2le_padded', 'i2be_padded'):
                yield 'int', {'f': f, 'v': big(v), 'w': w}
    for v in c.mine([-1, -2, -127, -128, -129, -255, -256, -2 ** 31, -2 ** 63, -2 ** 64]):
        for w in (1, 2, 4, 8, 9):
            for f in ('i2le_padded', 'i2be_padded'):
                yield 'int', {'f': f, 'v': big(v), 'w': w}
    for ln in c.mine(range(0, 40)):
        for b in ([0] * ln, [255] * ln, [0] * (ln - 1) + [128] if ln else [], [128] + [0] * (ln - 1) if ln else [],
                  [255] * (ln - 1) + [127] if ln else [], [127] + [255] * (ln - 1) if ln else [], g.rb(ln), g.rb(ln)):
            for f in ('le2i', 'be2i'):
                for s in (True, False):
                    yield 'int', {'f': f, 'b': b, 'signed': s}
            yield 'int', {'f': 'flip', 'b': b}
    for _ in c.many(6000):
        m = g.randrange(5)
        v = g.num(g.randrange(0, 300))
        if m == 0:
            yield from ints(v)
        elif m in (1, 2):
            yield 'int', {'f': g.choice(['i2le_padded', 'i2be_padded']), 'v': big(v if g.random() < 0.95 else -v), 'w': g.randrange(0, 40)}
        elif m == 3:
            yield 'int', {'f': g.choice(['le2i', 'be2i']), 'b': g.rb(g.randrange(0, 40)), 'signed': g.random() < 0.5}
        else:
            yield 'int', {'f': 'flip', 'b': g.rb(g.randrange(0, 70))}


# =================================================================== C30
def std_in(g):
    return {'op': g.rb(32) + le(g.randrange(5), 4), 'stack': push(g.rb(72)) + push(g.key()) if g.random() < 0.5 else [], 'redeem': [], 'seq': g.seq()}


def std_tx(g, **kw):
    d = {'version': le(g.choice([1, 2]), 4), 'flag': [[0, 1]] if g.random() < 0.4 else [], 'ins': [std_in(g) for _ in range(g.choice([1, 2]))],
         'outs': [{'value': le(g.choice([550, 551, 1000, 10 ** 8]), 8), 'script': std_pay(g)} for _ in range(g.choice([1, 2, 3]))],
         'wits': [], 'lock': le(0, 4)}
    if d['flag']:
        d['wits'] = [g.items(2) for _ in d['ins']]
    d.update(kw)
    return d


def std_pay(g):
    while True:
        s = g.std_script()
        if s[:1] != [106]:
            return s


def g_C30(c):
    g = c.g
    nets = ['bitcoin_main', 'bitcoin_test', 'litecoin_main']

    def both(d, src='mk'):
        yield 'std', {'f': 'tx', 'd': d, 'src': src}
        yield 'std', {'f': 'outs', 'd': d, 'src': src}
    yield use('bitcoin_main')
    for v in c.mine([0, 1, 2, 3, 4, 255, 256, 257, 0x0100, 0x02000000, 0x01000000, 2 ** 31 + 1, 2 ** 32 - 1, 0x10001, 0x20000002]):
        yield from both(std_tx(g, version=le(v, 4)))
    # script sig sizes and shapes
    for ln in c.mine([0, 1, 100, 1000, 1640, 1648, 1649, 1650]):
        b = []
        while len(b) < ln:
            left = ln - len(b)
            n = min(75, left - 1)
            b += [0] if n < 1 else push(g.rb(n))
        j = g.choice([0, len(b), len(b) // 2])
        d = std_tx(g)
        d['ins'][-1].update(stack=b[:j], redeem=b[j:])
        yield from both(d)
    for o in c.mine(range(0, 256)):
        for b in ([o], [1, 7, o], [o] + g.rb(4)):
            yield 'std', {'f': 'push_only', 'b': b}
        d = std_tx(g)
        d['ins'][0].update(stack=[0, o], redeem=[])
        yield 'std', {'f': 'tx', 'd': d, 'src': 'mk'}
        d = std_tx(g)
        d['ins'][-1].update(stack=[0], redeem=[o])
        yield 'std', {'f': 'tx', 'd': d, 'src': 'mk'}
    # dust
    for v in c.mine([0, 1, 2, 545, 546, 547, 548, 549, 550, 551, 552, 256 + 549 % 256, 2 ** 32, 2 ** 63, 2 ** 64 - 1, 549 + 2 ** 32, 549 * 256, 38, 0x2600]):
        for s in ([118, 169, 20] + g.rb(20) + [136, 172], [169, 20] + g.rb(20) + [135], [0, 20] + g.rb(20), [0, 32] + g.rb(32), push(g.key()) + [172],
                  [81] + push(g.key()) + [81, 174], [106] + push(g.rb(10))):
            d = std_tx(g)
            d['outs'][g.randrange(len(d['outs']))] = {'value': le(v, 8), 'script': s}
            yield 'std', {'f': 'tx', 'd': d, 'src': g.choice(['mk', 'parse'])}
            yield 'std', {'f': 'outs', 'd': d, 'src': 'mk'}
    # data carriers
    for n in c.mine([0, 1, 2, 3]):
        for pos in range(2):
            d = std_tx(g)
            car = [{'value': le(g.choice([0, 0, 600]), 8), 'script': [106] + push(g.rb(g.choice([1, 20, 40, 75])))} for _ in range(n)]
            d['outs'] = car + d['outs'] if pos else d['outs'] + car
            yield from both(d)
    for ln in c.mine([0, 1, 2, 20, 40, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 90, 200, 300]):
        for s in ([106] + push(g.rb(ln)), [106] + g.rb(ln), [106, 76, min(ln, 255)] + g.rb(min(ln, 255)), [106] + push(g.rb(ln)) + [81],
                  [106, 0] + push(g.rb(ln)), [106] + push(g.rb(ln)) + push(g.rb(2))):
            d = std_tx(g)
            d['outs'].insert(g.randrange(2), {'value': [0] * 8, 'script': s})
            yield from both(d)
            yield 'std', {'f': 'op_return', 'o': {'value': [0] * 8, 'script': s}}
    # other scripts
    scripts = odd_scripts(g)
    for m, k, nk in [(m, k, nk) for m in range(0, 6) for k in range(0, 6) for nk in range(0, 5)]:
        if abs(k - nk) <= 1:
            for _ in range(1):
                scripts.append([80 + m if m else 0] + sum((push(g.key()) for _ in range(nk)), []) + [80 + k if k else 0, 174])
    scripts += [[82, 33] + g.rb(33) + [81, 174], [81] + push(g.rb(32)) + [81, 174], [81] + push(g.key()) + [81, 175], [97] + push(g.key()) + [81, 174],
                push(g.rb(33)) + [172], push(g.rb(65)) + [172], push(g.rb(32)) + [172], push(g.rb(34)) + [172], push(g.key()) + [173],
                push(g.key()) + [172, 172], [76, 33] + g.key()[:33] + [172], [81] + push(g.key()) + push(g.rb(20)) + [82, 174],
                [81] + push(g.key()) * 2 + [82, 174], [83] + push(g.key()) * 3 + [83, 174], [81] + [81] + push(g.key()) + [82, 174]]
    for s in c.mine(scripts):
        d = std_tx(g)
        d['outs'].insert(g.randrange(len(d['outs']) + 1), {'value': le(1000, 8), 'script': s})
        yield from both(d, g.choice(['mk', 'parse']))
        yield 'std', {'f': 'out_type', 'o': {'value': le(g.choice([0, 549, 550, 1000]), 8), 'script': s}}
    # weight: around 400000
    if True:
        for delta in c.mine([-5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 8]):
            d = std_tx(g, flag=[[0, 1]])
            d['wits'] = [[[]] for _ in d['ins']]
            base = len(ser('tx', dict(d, flag=[], wits=[]))) * 3 + len(ser('tx', d))
            k = 400000 - base + delta
            # an item of n bytes weighs n plus its longer length prefix
            d['wits'][0] = [[7] * max(0, k - 4)]
            yield 'std', {'f': 'tx', 'd': d, 'src': 'mk'}
        for delta in c.mine([-1, 0, 1]):
            d = std_tx(g, flag=[], wits=[])
            d['outs'] = [{'value': le(1000, 8), 'script': [0, 20] + [3] * 20}]
            per = 31
            left = 100000 - len(ser('tx', d))
            n = left // per - 1
            d['outs'] = d['outs'] * (n + 1)
            left = 100000 + delta - len(ser('tx', d))
            pad = push([1] * min(60, max(1, left - 1)))
            d['ins'][0]['stack'] = d['ins'][0]['stack'] + (pad if left > 0 else [])
            yield 'std', {'f': 'tx', 'd': d, 'src': 'mk'}
    # small size
    for ln in c.mine(range(0, 60)):
        for seg in (True, False):
            d = g.tx(segwit=seg, wits=True, parseable=True, nin=1, nout=1)
            d['ins'] = [{'op': g.rb(36), 'stack': [0] * (ln // 2), 'redeem': [], 'seq': g.rb(4)}]
            d['outs'] = [{'value': g.rb(8), 'script': g.rb(ln - ln // 2)}]
            yield 'std', {'f': 'small', 'd': d, 'src': g.choice(['mk', 'parse'])}
    # finality
    L = [0, 1, 2, 499999998, 499999999, 500000000, 500000001, 2 ** 31, 2 ** 32 - 2, 2 ** 32 - 1, 600000000, 255, 256, 65536]
    for lk in c.mine(L):
        for h in [0, 1, lk - 1, lk, lk + 1, 499999999, 500000000, 2 ** 32]:
            for t in [0, lk - 1, lk, lk + 1, 2 ** 32 + 5]:
                if h >= 0 and t >= 0:
                    d = g.tx(nin=g.choice([1, 2]), nout=1, segwit=False)
                    d['lock'] = le(lk, 4)
                    for i in d['ins']:
                        i['seq'] = g.choice([le(0xffffffff, 4), le(0xfffffffe, 4), le(0, 4)])
                    yield 'std', {'f': 'final', 'd': d, 'src': 'mk', 'height': big(h), 'time': big(t)}
    for _ in c.many(500):
        if g.random() < 0.1:
            yield use(g.choice(nets + BITCOINY))
        m = g.random()
        if m < 0.6:
            d = std_tx(g)
            x = g.random()
            if x < 0.3:
                d['outs'][0]['script'] = fuzz(g, d['outs'][0]['script'])
            elif x < 0.5:
                s, r = g.script_sig()
                d['ins'][-1].update(stack=s, redeem=r)
            elif x < 0.6:
                d['outs'].append(g.txout())
            yield from both(d, sig_src(g, 'tx', d))
        elif m < 0.8:
            s, r = g.script_sig()
            yield 'std', {'f': 'push_only', 'b': s + r}
            o = g.txout()
            yield 'std', {'f': 'out_type', 'o': o}
            yield 'std', {'f': 'out_type', 'o': {'value': o['value'], 'script': g.std_script()}}
            yield 'std', {'f': 'op_return', 'o': {'value': g.choice([[0] * 8, o['value']]), 'script': [106] + fuzz(g, push(g.rb(g.randrange(1, 90))))}}
        else:
            d = g.tx(parseable=True, nin=1, nout=1)
            yield 'std', {'f': 'small', 'd': d, 'src': 'mk'}


# =================================================================== C31
def redeem_like(g):
    """Byte strings that look like the last push of a script sig."""
    m = g.randrange(9)
    inner = g.std_script() if m < 3 else sum((push(g.rb(g.choice([1, 20, 33]))) if g.random() < 0.5 else [g.choice([81, 97, 118, 172, 174, 255, 168, 192, 186])]
                                             for _ in range(g.randrange(1, 5))), [])
    if m == 3:
        inner = inner[:-1] or [81]
    if m == 4:
        inner = inner + g.rb(2)
    if m == 5:
        inner = g.rb(g.choice([1, 75, 76, 255, 256, 520]))
    if m == 6:
        inner = push(g.rb(g.choice([75, 76, 255, 256]))) + [117]
    if m == 7:
        inner = [81] * g.choice([75, 76, 77, 255, 256, 257, 520, 999, 1000, 1001, 1200])
    return inner


def push_forms(g, b):
    """A push of b, maybe longer than needed."""
    m = g.random()
    if m < 0.6 or not b:
        return push(b)
    if m < 0.8 and len(b) < 256:
        return [76, len(b)] + b
    return [77] + le(len(b), 2) + b


def g_C31(c):
    g = c.g

    def ev(sig, op=None):
        b = (op or g.outpoint_b()) + cs(len(sig)) + sig + g.rb(4)
        return parse('txin', b, g.choice(PFORMS))
    for o in c.mine(range(256)):
        yield use(g.choice(['bitcoin_main', 'decred_main', 'zcash_sprout_main']))
        yield ev([o], g.rb(36))
        yield ev([o] + push([81]), g.rb(36))
        yield ev(push(g.rb(3)) + push([o]), g.rb(36))
        yield ev(push([81]) + [o], g.rb(36))
    for ln in c.mine([1, 2, 74, 75, 76, 77, 254, 255, 256, 257, 520, 999, 1000, 1001, 1500]):
        yield use(g.choice(NETS))
        for inner in ([81] * ln, g.rb(ln), push(g.rb(ln))):
            yield ev(push(inner), g.rb(36))
            yield ev([0] + push(g.rb(71)) + push(inner), g.rb(36))
            yield ev(push_forms(g, inner), g.rb(36))
            yield ev([1] * 0 + push_forms(g, inner), [0] * 32 + [255] * 4)
    for op in ([0] * 32 + [255] * 4, [0] * 36, g.rb(32) + [255] * 4, [0] * 32 + [254, 255, 255, 255], [0] * 31 + [1] + [255] * 4, [255] * 36, [0] * 32 + [255, 255, 255, 0]):
        for _ in c.many(16):
            yield ev(push([81]), op)
            yield ev([0] + push(redeem_like(g)), op)
            yield ev([], op)
    for _ in c.many(3500):
        if g.random() < 0.08:
            yield use(some_net(c, 'txin'))
        m = g.randrange(8)
        if m < 4:
            sig = sum((g.choice([push_forms(g, g.rb(g.choice([1, 20, 71, 72, 33, 75, 76]))), [g.choice([0, 79, 81, 96, 97, 118])]])
                       for _ in range(g.randrange(0, 4))), []) + push_forms(g, redeem_like(g))
            if g.random() < 0.1:
                sig = fuzz(g, sig)
        elif m == 4:
            s, r = g.script_sig()
            sig = s + r
        elif m == 5:
            sig = g.rb(g.randrange(0, 60))
        elif m == 6:
            sig = push(redeem_like(g)) + [g.choice([0, 81, 97, 172])]
        else:
            sig = fuzz(g, [0] + push(g.rb(72)) + push(redeem_like(g)))
        if len(sig) <= 1650 or g.random() < 0.3:
            yield ev(sig)
        if g.random() < 0.15 and len(sig) <= 1650:
            k = g.choice(['tx', 'sprout', 'overwinter', 'sapling'])
            yield use(some_net(c, k))
            d = small_obj(g, k)
            d['ins'][0].update(stack=sig, redeem=[])
            yield parse(k, ser(k, d))


# =================================================================== C32
def slices(g, n):
    out = []
    for _ in range(6):
        lo, hi = g.randrange(-n - 3, n + 4), g.randrange(-n - 3, n + 4)
        out.append({'lo': lo, 'hi': hi, 'st': g.choice([1, 1, 1, 2, 3, 7])})
    return out + [{'lo': 0, 'hi': n, 'st': 1}, {'lo': 0, 'hi': 0, 'st': 1}]


BFORMS = ['bytes', 'bytearray', 'bytedata']
WRONGS = ['none', 'int', 'str', 'list', 'float', 'object', 'tuple', 'vint', 'vbytes', 'vnone', 'vstr']


def g_C32(c):
    g = c.g
    yield use('bitcoin_main')
    for ln in c.mine(list(range(0, 40)) + [63, 64, 65, 127, 128, 255, 256, 257, 600]):
        yield RESET
        b = g.rb(ln)
        for how in ('bytes', 'hex'):
            yield 'bx_new', {'h': 1, 'how': how, 'b': b, 'form': g.choice(BFORMS), 't': hx(b, g.random() < 0.3), 'k': '', 'd': {}}
            yield 'bx_obs', {'h': 1, 'slices': slices(g, ln)}
            for x in ([], b, b[:1], b[-1:], b[1:], b[:-1], b + [0], b[ln // 2:], g.rb(1), g.rb(2), b[1:3]):
                yield 'bx_find', {'h': 1, 'form': g.choice(BFORMS), 'b': x}
                yield 'bx_eq', {'h': 1, 'form': g.choice(BFORMS), 'b': x}
        # a little more, looked at again
        for x in (b[:1] or [7], [0], g.rb(2)):
            yield 'bx_append', {'h': 1, 'form': g.choice(BFORMS), 'b': x}
            b = b + x
            yield 'bx_obs', {'h': 1, 'slices': slices(g, len(b))}
            yield 'bx_find', {'h': 1, 'form': g.choice(BFORMS), 'b': x + [1]}
            yield 'bx_eq', {'h': 1, 'form': g.choice(BFORMS), 'b': b}
        ln = len(b)
        for w in WRONGS:
            yield 'bx_append', {'h': 1, 'form': w, 'b': []}
            yield 'bx_eq', {'h': 1, 'form': w, 'b': []}
            yield 'bx_ne', {'h': 1, 'form': w}
        yield 'bx_obs', {'h': 1, 'slices': slices(g, ln)}
        yield 'bx_append', {'h': 1, 'form': 'handle', 'h2': 1, 'b': []}
        yield 'bx_obs', {'h': 1, 'slices': slices(g, 2 * ln)}
    # big containers
    for n1, n2 in c.mine([(4095, 1), (4096, 1), (4097, 3), (100, 5000), (5000, 5000), (65535, 1), (65536, 2), (70000, 3), (2, 66000)]):
        yield RESET
        b1, b2 = g.rb(n1), g.rb(n2)
        for h, b in ((1, b1), (2, b2)):
            yield 'bx_new', {'h': h, 'how': 'bytes', 'b': b, 'form': g.choice(BFORMS), 't': [], 'k': '', 'd': {}}
        yield 'bx_append', {'h': 1, 'form': 'handle', 'h2': 2, 'b': []}
        yield 'bx_find', {'h': 1, 'form': g.choice(BFORMS), 'b': b2[-3:]}
        yield 'bx_eq', {'h': 1, 'form': g.choice(BFORMS), 'b': b1 + b2}
        yield 'bx_eq', {'h': 1, 'form': 'bytes', 'b': b1 + b2[:-1]}
        yield 'bx_append', {'h': 2, 'form': g.choice(BFORMS), 'b': b1}
        yield 'bx_append', {'h': 1, 'form': 'handle', 'h2': 1, 'b': []}
        if n1 + n2 < 12000:
            yield 'bx_obs', {'h': 1, 'slices': slices(g, 2 * (n1 + n2))}
            yield 'bx_obs', {'h': 2, 'slices': slices(g, n1 + n2)}
    for t in c.mine(['', '0', 'zz', '00', 'aB', 'AB', '0x00', '00 01', ' 00', '0g', 'é0', '00\n', '0001zz', 'ABCDEF0123456789', '１２']):
        yield RESET
        yield 'bx_new', {'h': 1, 'how': 'hex', 'b': [], 'form': 'bytes', 't': T(t), 'k': '', 'd': {}}
    # pieces of transactions are containers too, closed ones
    for k in c.mine(['outpoint', 'txin', 'txout', 'witem', 'witness', 'tx']):
        yield RESET
        d = g.obj(k)
        yield 'bx_new', {'h': 1, 'how': 'obj', 'b': [], 'form': 'bytes', 't': [], 'k': k, 'd': d}
        n = len(ser(k, d))
        yield 'bx_obs', {'h': 1, 'slices': slices(g, n)}
        yield 'bx_append', {'h': 1, 'form': 'bytes', 'b': [1]}
        yield 'bx_eq', {'h': 1, 'form': g.choice(BFORMS), 'b': ser(k, d)}
        yield 'bx_find', {'h': 1, 'form': g.choice(BFORMS), 'b': ser(k, d)[3:7]}
        yield 'bx_new', {'h': 2, 'how': 'empty', 'b': [], 'form': 'bytes', 't': [], 'k': '', 'd': {}}
        yield 'bx_append', {'h': 2, 'form': 'handle', 'h2': 1, 'b': []}
        yield 'bx_obs', {'h': 2, 'slices': slices(g, n)}
        yield 'bx_eq', {'h': 1, 'form': 'handle', 'h2': 2, 'b': []}
    for _ in c.many(220):
        yield RESET
        lens = {}
        for h in range(1, 4):
            how = g.choice(['empty', 'bytes', 'hex', 'bytes'])
            b = [] if how == 'empty' else g.rb(g.choice([0, 1, 2, 5, g.randrange(40)]))
            if g.random() < 0.4:
                b = [g.choice([0, 1]) for _ in b]
            yield 'bx_new', {'h': h, 'how': how, 'b': b, 'form': g.choice(BFORMS), 't': hx(b), 'k': '', 'd': {}}
            lens[h] = b
        for _ in range(g.randrange(5, 14)):
            h = g.randrange(1, 4)
            m = g.random()
            if m < 0.4:
                if g.random() < 0.4:
                    h2 = g.randrange(1, 4)
                    if len(lens[h]) < 300:
                        yield 'bx_append', {'h': h, 'form': 'handle', 'h2': h2, 'b': []}
                        lens[h] = lens[h] + lens[h2]
                elif g.random() < 0.1:
                    yield 'bx_append', {'h': h, 'form': g.choice(WRONGS), 'b': []}
                else:
                    b = g.rb(g.choice([0, 1, 3, 20]))
                    yield 'bx_append', {'h': h, 'form': g.choice(BFORMS), 'b': b}
                    lens[h] = lens[h] + b
            elif m < 0.6:
                yield 'bx_obs', {'h': h, 'slices': slices(g, len(lens[h]))}
            elif m < 0.8:
                b = lens[h]
                i = g.randrange(len(b) + 1)
                x = b[i:i + g.choice([0, 1, 2, 5])] if g.random() < 0.7 else g.rb(g.choice([1, 2]))
                yield 'bx_find', {'h': h, 'form': g.choice(BFORMS), 'b': x}
            else:
                if g.random() < 0.5:
                    yield 'bx_eq', {'h': h, 'form': 'handle', 'h2': g.randrange(1, 4), 'b': []}
                else:
                    x = lens[h] if g.random() < 0.5 else other(g, lens[h]) if g.random() < 0.5 else lens[h][:-1]
                    yield 'bx_eq', {'h': h, 'form': g.choice(BFORMS), 'b': x}
        for h in (1, 2, 3):
            yield 'bx_obs', {'h': h, 'slices': slices(g, len(lens[h]))}
    yield RESET


# =================================================================== C33
def byte_fields(k):
    import ops
    if k in ops.PROOFS:
        return []
    return [(f, ty) for f, _, ty in ops.KINDS[k][1]]


def c33_valid(g, k):
    return heap_obj(g, k) if k in ('sprout', 'overwinter', 'sapling', 'tx', 'decred') else g.obj(k)


def wrong_ok(k, d, f, ty, w):
    """Is putting w in field f certainly invalid?"""
    if ty == 'b':
        return w != 'vnone' or True
    if ty == 'ob':
        if f == 'flag':
            return w != 'none'
        if f in ('pub', 'sig'):
            return bool(d.get('js'))
        return bool(d.get('spends') or d.get('souts'))
    if ty == 'wits' or (k == 'decred' and f == 'wits'):
        return w != 'none'
    if ty.startswith('v:'):
        return not (w == 'none' and k not in ('tx', 'decred'))
    return True


def many_of(g, k, d, f):
    """A valid value of the kind of d with three elements in every vector it can have."""
    if k == 'tx':
        return g.tx(segwit=bool(d['flag']), wits=bool(d['wits']), nin=3, nout=3)
    if k == 'decred':
        return g.decred(wits=f == 'wits' or bool(d['wits']), nin=3, nout=3)
    if k in ('sprout', 'overwinter'):
        return getattr(g, k)(njs=3 if f == 'js' else len(d['js']), nin=3, nout=3)
    if k == 'sapling':
        return g.sapling(njs=3 if f == 'js' else len(d['js']), nin=3, nout=3, nsp=3 if f == 'spends' else len(d['spends']),
                         nso=3 if f == 'souts' else len(d['souts']))
    return dict(d, **{f: (d[f] * 3)[:3]})


def g_C33(c):
    g = c.g
    kinds = list(dict.fromkeys(HEAPKINDS))
    rounds = 2 if not c.deep else 8
    for k in c.mine([k for _ in range(rounds) for k in kinds]):
        yield use(some_net(c, k))
        for _ in range(2):
            yield mk(k, c33_valid(g, k), g.choice(FORMS))
        if k in ('sproof', 'gproof'):
            d = g.obj(k)
            for i in range(len(d['parts'])):
                for n in (0, -1, 1):
                    e = copy_d(d)
                    e['parts'][i] = [] if n == 0 else e['parts'][i][:-1] if n < 0 else e['parts'][i] + [0]
                    yield mk(k, e)
            # a byte moved from one part to another
            e = copy_d(d)
            e['parts'][0], e['parts'][1] = e['parts'][0][:-1], e['parts'][1] + e['parts'][0][-1:]
            yield mk(k, e)
            import ops
            for nme in ops.PROOFS[k][1]:
                for w in g.sample(WRONGS, 4):
                    yield mk(k, d, 'bytes', [[nme, w]])
            continue
        for f, ty in byte_fields(k):
            d = c33_valid(g, k)
            for w in dict.fromkeys(g.sample(WRONGS, 4) + ['none', 'int'] + (['list', 'tuple'] if ty in ('b', 'ob') else [])):
                if wrong_ok(k, d, f, ty, w):
                    yield mk(k, d, 'bytes', [[f, w]])
            v = d[f]
            if ty == 'b' or ty == 'ob':
                v = v if ty == 'b' else (v[0] if v else None)
                if v is not None and f not in ('script', 'stack', 'redeem', 'item'):
                    for nv in ([], v[:-1], v + [0], v + v, v[1:], v[:1], [0] * len(v) + [0]):
                        yield mk(k, dict(d, **{f: nv if ty == 'b' else [nv]}), g.choice(FORMS))
                    # a wrong size that serializes to the same bytes together with its neighbour is still wrong
            if ty in ('op', 'dop', 'sproof', 'gproof'):
                for kk in ('outpoint', 'txout', 'witem', 'sproof', 'gproof', 'doutpoint'):
                    if kk != {'op': 'outpoint', 'dop': 'doutpoint'}.get(ty, ty):
                        yield mk(k, d, 'bytes', [], [[f, kk, g.obj(kk)]])
            if ty.startswith('v:'):
                for kk in ('outpoint', 'txin', 'txout', 'witem', 'sjs', 'gjs', 'gspend', 'goutput', 'dtxin', 'dtxout', 'dwitness'):
                    if kk != ty[2:]:
                        # added at the end, or in place of an element at any position
                        yield mk(k, d, 'bytes', [], [], [[f, kk, g.obj(kk), -1]])
                        e = many_of(g, k, d, f)
                        for i in {0, len(e[f]) // 2, len(e[f]) - 1}:
                            yield mk(k, e, 'bytes', [], [], [[f, kk, g.obj(kk), i]])
            if ty == 'wits':
                for kk in ('outpoint', 'txin', 'witem', 'dwitness'):
                    n = g.choice([1, 2, 3])
                    for i in range(-1, n):
                        yield mk(k, g.tx(segwit=True, wits=True, nin=n, nout=1), 'bytes', [], [], [[f, kk, g.obj(kk), i]])
            if ty == 'items':
                for kk in ('outpoint', 'txin', 'witness'):
                    e = dict(d, **{f: g.items(3)})
                    for i in range(-1, 3):
                        yield mk(k, e, 'bytes', [], [], [[f, kk, g.obj(kk), i]])
        # two adjacent fields whose sizes are both wrong but sum right
        bf = [f for f, ty in byte_fields(k) if ty == 'b' and f not in ('script', 'stack', 'redeem', 'item')]
        for x, y in zip(bf, bf[1:]):
            d = c33_valid(g, k)
            yield mk(k, dict(d, **{x: d[x] + d[y][:1], y: d[y][1:]}))
            yield mk(k, dict(d, **{x: d[x][:-1], y: d[x][-1:] + d[y]}))
    # script sig length
    for ln in c.mine([1648, 1649, 1650, 1651, 1652, 1700, 3000]):
        yield use(some_net(c, 'txin'))
        for j in {0, 1, ln, ln - 1, ln // 2, min(ln, 1650)}:
            b = g.rb(ln)
            i = {'op': g.rb(36), 'stack': b[:j], 'redeem': b[j:], 'seq': g.seq()}
            yield mk('txin', i)
            yield parse('txin', ser('txin', i))
    # bitcoin-format structure
    for nin, nout, nw, fl in c.mine([(i, o, w, f) for i in (0, 1, 2) for o in (0, 1, 2) for w in (0, 1, 2, 3) for f in range(7)]):
        yield use(g.choice(BITCOINY))
        d = g.tx(segwit=False, nin=1, nout=1)
        d['ins'] = [g.txin() for _ in range(nin)]
        d['outs'] = [g.txout() for _ in range(nout)]
        d['wits'] = [g.items(1) for _ in range(nw)]
        d['flag'] = [[], [[0, 1]], [[0, 0]], [[0]], [[0, 1, 0]], [[1, 0]], [[]]][fl]
        yield mk('tx', d, 'bytes', **({'none': True} if g.random() < 0.5 else {}))
    # zcash structure
    for k, nin, nj, v in c.mine([(k, i, j, v) for k in ('sprout', 'overwinter', 'sapling') for i in (0, 1) for j in (0, 1, 4, 5, 6)
                                 for v in ((0, 1, 2, 3) if k == 'sprout' else (0,))]):
        yield use(some_net(c, k))
        if k == 'sprout':
            d = g.sprout(njs=nj, version=2, nin=nin, nout=1)
            d['version'] = le(v, 4)
        else:
            d = getattr(g, k)(njs=nj, nin=nin, nout=1)
        yield mk(k, d)
    for k in c.mine(['sjs', 'gjs'] * 4):
        yield use(some_net(c, k))
        for a, b in ((0, 0), (1, 0), (0, 1), (1, 1), (2 ** 63, 2 ** 63), (256, 1), (2 ** 64 - 1, 0), (2 ** 56, 2 ** 8), (0, 2 ** 56), (5, 2 ** 63)):
            yield mk(k, dict(g.jsplit(k), vold=le(a, 8), vnew=le(b, 8)))
    for e in c.mine([0, 1, 499999998, 499999999, 500000000, 500000001, 2 ** 31, 2 ** 32 - 1, 0x1dcd64ff, 0x1dcd6500, 0x001dcd65]):
        for k in ('overwinter', 'sapling'):
            yield use(some_net(c, k))
            yield mk(k, dict(small_obj(g, k), expiry=le(e, 4)))
    for nsp, nso, vb in c.mine([(a, b, v) for a in (0, 1) for b in (0, 1) for v in (0, 1, -1, 2 ** 63 - 1, -2 ** 63, 256, 2 ** 56)]):
        yield use(some_net(c, 'sapling'))
        d = g.sapling(njs=0, nin=g.choice([0, 1]), nout=1, nsp=nsp, nso=nso)
        d['vb'] = list(vb.to_bytes(8, 'little', signed=True))
        yield mk('sapling', d)
        for bs in ([], [[]], [g.rb(63)], [g.rb(65)], [g.rb(64)]):
            yield mk('sapling', dict(d, bsig=bs))
    for k, nin, nout, nj, nsp, nso in c.mine([(k, i, o, j, a, b) for k in ('sprout', 'overwinter', 'sapling') for i in (0, 1) for o in (0, 1, 2)
                                              for j in (0, 1, 2) for a in (0, 1, 2) for b in (0, 1, 2) if k == 'sapling' or not a + b]):
        yield use(some_net(c, k))
        if k == 'sapling':
            d = g.sapling(njs=nj, nin=nin, nout=nout, nsp=nsp, nso=nso)
        else:
            d = getattr(g, k)(njs=nj, nin=nin, nout=nout)
        yield mk(k, d)
    # joinsplit key and signature sizes
    for k in c.mine(['sprout', 'overwinter', 'sapling'] * 2):
        yield use(some_net(c, k))
        d = getattr(g, k)(njs=1, nin=1, nout=0)
        for p in ([], [[]], [g.rb(31)], [g.rb(33)], [g.rb(64)]):
            yield mk(k, dict(d, pub=p))
        for p in ([], [g.rb(63)], [g.rb(65)], [g.rb(32)]):
            yield mk(k, dict(d, sig=p))
    # size limit: exactly 100000 bytes, one more, one less
    for k, delta in c.mine([(k, x) for k in ('sprout', 'overwinter', 'sapling', 'decred') for x in (-1, 0, 1, 2)]):
        yield use(some_net(c, k))
        d = small_obj(g, k)
        d['outs'] = [{'value': [0] * 8, 'script': [7] * 65536}, {'value': [0] * 8, 'script': []}]
        if k == 'decred':
            d['outs'] = [dict(o, version=[0, 0]) for o in d['outs']]
        left = 100000 + delta - len(ser(k, d)) - 2
        d['outs'][1]['script'] = [9] * left
        assert len(ser(k, d)) == 100000 + delta, (len(ser(k, d)), delta)
        yield mk(k, d)
    # a Decred or Zcash part on the wrong network
    for n in c.mine(FAMILIES * 3):
        yield use(n)
        for k in g.sample(kinds, 6):
            yield mk(k, c33_valid(g, k))
    for _ in c.many(500):
        k = g.choice(kinds)
        yield use(some_net(c, k))
        d = c33_valid(g, k)
        if g.random() < 0.7 and k not in ('sproof', 'gproof'):
            d = spoil(g, k, d, g.choice(fields_of(k)))
        yield mk(k, d, g.choice(FORMS))


# =================================================================== C34
def g_C34(c):
    g = c.g

    def ev(items, net):
        d = {'stack': items}
        yield mk('witness', d, g.choice(FORMS))
        b = ser('witness', d)
        yield parse('witness', b, g.choice(PFORMS))
        yield parse('witness', b + g.rb(g.choice([1, 4, 30])), g.choice(PFORMS))
        if g.random() < 0.3:
            yield tbv('witness', items=items)
    for n in CSNETS[:1] + ['zcash_sapling_main']:
        yield use(n)
        for k in c.mine([0, 1, 2, 3, 251, 252, 253, 254, 255, 256, 300] + c.fresh(4, 3000)):
            yield from ev([[i % 256] for i in range(k)], n)
            yield from ev([[] for i in range(k)], n)
        for ln in c.mine(list(range(0, 12)) + [75, 76, 77, 251, 252, 253, 254, 255, 256, 257, 519, 520, 521, 1000, 65535, 65536, 65537] + c.fresh(12, 70000)):
            yield from ev([g.rb(ln)], n)
            yield from ev([[], g.rb(ln), [1]], n)
            yield mk('witem', {'item': g.rb(ln)}, g.choice(FORMS))
            yield parse('witem', cs(ln) + g.rb(ln) + g.rb(g.choice([0, 1, 5])), g.choice(PFORMS))
            if ln:
                yield parse('witem', cs(ln) + g.rb(ln - 1), g.choice(PFORMS))
                yield parse('witness', [2, 1, 7] + cs(ln) + g.rb(ln - 1), g.choice(PFORMS))
        # items that look like lengths
        for x in c.mine(range(256)):
            yield from ev([[x], [x, x], []], n)
    for _ in c.many(1100):
        if g.random() < 0.1:
            yield use(g.choice(NETS))
        its = g.items(g.randrange(0, 7))
        yield from ev(its, None)
        if g.random() < 0.15:
            yield use(g.choice(BITCOINY))
            d = g.tx(segwit=True, wits=True, parseable=True)
            yield from with_all(c, 'tx', d)


# =================================================================== C36, C37
def g_C36(c):
    g = c.g
    for k, j in c.mine([(k, j) for k in ('sprout', 'overwinter', 'sapling') for j in (0, 1, 2, 3, 4, 5)] * 2):
        yield use(some_net(c, k))
        d = getattr(g, k)(njs=j, parseable=True)
        if k == 'sprout' and j == 0:
            d['version'] = le(g.choice([1, 2]), 4)
        yield mk(k, d, g.choice(FORMS))
        yield parse(k, ser(k, d), g.choice(PFORMS))
        yield 'copy', {'k': k, 'd': d, 'src': 'mk', 'fields': [], 'd2': d}
    for _ in c.many(170):
        k = g.choice(['sprout', 'overwinter', 'sapling'])
        yield use(some_net(c, k))
        d = getattr(g, k)(njs=g.choice([1, 1, 2, 3]), parseable=True, nin=1, nout=1)
        m = g.randrange(4)
        if m == 0:
            yield mk(k, d, g.choice(FORMS))
        elif m == 1:
            yield parse(k, ser(k, d), g.choice(PFORMS))
        elif m == 2:
            d2 = dict(d, pub=[g.rb(32)])
            yield 'copy', {'k': k, 'd': d, 'src': g.choice(['mk', 'parse']), 'fields': ['pub'], 'd2': d2}
        else:
            d2 = getattr(g, k)(njs=g.choice([1, 2]), parseable=True, nin=1, nout=1)
            yield 'copy', {'k': k, 'd': d, 'src': 'mk', 'fields': ['js', 'pub', 'sig'], 'd2': d2}
    for k in c.mine(['sprout', 'overwinter', 'sapling'] * 3):
        yield use(some_net(c, k))
        d = getattr(g, k)(njs=2, parseable=True, nin=1, nout=1)
        d['js'] = [d['js'][0], copy_d(d['js'][0])]      # equal joinsplits; then zero values
        yield mk(k, d)
        yield mk(k, dict(d, pub=[[0] * 32], js=[dict(j, seed=[0] * 32, nulls=[0] * 64, vold=[0] * 8, vnew=le(1, 8)) for j in d['js']]))
    # several objects alive at once: values never leak from one to another
    for _ in c.many(24):
        yield RESET
        k = g.choice(['sprout', 'overwinter', 'sapling'])
        yield use(some_net(c, k))
        for h in (1, 2):
            yield new_ev(g, h, k, getattr(g, k)(njs=h, parseable=True, nin=1, nout=0), 'mk')
        for h in (2, 1, 2):
            yield 'obs', {'h': h, 'k': k}
    yield RESET


def g_C37(c):
    g = c.g

    def h(f, b, size=(), person=()):
        return 'hash', {'f': f, 'b': b, 'size': list(size), 'person': list(person)}
    fs = ['sha256', 'rmd160', 'hash160', 'hash256', 'blake256', 'blake2b', 'blake2s']
    for n in c.mine(NETS):
        yield use(n)
        for f in fs:
            yield h(f, g.rb(g.choice([0, 1, 33, 55, 56, 64, 80])))
    for n in ('bitcoin_main', 'decred_main', 'zcash_sapling_main'):
        yield use(n)
        for ln in c.mine(sorted(set(list(range(0, 20)) + [x + d for x in (55, 64, 111, 119, 128, 192, 256, 512) for d in range(-2, 3)] + [1000, 4096]))):
            b = g.rb(ln)
            for f in fs:
                yield h(f, b)
            yield h('blake2b', b, [g.randrange(1, 65)], [g.rb(16)])
            yield h('blake2b', b, [32], [g.rb(g.choice([0, 5, 12, 16]))])
            yield h('blake2s', b, [g.randrange(1, 33)], [g.rb(8)])
            for f in ('sha256', 'rmd160'):
                yield 'oracle', {'f': f, 'b': b, 'size': [], 'person': []}
            yield 'oracle', {'f': 'blake2b', 'b': b, 'size': [32], 'person': [g.rb(16)]}
            yield 'oracle', {'f': 'blake2s', 'b': b, 'size': [32], 'person': [g.rb(8)]}
    for ln in c.mine(sorted({2047, 2048, 2049, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 100000} | set(c.fresh(4000, 70000)))):
        b = g.rb(64) * (ln // 64) + g.rb(ln % 64)
        for f in fs:
            yield h(f, b)
    for s in c.mine(range(1, 65)):
        yield h('blake2b', g.rb(10), [s], [])
        if s <= 32:
            yield h('blake2s', g.rb(10), [s], [])
    for _ in c.many(1500):
        if g.random() < 0.2:
            yield use(g.choice(NETS))
        yield h(g.choice(fs), g.rb(g.randrange(300)))
    # BLAKE2's other parameters: keys, salts, tree hashing; also when given at zero, empty or out of range
    w = {'digest': lambda m: g.choice([1, 20, 32, m, g.randrange(1, m + 1)]), 'key': lambda m: g.rb(g.choice([0, 1, 16, m - 1, m])),
         'fanout': lambda m: g.choice([0, 1, 2, 255]), 'depth': lambda m: g.choice([1, 2, 255]),
         'leaf': lambda m: g.choice([[0] * 4, [1, 0, 0, 0], g.rb(4), [255] * 4]),
         'noff': lambda m: g.choice([[0] * (m // 8), [1] + [0] * (m // 8 - 1), g.rb(m // 8), [255] * (m // 8)]),
         'ndepth': lambda m: g.choice([0, 1, 255]), 'inner': lambda m: g.choice([0, 1, m]),
         'salt': lambda m: g.rb(g.choice([0, 1, m // 4])), 'person': lambda m: g.rb(g.choice([0, 1, m // 4])), 'last': lambda m: g.random() < 0.5}
    bad = {'digest': [0, 65], 'depth': [0, 256], 'fanout': [256, -1], 'inner': [65], 'ndepth': [256]}
    plain = {'digest': 1, 'key': [], 'fanout': 1, 'depth': 1, 'leaf': [0] * 4, 'noff': [0], 'ndepth': 0, 'inner': 0, 'salt': [], 'person': [], 'last': False}

    def b2(f, give):
        m = 64 if f == 'blake2b_all' else 32
        p = dict(plain, **{x: w[x](64 if x == 'noff' and m == 64 else 48 if x == 'noff' else m) for x in give})
        return f, give, p, g.rb(g.choice([0, 1, 63, 64, 65, 127, 128, 129, g.randrange(300)]))
    for x in c.mine(sorted(w)):
        yield use(g.choice(NETS))
        for f in ('blake2b_all', 'blake2s_all'):
            for _ in range(12):
                f, give, p, b = b2(f, [x])
                yield 'hash', {'f': f, 'give': give, 'p': p, 'b': b}
                yield 'oracle', {'f': f, 'give': give, 'p': p, 'b': b}
            for v in bad.get(x, []):
                yield 'hash', {'f': f, 'give': [x], 'p': dict(plain, **{x: v}), 'b': g.rb(9)}
            if x in ('key', 'salt', 'person'):
                n = (64 if f[6] == 'b' else 32) // (1 if x == 'key' else 4)
                yield 'hash', {'f': f, 'give': [x], 'p': dict(plain, **{x: g.rb(n + 1)}), 'b': g.rb(9)}
    for _ in c.many(300):
        f, give, p, b = b2(g.choice(['blake2b_all', 'blake2s_all']), sorted(g.sample(sorted(w), g.randrange(0, len(w) + 1))))
        yield 'hash', {'f': f, 'give': give, 'p': p, 'b': b}
        if g.random() < 0.3:
            yield 'oracle', {'f': f, 'give': give, 'p': p, 'b': b}


# =================================================================== C38
STATELESS = {'int', 'vi_enc', 'vi_dec', 'ser', 'deser', 'mk', 'parse', 'copy', 'sig', 'fee', 'tb', 'addr', 'b58', 'bech32',
             'cash', 'hash', 'std'}


STATEFUL = {'bl_new', 'bl_salt', 'bl_update', 'bl_final', 'bx_new', 'bx_append', 'bx_obs', 'bx_find', 'bx_eq', 'bx_ne', 'new', 'obs', 'hsig',
            'hcopy', 'attack'}


def requests(c, per):
    """What clients ask for, taken from the other properties: (network, program of one or a few steps)."""
    g, out = c.common, []
    for p in ['C%02d' % i for i in range(2, 38)]:
        sub = Ctx(p, g.randrange(40), 40, c.seed * 1000 + 7, 'quick')
        net, prog, progs = 'bitcoin_main', [], []
        for op, a in itertools.islice((e for x in globals()['g_' + p](sub) for e in expand(*x)), 2500):
            if op == 'reset':
                progs.append((net, prog))
                prog = []
            elif op == 'select':                       # the rest of this session belongs to another network
                if prog:
                    progs.append((net, prog))
                    prog = None
                net = a['name'] if a['name'] in NETS else net
            elif len(repr(a)) > 7000:
                prog = None if op in STATEFUL else prog
            elif op in STATELESS:
                progs.append((net, [(op, a)]))
            elif op in STATEFUL and prog is not None and len(prog) < 9:
                prog.append((op, a))
        progs = [(m, q) for m, q in progs if q and (q[0][0] in STATELESS or len(q) > 2)]
        if p in ('C15', 'C16', 'C28', 'C32'):
            progs = [(m, q) for m, q in progs if q[0][0] in STATEFUL]
        out += g.sample(progs, min(per * (3 if p in SIGNERS else 1), len(progs)))
    return out


SIGNERS = ('C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C27')


def g_C38(c):
    g = c.g
    pool = requests(c, 150 if c.deep else 40)
    bynet = {}
    for net, prog in pool:
        bynet.setdefault(net, []).append(prog)
    nets = sorted(n for n in bynet if len(bynet[n]) > 3)
    held = {n: [q for q in bynet[n] if q[0][0] in STATEFUL] + [q for _, q in pool if q[0][0] in ('bl_new', 'bx_new')] for n in nets}

    def js(progs):
        return [[{'op': op, 'a': a} for op, a in q] for q in progs]

    def near(net, q):
        """Another program, often of the same kind."""
        same = [y for y in bynet[net] if y[0][0] == q[0][0] and y is not q]
        return g.choice(same if same and g.random() < 0.6 else bynet[net])
    for _ in c.many(500):
        yield RESET
        net = max(g.sample(nets, min(g.choice([1, 4]), len(nets))), key=lambda n: len(bynet[n]))
        yield use(net)
        for _ in range(5):
            mode = g.choice(['inside', 'inside', 'stop', 'stop', 'turns', 'threads'])
            if mode == 'turns' or g.random() < 0.15:
                x = g.choice(held[net])
                y = g.choice([q for q in held[net] if q[0][0] == x[0][0]])
            else:
                x = g.choice(bynet[net])
                y = near(net, x)
            w = {'mode': mode, 'progs': js([x, y])}
            if mode == 'turns':
                w['order'] = g.sample([0] * len(x) + [1] * len(y), len(x) + len(y))
            elif mode == 'threads':
                w['progs'] += js(near(net, x) for _ in range(g.choice([0, 1, 2])))
                w['times'] = g.choice([2, 4])
            else:
                w['at'] = g.choice([0, 999, g.randrange(1000), g.randrange(1000), g.randrange(1000)])
            yield 'weave', w
            for z in (x, y):                          # the same questions again, plainly
                if z[0][0] in STATELESS:
                    yield z[0]
        # one question on one network after another
        x = g.choice([q for q in bynet[net] if q[0][0] in STATELESS])
        for n in [g.choice(nets), net, g.choice(nets)]:
            yield use(n)
            yield x[0]


# =================================================================== driver of compound observations
def expand(opname, a):
    """Compound observations: a second call made on what the first one returned.  Every
    call is its own event."""
    import ops
    if opname in ('roundtrip', 'hashback'):
        e = ('addr', {'f': 'from_script', 'b': a['b'], 'dflt': False, 'cash': a['cash']})
        yield e
        st, r = ops.run(*e)
        if st == 'ok':
            fs = ['to_script'] if opname == 'roundtrip' else ['parse_hash', 'parse']
            for f in fs:
                yield 'addr', {'f': f, 't': r['t']}
    elif opname == 's_output_for':
        st, r = ops.run('addr', {'f': 'from_script', 'b': a['b'], 'dflt': True, 'cash': True})
        if st == 'ok':
            yield tbv('s_output', value=a['value'], addr=r['t'])
    elif opname == 'made':
        yield 'addr', a
        st, r = ops.run('addr', a)
        if st == 'ok':
            yield 'addr', {'f': 'to_script', 't': r['t']}
            b = dict(a)
            f = a['f']
            if 'pub' in a:
                yield tbv('pkh_output_script', pub=a['pub'], wit=a.get('wit', 'wpkh' in f))
            else:
                yield tbv('sh_output_script', toks=a['toks'], wit=a.get('wit', 'wsh' in f))
    else:
        yield opname, a


def stream(ctx, cases=None):
    """All actions of this shard."""
    if cases:
        with open(cases) as f:
            for i, line in enumerate(f):
                # one session of the specification per line
                if i % ctx.nshards == ctx.shard:
                    for op, a in json.loads(line)['acts']:
                        yield from expand(op, a)
        yield RESET
    yield from echo(ctx, (e for x in globals()['g_' + ctx.prop](ctx) for e in expand(*x)))


# what is asked in text or bytes alone can be asked again, word for word, on any network
ECHO = {'ser', 'deser', 'addr', 'b58', 'bech32', 'cash', 'mk', 'parse', 'vi_dec', 'hash'}
ECHOTB = {'sh_script_pubkey', 'sh_output_script', 'p2sh_output_script', 'p2wsh_output_script', 'pkh_output_script',
          'p2pkh_output_script', 'p2wpkh_output_script', 'sh_output', 'pkh_output', 'p2sh_output', 'p2pkh_output', 's_output'}


def echo(ctx, evs):
    """After a change of network, now and then repeat earlier requests under the new one."""
    import random
    r = random.Random('%s/%d/%d' % (ctx.prop, ctx.seed, ctx.shard))
    ring, last = [], None
    for op, a in evs:
        yield op, a
        if op in ECHO or (op == 'tb' and a['f'] in ECHOTB):
            if len(repr(a)) < 4000:
                ring.append((op, a))
                if len(ring) > 40:
                    del ring[r.randrange(len(ring))]
        elif op == 'select' and a['name'] != last:
            last = a['name']
            if ring and r.random() < 0.3:
                for e in r.sample(ring, min(2, len(ring))):
                    yield e
