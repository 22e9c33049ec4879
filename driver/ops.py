"""Steps the real library: one function per action of the specification.

An action is (op, a): op is a name, a a JSON-ready dict.  run(op, a) performs the
call(s) on the library under test and returns (st, r):
  st "ok"       the call returned, r describes what it returned
  st "refused"  the call raised
  st "weird"    the call returned something of an unexpected type, or did not return
Encodings: byte strings are lists of ints, texts are lists of character codes,
integers of the library are {"neg", "mag"} (little-endian magnitude), optional
values are [] or [x].
"""
import json
import os
import signal
import sys
import threading
import zlib
from functools import partial

sys.dont_write_bytecode = True
REPO = os.environ.get('RIEMANN_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import riemann                                               # noqa: E402
from riemann import simple, utils                            # noqa: E402
from riemann import blake256 as bl                           # noqa: E402
from riemann.encoding import addresses, base58, bech32, cashaddr   # noqa: E402
from riemann.networks import standard                        # noqa: E402
from riemann.script import serialization                     # noqa: E402
from riemann.tx import decred, overwinter, sapling, shared, sprout  # noqa: E402
from riemann.tx import tx as btx                             # noqa: E402
from riemann.tx import tx_builder as tb                      # noqa: E402
from riemann.tx import zcash_shared as zs                    # noqa: E402


class Weird(Exception):
    pass


class Hang(BaseException):
    pass


class DriverError(BaseException):
    pass


# ------------------------------------------------------------------ encoding
def B(x):
    if isinstance(x, bytearray):
        lend(x)          # the caller owns what was handed out, and reuses it: nothing else may change, or change it
    if isinstance(x, (bytes, bytearray, shared.ByteData)):
        return list(bytes(x))
    raise Weird('not byte-like: %r' % type(x))


def T(s):
    if not isinstance(s, str):
        raise Weird('not text: %r' % type(s))
    return [ord(c) for c in s]


def I(n):
    if isinstance(n, bool) or not isinstance(n, int):
        raise Weird('not an integer: %r' % type(n))
    m = abs(n)
    return {'neg': n < 0, 'mag': list(m.to_bytes((m.bit_length() + 7) // 8, 'little'))}


def small(n):
    if isinstance(n, bool) or not isinstance(n, int) or not -2 ** 31 <= n < 2 ** 31:
        raise Weird('not a small integer: %r' % n)
    return n


def BOOL(x):
    if not isinstance(x, bool):
        raise Weird('not a boolean: %r' % type(x))
    return x


def num(a):
    n = int.from_bytes(bytes(a['mag']), 'little')
    return -n if a['neg'] else n


def txt(a):
    return ''.join(chr(c) for c in a)


def toks(a):
    return ' '.join(txt(t) for t in a)


def by(a, form='bytes'):
    b = bytes(a)
    if form == 'bytearray':
        return lend(bytearray(b))
    if form == 'bytedata':
        h = shared.ByteData()
        h += b
        return lend(h)
    return b


def bb(a, f):
    """Bytes argument f of request a: for a third of the requests in a buffer that the caller may change."""
    return by(a[f], ['bytes', 'bytes', 'bytearray'][coin(a, 3)])


# Buffers of the caller that the library has seen in this session: the library must not write to them
# (each is compared after every action), and the caller reuses them for something else right after the call.
LENT = []


def lend(x):
    LENT.append([x, bytes(x), False])
    return x


def lent_intact():
    return all(bytes(x) == first for x, first, _ in LENT)


def reuse_lent():
    for slot in LENT:
        x, _, used = slot
        if not used:
            if isinstance(x, bytearray):
                for i in range(len(x)):
                    x[i] ^= 0x5a
            else:
                x += b'\x5a'
        slot[1:] = [bytes(x), True]
    del LENT[:-150]


# ------------------------------------------------------------------- objects
PROOF_S = ['pi_sub_a', 'pi_prime_sub_a', 'pi_sub_b', 'pi_prime_sub_b',
           'pi_sub_c', 'pi_prime_sub_c', 'pi_sub_k', 'pi_sub_h']
PROOF_G = ['pi_sub_a', 'pi_sub_b', 'pi_sub_c']
JSF = [('vold', 'vpub_old'), ('vnew', 'vpub_new'), ('anchor', 'anchor'),
       ('nulls', 'nullifiers'), ('comms', 'commitments'), ('ek', 'ephemeral_key'),
       ('seed', 'random_seed'), ('macs', 'vmacs'), ('proof', 'zkproof'),
       ('notes', 'encoded_notes')]
# kind -> class, [(field, argument = attribute, type)]
KINDS = {
    'outpoint': (btx.Outpoint, [('txid', 'tx_id', 'b'), ('index', 'index', 'b')]),
    'txin': (btx.TxIn, [('op', 'outpoint', 'op'), ('stack', 'stack_script', 'b'),
                        ('redeem', 'redeem_script', 'b'), ('seq', 'sequence', 'b')]),
    'txout': (btx.TxOut, [('value', 'value', 'b'), ('script', 'output_script', 'b')]),
    'witem': (btx.WitnessStackItem, [('item', 'item', 'b')]),
    'witness': (btx.InputWitness, [('stack', 'stack', 'items')]),
    'tx': (btx.Tx, [('version', 'version', 'b'), ('flag', 'flag', 'ob'),
                    ('ins', 'tx_ins', 'v:txin'), ('outs', 'tx_outs', 'v:txout'),
                    ('wits', 'tx_witnesses', 'wits'), ('lock', 'lock_time', 'b')]),
    'sproof': (zs.SproutZkproof, None),
    'gproof': (sapling.SaplingZkproof, None),
    'sjs': (zs.SproutJoinsplit, [(f, a, 'sproof' if f == 'proof' else 'b') for f, a in JSF]),
    'gjs': (sapling.SaplingJoinsplit, [(f, a, 'gproof' if f == 'proof' else 'b') for f, a in JSF]),
    'gspend': (sapling.SaplingShieldedSpend,
               [('cv', 'cv', 'b'), ('anchor', 'anchor', 'b'), ('nullifier', 'nullifier', 'b'),
                ('rk', 'rk', 'b'), ('proof', 'zkproof', 'gproof'), ('auth', 'spend_auth_sig', 'b')]),
    'goutput': (sapling.SaplingShieldedOutput,
                [('cv', 'cv', 'b'), ('cmu', 'cmu', 'b'), ('ek', 'ephemeral_key', 'b'),
                 ('enc', 'enc_ciphertext', 'b'), ('outc', 'out_ciphertext', 'b'),
                 ('proof', 'zkproof', 'gproof')]),
    'sprout': (sprout.SproutTx,
               [('version', 'version', 'b'), ('ins', 'tx_ins', 'v:txin'), ('outs', 'tx_outs', 'v:txout'),
                ('lock', 'lock_time', 'b'), ('js', 'tx_joinsplits', 'v:sjs'),
                ('pub', 'joinsplit_pubkey', 'ob'), ('sig', 'joinsplit_sig', 'ob')]),
    'overwinter': (overwinter.OverwinterTx,
                   [('ins', 'tx_ins', 'v:txin'), ('outs', 'tx_outs', 'v:txout'),
                    ('lock', 'lock_time', 'b'), ('expiry', 'expiry_height', 'b'),
                    ('js', 'tx_joinsplits', 'v:sjs'),
                    ('pub', 'joinsplit_pubkey', 'ob'), ('sig', 'joinsplit_sig', 'ob')]),
    'sapling': (sapling.SaplingTx,
                [('ins', 'tx_ins', 'v:txin'), ('outs', 'tx_outs', 'v:txout'),
                 ('lock', 'lock_time', 'b'), ('expiry', 'expiry_height', 'b'),
                 ('vb', 'value_balance', 'b'), ('spends', 'tx_shielded_spends', 'v:gspend'),
                 ('souts', 'tx_shielded_outputs', 'v:goutput'), ('js', 'tx_joinsplits', 'v:gjs'),
                 ('pub', 'joinsplit_pubkey', 'ob'), ('sig', 'joinsplit_sig', 'ob'),
                 ('bsig', 'binding_sig', 'ob')]),
    'doutpoint': (decred.DecredOutpoint, [('txid', 'tx_id', 'b'), ('index', 'index', 'b'), ('tree', 'tree', 'b')]),
    'dtxin': (decred.DecredTxIn, [('op', 'outpoint', 'dop'), ('seq', 'sequence', 'b')]),
    'dtxout': (decred.DecredTxOut, [('value', 'value', 'b'), ('version', 'version', 'b'),
                                    ('script', 'output_script', 'b')]),
    'dwitness': (decred.DecredInputWitness,
                 [('value', 'value', 'b'), ('height', 'height', 'b'), ('index', 'index', 'b'),
                  ('stack', 'stack_script', 'b'), ('redeem', 'redeem_script', 'b')]),
    'decred': (decred.DecredTx,
               [('version', 'version', 'b'), ('ins', 'tx_ins', 'v:dtxin'), ('outs', 'tx_outs', 'v:dtxout'),
                ('lock', 'lock_time', 'b'), ('expiry', 'expiry', 'b'), ('wits', 'tx_witnesses', 'v:dwitness')]),
}
KIND_OF = {c: k for k, (c, _) in KINDS.items()}
TXKINDS = ('tx', 'sprout', 'overwinter', 'sapling', 'decred')
PROOFS = {'sproof': (zs.SproutZkproof, PROOF_S, [33, 33, 65, 33, 33, 33, 33, 33]),
          'gproof': (sapling.SaplingZkproof, PROOF_G, [48, 96, 48])}


def proof_obj(kind, b, form='bytes'):
    cls, names, sizes = PROOFS[kind]
    args, p = {}, 0
    for n, s in zip(names, sizes):
        args[n] = by(b[p:p + s], form)
        p += s
    if len(b) > p:
        args[names[-1]] = by(b[p - sizes[-1]:], form)
    return cls(**args)


def field_val(ty, v, form='bytes'):
    if ty == 'b':
        return by(v, form)
    if ty == 'ob':
        return by(v[0], form) if v else None
    if ty == 'op':
        return btx.Outpoint(by(v[:32], form), by(v[32:], form))
    if ty == 'dop':
        return decred.DecredOutpoint(by(v[:32], form), by(v[32:36], form), by(v[36:], form))
    if ty in PROOFS:
        return proof_obj(ty, v, form)
    if ty == 'items':
        return [btx.WitnessStackItem(by(x, form)) for x in v]
    if ty == 'wits':
        return [btx.InputWitness([btx.WitnessStackItem(by(x, form)) for x in w]) for w in v]
    if ty.startswith('v:'):
        return [build(ty[2:], d, form) for d in v]
    raise DriverError(ty)


def args_of(k, d, form='bytes'):
    if k in PROOFS:
        return dict(zip(PROOFS[k][1], (by(p, form) for p in d['parts'])))
    return {arg: field_val(ty, d[f], form) for f, arg, ty in KINDS[k][1]}


def coin(a, n=2):
    """A choice that belongs to the request alone: the same request is always made in the same way."""
    return zlib.crc32(json.dumps(a, sort_keys=True).encode()) % n


def build(k, d, form='bytes'):
    kw = args_of(k, d, form)
    if form != 'bytes':
        return KINDS[k][0](*[kw[arg] for arg in (PROOFS[k][1] if k in PROOFS else [x[1] for x in KINDS[k][1]])])
    return KINDS[k][0](**kw)


def defaults(f, a, kw, dflt):
    """Call f, leaving out arguments that have their default value (for half of the requests)."""
    if coin(a):
        kw = {x: v for x, v in kw.items() if x not in dflt or v != dflt[x]}
    return f(**kw)


def arg_name(k, f):
    if k in PROOFS:
        return f
    return [arg for g, arg, _ in KINDS[k][1] if g == f][0]


WRONG = {'none': lambda: None, 'int': lambda: 7, 'str': lambda: 'aabbccdd', 'list': lambda: [1, 2, 3, 4],
         'float': lambda: 1.5, 'object': object, 'tuple': lambda: (b'\x00' * 4,),
         'vint': lambda: [7], 'vbytes': lambda: [b'\x00' * 41], 'vnone': lambda: [None], 'vstr': lambda: ['aa']}


def wrong_val(k, f, what):
    if what in WRONG:
        return WRONG[what]()
    # objects of another kind, already built by the caller's description
    raise DriverError(what)


# -------------------------------------------------------------- projections
def same(*xs):
    return all(x == xs[0] for x in xs[1:])


def fields(k, o):
    if k in PROOFS:
        return {'parts': [B(getattr(o, n)) for n in PROOFS[k][1]]}
    r = {}
    for f, attr, ty in KINDS[k][1]:
        v = getattr(o, attr)
        if ty == 'b':
            r[f] = B(v)
        elif ty == 'ob':
            r[f] = [] if v is None else [B(v)]
        elif ty == 'op':
            x = B(v.tx_id) + B(v.index)
            r[f] = x if x == B(v) else [256]
        elif ty == 'dop':
            x = B(v.tx_id) + B(v.index) + B(v.tree)
            r[f] = x if x == B(v) else [256]
        elif ty in PROOFS:
            x = sum([B(getattr(v, n)) for n in PROOFS[ty][1]], [])
            r[f] = x if x == B(v) else [256]
        elif ty == 'items':
            r[f] = [B(i.item) for i in v]
        elif ty == 'wits':
            r[f] = [] if v is None else [[B(i.item) for i in w.stack] for w in v]
        else:
            kk = ty[2:]
            r[f] = [] if v is None else [fields(kk, x) for x in v]
    return r


def extras(k, o):
    if k == 'txin':
        return {'sig': B(o.script_sig), 'p2sh': BOOL(o.is_p2sh())}
    if k == 'tx':
        return {'nw': B(o.no_witness()), 'isw': BOOL(o.is_witness())}
    if k == 'dtxout':
        return {'len': small(o.output_script_len)}
    if k == 'dwitness':
        return {'sig': B(o.script_sig), 'len': small(o.script_len)}
    if k == 'decred':
        try:
            o.prefix()
        except Exception:
            return {'na': 1}
        return {'prefix': B(o.prefix()), 'witness': B(o.witness()), 'wsign': B(o.witness_signing()),
                'ph': B(o.prefix_hash()), 'wh': B(o.witness_hash()), 'wsh': B(o.witness_signing_hash())}
    if k in ('overwinter', 'sapling'):
        return {'header': B(o.header), 'group': B(o.group_id), 'isw': BOOL(o.is_witness())}
    return {'x': 0}


def ids(k, o):
    if k not in TXKINDS:
        return {'le': [], 'be': [], 'wle': [], 'wbe': []}

    def opt(n):
        v = getattr(o, n, None)
        return [] if v is None else [B(v)]
    return {'le': B(o.tx_id_le), 'be': B(o.tx_id), 'wle': opt('wtx_id_le'), 'wbe': opt('wtx_id')}


def derived(o, n):
    v = getattr(o, n, None)
    return [] if v is None else [B(x) for x in v]


def view(o, want=None):
    """What can be seen of an object that exists.  Not being able to look at it is not a refusal to make it."""
    try:
        return view_of(o, want)
    except (Weird, Hang):
        raise
    except Exception as e:
        raise Weird('unreadable: %r' % e)


def view_of(o, want):
    k = KIND_OF.get(type(o))
    if k is None or (want is not None and k != want):
        raise Weird('kind %r' % type(o))
    b = B(o)
    agree = same(b, B(o.to_bytes()), list(o), list(bytes.fromhex(o.hex())), list(o[:])) and len(o) == len(b)
    return {'k': k, 'bytes': b, 'agree': agree, 'd': fields(k, o), 'ids': ids(k, o),
            'hs': derived(o, 'hsigs'), 'pr': derived(o, 'primary_inputs'), 'x': extras(k, o)}


HEAP = {}


# ---------------------------------------------------------------- signing
HTYPE = {'all': shared.SIGHASH_ALL, 'single': shared.SIGHASH_SINGLE, 'none': shared.SIGHASH_NONE}


def sign(k, o, a, netkind=None):
    """One digest request."""
    script = bb(a, 'script')
    val = by(a['value'][0], ['bytes', 'bytes', 'bytearray'][coin(a['value'], 3)]) if a['value'] else None
    via = a.get('via', 'wrap')
    if k in ('overwinter', 'sapling'):
        kw = dict(prevout_value=val if val is not None else b'', script_code=script,
                  index=a['idx'], joinsplit=a['js'])
        if not a['value']:
            kw['prevout_value'] = None if via == 'none' else b''
        if coin(a):
            kw = {x: v for x, v in kw.items() if (x, v) not in (('index', 0), ('joinsplit', False))}
        if via == 'gen' or a['base'] == 'none':
            if a['acp'] or coin(a, 3):
                kw['anyone_can_pay'] = a['acp']
            return o.sighash(sighash_type=HTYPE[a['base']], **kw)
        f = o.sighash_all if a['base'] == 'all' else o.sighash_single
        if a['acp'] or via == 'kw':
            kw['anyone_can_pay'] = a['acp']
        return f(**kw)
    if a['base'] == 'none' and via != 'seg':
        return o.sighash_none()
    f = o.sighash_all if a['base'] == 'all' else o.sighash_single
    kw = dict(index=a['idx'], script=script)
    if a['acp'] or via == 'kw':
        kw['anyone_can_pay'] = a['acp']
    if k == 'tx':
        if via == 'seg':
            ty = HTYPE[a['base']]
            if coin(a):
                return o.segwit_sighash(a['idx'], ty, val, script, *([True] if a['acp'] else []))
            return o.segwit_sighash(index=a['idx'], sighash_type=ty, prevout_value=val, script=script,
                                    anyone_can_pay=a['acp'])
        if val is not None:
            kw['prevout_value'] = val
    if coin(a):
        # the same call with positional arguments
        args = [kw.pop('index'), kw.pop('script')]
        if 'prevout_value' in kw:
            args.append(kw.pop('prevout_value'))
            if 'anyone_can_pay' in kw:
                args.append(kw.pop('anyone_can_pay'))
        return f(*args, **kw)
    return f(**kw)


def attempt(f):
    """st, value of one inner call."""
    try:
        return 'ok', f()
    except (Weird, Hang):
        raise
    except Exception:
        return 'refused', None


def source(k, d, src, form='bytes'):
    o = build(k, d, form)
    if src == 'parse':
        o = KINDS[k][0].from_bytes(bytes(o))
    elif src == 'copy':
        o = o.copy()
    elif src == 'hexparse':
        o = KINDS[k][0].from_hex(o.hex())
    return o


# ---------------------------------------------------------------- operations
OPS = {}


def op(f):
    OPS[f.__name__[3:]] = f
    return f


@op
def op_select(a):
    riemann.select_network(txt(a['name']) if isinstance(a['name'], list) else a['name'])
    return {'name': riemann.get_current_network_name()}


@op
def op_reset(a):
    HEAP.clear()
    KEEP.clear()
    LENT.clear()
    return {'x': 0}


@op
def op_int(a):
    f = a['f']
    if f in ('i2le', 'i2be', 'i2le_script'):
        r = getattr(utils, f)(num(a['v']))
        return {'v': T(r) if f == 'i2le_script' else B(r)}
    if f in ('i2le_padded', 'i2be_padded'):
        return {'v': B(getattr(utils, f)(num(a['v']), a['w']))}
    if f == 'le2i':
        return {'v': I(utils.le2i(bb(a, 'b'), a['signed']) if a['signed'] else utils.le2i(bb(a, 'b')))}
    if f == 'be2i':
        return {'v': I(utils.be2i(bb(a, 'b'), a['signed']) if a['signed'] else utils.be2i(bb(a, 'b')))}
    if f == 'flip':
        return {'v': B(utils.change_endianness(bb(a, 'b')))}
    raise DriverError(f)


def frozen(v):
    """A compact-size number refuses every change and stays as it was."""
    b0, n0, res = bytes(v), v.number, []
    for f in (lambda: v.__iadd__(b'\x01'), lambda: setattr(v, 'number', 7), lambda: setattr(v, 'brand_new', 1),
              lambda: delattr(v, 'number')):
        res.append(attempt(f)[0] != 'ok')
    return all(res) and bytes(v) == b0 and v.number == n0


@op
def op_vi_enc(a):
    v = shared.VarInt(num(a['v']))
    c = v.copy()
    r = {'bytes': B(v), 'number': I(v.number), 'copy': B(c), 'cnumber': I(c.number)}
    r['frozen'] = frozen(v) and frozen(c)
    return r


@op
def op_vi_dec(a):
    if a['form'] == 'hex':
        v = shared.VarInt.from_hex(bytes(a['b']).hex())
    else:
        v = shared.VarInt.from_bytes(by(a['b'], a['form']))
    c = v.copy()
    r = {'bytes': B(v), 'number': I(v.number), 'cbytes': B(c), 'cnumber': I(c.number)}
    r['frozen'] = frozen(v) and frozen(c)
    return r


@op
def op_ser(a):
    t = a.get('sep', ' ').join(txt(x) for x in a['toks'])
    if a['hex']:
        r = serialization.hex_serialize(t)
        return {'b': list(bytes.fromhex(r))}
    return {'b': B(serialization.serialize(t))}


@op
def op_deser(a):
    r = (serialization.hex_deserialize(bytes(a['b']).hex()) if a['hex']
         else serialization.deserialize(bb(a, 'b')))
    out = []
    for t in r.split(' ') if r != '' else []:
        if t[:3] == 'OP_':
            out.append({'t': 'op', 's': t, 'b': []})
        else:
            try:
                out.append({'t': 'data', 's': '', 'b': list(bytes.fromhex(t))})
            except ValueError:
                raise Weird(t)
    return {'toks': out}


@op
def op_mk(a):
    k, d = a['k'], a['d']
    kw = args_of(k, d, a['form'])
    for f, what in a['wrong']:
        kw[arg_name(k, f)] = wrong_val(k, f, what)
    for f, kk, dd in a.get('swap', []):      # an object of another kind in place of a part
        kw[arg_name(k, f)] = build(kk, dd)
    for f, kk, dd, at in a.get('vswap', []):     # ... inside a vector, at a position or (-1) after the last
        v = list(kw[arg_name(k, f)])
        kw[arg_name(k, f)] = v + [build(kk, dd)] if at < 0 else v[:at] + [build(kk, dd)] + v[at + 1:]
    if a.get('none'):
        for f, arg, ty in KINDS[k][1]:
            if ty == 'wits' and kw[arg] == []:
                kw[arg] = None
    if a.get('pos'):
        order = PROOFS[k][1] if k in PROOFS else [arg for _, arg, _ in KINDS[k][1]]
        o = KINDS[k][0](*[kw[n] for n in order])
    else:
        o = KINDS[k][0](**kw)
    if a['wrong'] or a.get('swap') or a.get('vswap'):
        return {'v': []}                     # built, though it should have been refused; it may not even be readable
    return {'v': view(o, k)}


@op
def op_parse(a):
    c = KINDS[a['k']][0]
    if a['form'] == 'hex':
        o = c.from_hex(bytes(a['b']).hex())
    else:
        o = c.from_bytes(by(a['b'], a['form']))
    return {'v': view(o, a['k'])}


def again(k, b):
    """Parse b as kind k: None if refused, else does the object serialize to exactly b?"""
    try:
        o = KINDS[k][0].from_bytes(b)
    except (Exception, SystemExit):
        return None
    return KIND_OF.get(type(o)) == k and B(o) == list(b[:len(o)]) and (k not in TXKINDS or len(o) == len(b))


@op
def op_cuts(a):
    """The first n bytes of an encoding, for every n asked for."""
    b, acc, same = bytes(a['b']), [], []
    for n in a['ns']:
        x = again(a['k'], b[:n])
        if x is not None:
            acc.append(n)
            if x:
                same.append(n)
    return {'acc': acc, 'same': same}


@op
def op_flips(a):
    """An encoding with one byte replaced, for every (position, value) asked for."""
    b, acc, same = bytearray(a['b']), [], []
    for j, (i, v) in enumerate(a['at']):
        old = b[i - 1]
        b[i - 1] = v
        x = again(a['k'], bytes(b))
        b[i - 1] = old
        if x is not None:
            acc.append(j + 1)
            if x:
                same.append(j + 1)
    return {'acc': acc, 'same': same}


@op
def op_copy(a):
    k = a['k']
    o = source(k, a['d'], a['src'])
    o2 = a['d2']
    kw = {}
    for f in a['fields']:
        for g, arg, ty in KINDS[k][1]:
            if g == f:
                kw[arg] = field_val(ty, o2[f], a.get('form', 'bytes'))
    before = view(o, k)
    c = o.copy(**kw)
    cv = view(c, k)
    return {'v': cv, 'o': view(o, k), 'same': before == view(o, k) and c is not o}


@op
def op_sig(a):
    k = a['k']
    o = source(k, a['d'], a['src'])
    before = view(o, k)
    out = []
    for q in a['reqs']:
        st, v = attempt(lambda: sign(k, o, q))
        out.append({'st': st, 'dg': B(v) if st == 'ok' else []})
    return {'ds': out, 'kept': before == view(o, k)}


@op
def op_pair(a):
    k = a['k']
    o1, o2 = build(k, a['d1']), build(k, a['d2'])
    s1, v1 = attempt(lambda: sign(k, o1, a['a1']))
    s2, v2 = attempt(lambda: sign(k, o2, a['a2']))
    return {'s1': s1, 's2': s2, 'eq': s1 == 'ok' and s2 == 'ok' and B(v1) == B(v2),
            'v1': B(v1) if s1 == 'ok' else [], 'v2': B(v2) if s2 == 'ok' else []}


@op
def op_fee(a):
    o = source(a['k'], a['d'], a['src'])
    if a['k'] == 'decred':
        return {'fee': I(o.calculate_fee())}
    return {'fee': I(o.calculate_fee([num(v) for v in a['ins']]))}


def opt_num(a):
    return None if not a else num(a[0])


def outpoint_obj(d):
    return build('doutpoint' if 'tree' in d else 'outpoint', d)


def parts(kind, ds):
    return [build(kind, d) for d in ds]


def tx_kwargs(a):
    kw = {}
    if a['expiry']:
        kw['expiry'] = num(a['expiry'][0])
    if a['vb']:
        kw['value_balance'] = num(a['vb'][0])
    if a['spends']:
        kw['tx_shielded_spends'] = parts('gspend', a['spends'][0])
    if a['souts']:
        kw['tx_shielded_outputs'] = parts('goutput', a['souts'][0])
    if a['wits']:
        w = a['wits'][0]
        kw['tx_witnesses'] = ([build('dwitness', x) for x in w] if a['ik'] == 'dtxin'
                              else field_val('wits', w))
    if a['js']:
        kw['tx_joinsplits'] = parts(a['jk'], a['js'][0])
    for f, n in (('pub', 'joinsplit_pubkey'), ('sig', 'joinsplit_sig'), ('bsig', 'binding_sig')):
        if a[f]:
            kw[n] = bytes(a[f][0])
    return kw


@op
def op_tb(a):
    f = a['f']
    if f == 'sh_script_pubkey':
        return {'b': B(tb.make_sh_script_pubkey(bb(a, 'script'), a['wit']) if a['wit']
                       else tb.make_sh_script_pubkey(bb(a, 'script')))}
    if f == 'sh_output_script':
        return {'b': B(defaults(partial(tb.make_sh_output_script, toks(a['toks'])), a, {'witness': a['wit']}, {'witness': False}))}
    if f == 'p2sh_output_script':
        return {'b': B(tb.make_p2sh_output_script(toks(a['toks'])))}
    if f == 'p2wsh_output_script':
        return {'b': B(tb.make_p2wsh_output_script(toks(a['toks'])))}
    if f == 'pkh_output_script':
        return {'b': B(defaults(partial(tb.make_pkh_output_script, by(a['pub'], ['bytes', 'bytearray'][coin(a)])), a, {'witness': a['wit']}, {'witness': False}))}
    if f == 'p2pkh_output_script':
        return {'b': B(tb.make_p2pkh_output_script(by(a['pub'], ['bytes', 'bytearray'][coin(a)])))}
    if f == 'p2wpkh_output_script':
        return {'b': B(tb.make_p2wpkh_output_script(by(a['pub'], ['bytes', 'bytearray'][coin(a)])))}
    if f == 'sh_output':
        return {'v': view(defaults(partial(tb.make_sh_output, num(a['value']), toks(a['toks'])), a, {'witness': a['wit']}, {'witness': False}))}
    if f == 'p2sh_output':
        return {'v': view(tb.make_p2sh_output(num(a['value']), toks(a['toks'])))}
    if f == 'p2wsh_output':
        return {'v': view(tb.make_p2wsh_output(num(a['value']), toks(a['toks'])))}
    if f == 'pkh_output':
        return {'v': view(defaults(partial(tb.make_pkh_output, num(a['value']), by(a['pub'], ['bytes', 'bytearray'][coin(a)])), a, {'witness': a['wit']}, {'witness': False}))}
    if f == 'p2pkh_output':
        return {'v': view(tb.make_p2pkh_output(num(a['value']), by(a['pub'], ['bytes', 'bytearray'][coin(a)])))}
    if f == 'p2wpkh_output':
        return {'v': view(tb.make_p2wpkh_output(num(a['value']), by(a['pub'], ['bytes', 'bytearray'][coin(a)])))}
    if f == 'op_return_output':
        return {'v': view(tb.make_op_return_output(bb(a, 'data')))}
    if f == 'empty_witness':
        return {'v': view(tb.make_empty_witness())}
    if f == 'witness_stack_item':
        return {'v': view(tb.make_witness_stack_item(bb(a, 'data')))}
    if f == 'witness':
        return {'v': view(tb.make_witness([bytes(x) for x in a['items']]))}
    if f == 'decred_witness':
        d = a['d']
        return {'v': view(tb.make_decred_witness(bytes(d['value']), bytes(d['height']), bytes(d['index']),
                                                 bytes(d['stack']), bytes(d['redeem'])))}
    if f == 'outpoint':
        if a['tree']:
            return {'v': view(tb.make_outpoint(bb(a, 'txid'), num(a['index']), num(a['tree'][0])))}
        return {'v': view(tb.make_outpoint(bb(a, 'txid'), num(a['index'])))}
    if f == 'script_sig':
        return {'b': B(tb.make_script_sig(toks(a['stack']), toks(a['redeem'])))}
    if f == 'legacy_input':
        return {'v': view(tb.make_legacy_input(outpoint_obj(a['op']), bb(a, 'stack'), bb(a, 'redeem'),
                                               num(a['seq'])))}
    if f == 'witness_input':
        return {'v': view(tb.make_witness_input(outpoint_obj(a['op']), num(a['seq'])))}
    if f == 'decred_input':
        return {'v': view(tb.make_decred_input(outpoint_obj(a['op']), num(a['seq'])))}
    if f == 'length_prepend':
        return {'b': B(tb.length_prepend(bb(a, 'data')))}
    if f == 'tx':
        return {'v': view(tb.make_tx(num(a['version']), parts(a['ik'], a['ins']), parts(a['ok'], a['outs']),
                                     num(a['lock']), **tx_kwargs(a)))}
    if f == 's_output':
        return {'v': view(simple.output(num(a['value']), txt(a['addr'])))}
    if f == 's_outpoint':
        if a['tree']:
            return {'v': view(simple.outpoint(txt(a['txid']), num(a['index']), num(a['tree'][0])))}
        return {'v': view(simple.outpoint(txt(a['txid']), num(a['index'])))}
    if f == 's_input':
        if a['seq']:
            return {'v': view(simple.unsigned_input(outpoint_obj(a['op']), num(a['seq'][0])))}
        return {'v': view(simple.unsigned_input(outpoint_obj(a['op'])))}
    if f in ('s_legacy_tx', 's_witness_tx'):
        kw = {}
        if a['version']:
            kw['version'] = num(a['version'][0])
        if a['lock']:
            kw['lock_time'] = num(a['lock'][0])
        if f == 's_legacy_tx':
            if a['expiry']:
                kw['expiry'] = num(a['expiry'][0])
            if a['js']:
                kw['tx_joinsplits'] = parts(a['jk'], a['js'][0])
            if a['pub']:
                kw['joinsplit_pubkey'] = bytes(a['pub'][0])
            if a['sig']:
                kw['joinsplit_sig'] = bytes(a['sig'][0])
        g = simple.unsigned_legacy_tx if f == 's_legacy_tx' else simple.unsigned_witness_tx
        return {'v': view(g(parts(a['ik'], a['ins']), parts(a['ok'], a['outs']), **kw))}
    raise DriverError(f)


@op
def op_addr(a):
    f = a['f']
    if f == 'parse':
        return {'b': B(addresses.parse(txt(a['t'])))}
    if f == 'to_script':
        return {'b': B(addresses.to_output_script(txt(a['t'])))}
    if f == 'from_script':
        return {'t': T(addresses.from_output_script(bb(a, 'b')) if a['dflt']
                       else addresses.from_output_script(bb(a, 'b'), a['cash']))}
    if f == 'parse_hash':
        return {'b': B(addresses.parse_hash(txt(a['t'])))}
    if f == 'sh':
        return {'t': T(defaults(partial(addresses.make_sh_address, toks(a['toks'])), a, {'witness': a['wit'], 'cashaddr': a['cash']},
                              {'witness': False, 'cashaddr': True}))}
    if f == 'p2sh':
        return {'t': T(addresses.make_p2sh_address(toks(a['toks'])))}
    if f == 'p2wsh':
        return {'t': T(addresses.make_p2wsh_address(toks(a['toks'])))}
    if f == 'legacy_p2sh':
        return {'t': T(addresses.make_legacy_p2sh_address(toks(a['toks'])))}
    if f == 'pkh':
        return {'t': T(defaults(partial(addresses.make_pkh_address, bb(a, 'pub')), a, {'witness': a['wit'], 'cashaddr': a['cash']},
                              {'witness': False, 'cashaddr': True}))}
    if f == 'p2pkh':
        return {'t': T(addresses.make_p2pkh_address(bb(a, 'pub')))}
    if f == 'p2wpkh':
        return {'t': T(addresses.make_p2wpkh_address(bb(a, 'pub')))}
    if f == 'legacy_p2pkh':
        return {'t': T(addresses.make_legacy_p2pkh_address(bb(a, 'pub')))}
    raise DriverError(f)


def some(x):
    """Functions that signal failure by returning None."""
    if x is None:
        raise ValueError('refused')
    return x


@op
def op_b58(a):
    f = a['f']
    if f == 'enc':
        return {'t': T(base58.encode(bb(a, 'b')) if a['dflt'] else base58.encode(bb(a, 'b'), a['check']))}
    if f == 'dec':
        return {'b': B(some(base58.decode(txt(a['t'])) if a['dflt'] else base58.decode(txt(a['t']), a['check'])))}
    if f == 'enc_check':
        return {'t': T(base58.encode_with_checksum(bb(a, 'b')))}
    if f == 'dec_check':
        return {'b': B(some(base58.decode_with_checksum(txt(a['t']))))}
    if f == 'has':
        return {'y': BOOL(base58.has_checksum(txt(a['t'])))}
    raise DriverError(f)


@op
def op_bech32(a):
    if a['f'] == 'enc':
        return {'t': T(some(bech32.encode(bb(a, 'b'))))}
    if a['f'] == 'seg_enc':
        return {'t': T(some(bech32.segwit_encode(txt(a['hrp']), a['ver'], bytes(a['b']) if coin(a) else list(a['b']))))}
    if a['f'] == 'seg_dec':
        ver, prog = bech32.segwit_decode(txt(a['hrp']), txt(a['t']))
        return {'b': [some(ver), len(some(prog))] + list(prog)}
    if a['f'] == 'b32_enc':
        return {'t': T(some(bech32.bech32_encode(txt(a['hrp']), list(a['b']))))}
    if a['f'] == 'b32_dec':
        h, d = bech32.bech32_decode(txt(a['t']))
        return {'h': T(some(h)), 'b': list(some(d))}
    return {'b': B(some(bech32.decode(txt(a['t']))))}


@op
def op_cash(a):
    if a['f'] == 'enc':
        return {'t': T(some(cashaddr.encode(bb(a, 'b'))))}
    return {'b': B(some(cashaddr.decode(txt(a['t']))))}


B2KW = {'digest': 'digest_size', 'key': 'key', 'fanout': 'fanout', 'depth': 'depth', 'leaf': 'leaf_size', 'noff': 'node_offset',
        'ndepth': 'node_depth', 'inner': 'inner_size', 'salt': 'salt', 'person': 'person', 'last': 'last_node'}


def b2_args(a):
    kw = {}
    for x in a['give']:
        v = a['p'][x]
        kw[B2KW[x]] = int.from_bytes(bytes(v), 'little') if x in ('leaf', 'noff') else bytes(v) if isinstance(v, list) else v
    return kw


@op
def op_hash(a):
    f, b = a['f'], bb(a, 'b')
    if f in ('blake2b_all', 'blake2s_all'):
        return {'b': B(getattr(utils, f[:7])(b, **b2_args(a)))}
    if f in ('sha256', 'rmd160', 'hash160', 'hash256', 'blake256'):
        return {'b': B(getattr(utils, f)(b))}
    if f in ('blake2b', 'blake2s'):
        kw = {}
        if a['size']:
            kw['digest_size'] = a['size'][0]
        if a['person']:
            kw['person'] = bytes(a['person'][0])
        return {'b': B(getattr(utils, f)(b, **kw))}
    if f == 'blake':
        h = bl.BLAKE(a['size'][0])
        if a['person']:
            h.addsalt(bytes(a['person'][0]))
        d = h.digest(b)
        return {'b': B(d)}
    if f == 'blake_hash':
        return {'b': B(bl.blake_hash(b))}
    raise DriverError(f)


@op
def op_oracle(a):
    """hashlib's answer, to cross-check the specification's primitives."""
    import hashlib
    f, b = a['f'], bytes(a['b'])
    if f in ('sha256', 'rmd160'):
        return {'b': list(hashlib.new('sha256' if f == 'sha256' else 'ripemd160', b).digest())}
    if f in ('blake2b_all', 'blake2s_all'):
        return {'b': list(getattr(hashlib, f[:7])(b, **b2_args(a)).digest())}
    return {'b': list(getattr(hashlib, f)(b, digest_size=a['size'][0], person=bytes(a['person'][0])).digest())}


# ---- streaming hashers
@op
def op_bl_new(a):
    h = bl.BLAKE(a['size'])
    if a['salt']:
        h.addsalt(by(a['salt'][0], ['bytes', 'bytearray'][coin(a)]))
    HEAP[a['h']] = h
    return {'x': 0}


@op
def op_bl_salt(a):
    HEAP[a['h']].addsalt(by(a['b'], a.get('form', 'bytes')))
    return {'x': 0}


def bl_data(a):
    return txt(a['b']) if a['text'] else by(a['b'], a.get('form', 'bytes'))


@op
def op_bl_update(a):
    HEAP[a['h']].update(bl_data(a))
    return {'x': 0}


@op
def op_bl_final(a):
    h = HEAP[a['h']]
    if a['how'] == 'hex':
        return {'b': list(bytes.fromhex(h.hexdigest(bl_data(a)) if a['b'] else h.hexdigest()))}
    f = h.digest if a['how'] == 'digest' else h.final
    return {'b': B(f(bl_data(a)) if a['b'] else f())}


# ---- byte containers
@op
def op_bx_new(a):
    how = a['how']
    if how == 'empty':
        o = shared.ByteData()
    elif how == 'bytes':
        o = shared.ByteData.from_bytes(by(a['b'], a['form']))
    elif how == 'hex':
        o = shared.ByteData.from_hex(txt(a['t']))
    elif how == 'obj':
        o = build(a['k'], a['d'])
    HEAP[a['h']] = o
    return {'b': B(o)}


@op
def op_bx_append(a):
    o = HEAP[a['h']]
    if a['form'] in WRONG:
        o += WRONG[a['form']]()
    elif a['form'] == 'handle':
        o += HEAP[a['h2']]
    else:
        o += by(a['b'], a['form'])
    if o is not HEAP[a['h']]:
        raise Weird('append made a new object')
    return {'b': B(o)}


@op
def op_bx_obs(a):
    o = HEAP[a['h']]
    b = B(o)
    idx = [o[i] for i in range(len(b))] + [o[-i - 1] for i in range(len(b))]
    if any(not isinstance(i, int) for i in idx):
        raise Weird('index')
    over = any(attempt(lambda: o[i])[0] == 'ok' for i in (len(b), -len(b) - 1))
    return {'over': over, 'bytes': B(o.to_bytes()), 'len': len(o), 'iter': list(o), 'hex': T(o.hex()), 'idx': idx,
            'slices': [B(o[:] if (x['lo'], x['hi'], x['st']) == (0, len(b), 1) else o[x['lo']:x['hi']:x['st']]) for x in a['slices']],
            'fmt': T('{:x}'.format(o)), 'fmtx': T('{:X}'.format(o)), 'conv': b}


@op
def op_bx_find(a):
    o = HEAP[a['h']]
    x = HEAP[a['h2']] if a['form'] == 'handle' else by(a['b'], a['form'])
    r = o.find(x)
    if isinstance(r, bool) or not isinstance(r, int):
        raise Weird('find')
    return {'i': r}


@op
def op_bx_eq(a):
    o = HEAP[a['h']]
    if a['form'] in WRONG:
        x = WRONG[a['form']]()
    elif a['form'] == 'handle':
        x = HEAP[a['h2']]
    else:
        x = by(a['b'], a['form'])
    return {'eq': BOOL(o == x), 'ne': BOOL(o != x)}


@op
def op_bx_ne(a):
    o = HEAP[a['h']]
    x = WRONG[a['form']]()
    return {'ne': BOOL(o != x)}


# ---- standardness
@op
def op_std(a):
    f = a['f']
    if f == 'push_only':
        return {'y': BOOL(standard.is_push_only(bb(a, 'b')))}
    if f in ('out_type', 'op_return'):
        o = build('txout', a['o'])
        return {'y': BOOL((standard.is_standard_output_type if f == 'out_type' else standard.is_op_return)(o))}
    t = source('tx', a['d'], a['src'])
    if f == 'tx':
        return {'y': BOOL(standard.check_is_standard_tx(t))}
    if f == 'outs':
        return {'y': BOOL(standard.check_is_standard(t))}
    if f == 'small':
        return {'y': BOOL(standard.check_tx_size_small(t))}
    if f == 'final':
        return {'y': BOOL(standard.check_final(t, num(a['height']), num(a['time'])))}
    raise DriverError(f)


# ---- objects that live through a session
KEEP = {}       # handle -> caller's own mutable arguments


@op
def op_new(a):
    """Build an object and keep it, with the caller's own (mutable) arguments."""
    k, d, h = a['k'], a['d'], a['h']
    if a['src'] == 'mk':
        kw = args_of(k, d, a['form'])
        o = KINDS[k][0](**kw)
        KEEP[h] = kw
    elif a['src'] == 'parse':
        buf = bytearray(bytes(build(k, d)))
        KEEP[h] = {'buf': buf}
        o = KINDS[k][0].from_bytes(buf)
    elif a['src'] == 'copy':
        kw = args_of(k, d, a['form'])
        base = build(k, a['d0'])
        o = base.copy(**{n: v for n, v in kw.items() if v is not None})
        KEEP[h] = kw
    elif a['src'] == 'copyof':
        o = HEAP[a['h0']].copy()
        KEEP[h] = {}
    HEAP[h] = o
    return {'v': view(o, k)}


def attrs(x):
    r = {}
    for n in dir(x):
        if not n.startswith('_'):
            try:
                v = getattr(x, n)
            except Exception:
                continue
            if not callable(v):
                r[n] = v
    return r


def parts_of(o):
    """The object and every object reachable from it through public attributes."""
    out, seen, todo = [], set(), [((), o)]
    while todo:
        path, x = todo.pop(0)
        if id(x) in seen:
            continue
        seen.add(id(x))
        out.append((path, x))
        for n, v in sorted(attrs(x).items()):
            if isinstance(v, shared.ByteData):
                todo.append((path + (n,), v))
            elif isinstance(v, (tuple, list)):
                for i, y in enumerate(v):
                    if isinstance(y, shared.ByteData):
                        todo.append((path + (n, i), y))
    return out


def poke(x):
    """Change a mutable value in place; False if it cannot be changed."""
    if isinstance(x, bytearray):
        if len(x):
            x[0] ^= 0xff
        else:
            x.append(1)
        return True
    if isinstance(x, list):
        x.append(x[0] if x else b'\x00')
        return True
    if isinstance(x, dict):
        x['attacked'] = 1
        return True
    if isinstance(x, shared.ByteData):
        try:
            x += b'\x01'
            return True
        except Exception:
            return False
    return False


def mutables(x, seen, depth=0):
    """Mutable values reachable from the caller's arguments."""
    if id(x) in seen or depth > 6:
        return []
    seen.add(id(x))
    out = []
    if isinstance(x, (bytearray, list)):
        out.append(x)
    if isinstance(x, (list, tuple)):
        for y in x:
            out += mutables(y, seen, depth + 1)
    if isinstance(x, dict):
        for y in x.values():
            out += mutables(y, seen, depth + 1)
    if isinstance(x, shared.ByteData):
        out.append(x)
        for y in attrs(x).values():
            out += mutables(y, seen, depth + 1)
    return out


@op
def op_attack(a):
    """One attempt to change an object or something it was built from or handed out."""
    h, how, n = a['h'], a['how'], a['n']
    o = HEAP[h]
    ps = parts_of(o)
    path, x = ps[n % len(ps)]
    names = sorted(attrs(x))
    name = names[(n // 7) % len(names)] if names else 'nothing'
    st = 'ok'
    try:
        if how == 'set':
            setattr(x, name, b'\x00\x00\x00\x00')
        elif how == 'setnew':
            setattr(x, 'brand_new', 1)
        elif how == 'del':
            delattr(x, name)
        elif how == 'append':
            x += b'\x01'
        elif how == 'setbytes':
            setattr(x, '_bytes', bytearray(b'\x01'))
        elif how == 'item':
            x[0] = 1
        elif how == 'args':
            ms = mutables(KEEP[h], set())
            if ms:
                poke(ms[n % len(ms)])
        elif how == 'allargs':
            for m in mutables(KEEP[h], set()):
                poke(m)
        elif how == 'observed':
            v = getattr(x, name)
            poke(v)
        elif how == 'outputs':
            for v in (x.to_bytes(), x[:], bytes(x), x.hex()):
                poke(v)
        elif how == 'vec':
            v = getattr(x, name)
            v[0] = None
        elif how == 'copy':
            c = o.copy()
            for m in mutables(c, set()):
                poke(m)
        elif how == 'sign':
            sign(KIND_OF[type(o)], o, a['req'])
        else:
            raise DriverError(how)
    except Exception:
        st = 'raised'
    return {'eff': st, 'part': type(x) in KIND_OF}


@op
def op_obs(a):
    o = HEAP[a['h']]
    return {'v': view(o, a['k'])}


@op
def op_hsig(a):
    o = HEAP[a['h']]
    out = []
    for q in a['reqs']:
        st, v = attempt(lambda: sign(a['k'], o, q))
        out.append({'st': st, 'dg': B(v) if st == 'ok' else []})
    return {'ds': out}


@op
def op_hcopy(a):
    """Copy a kept object with overrides; the copy is kept too."""
    o = HEAP[a['h']]
    kw = {}
    for f in a['fields']:
        for g, arg, ty in KINDS[a['k']][1]:
            if g == f:
                kw[arg] = field_val(ty, a['d2'][f])
    c = o.copy(**kw)
    HEAP[a['h2']] = c
    KEEP[a['h2']] = {}
    return {'v': view(c, a['k'])}


def net_name():
    try:
        n = riemann.get_current_network_name()
        w = riemann.get_current_network()
        return n if isinstance(n, str) and n == '%s_%s' % (w.NETWORK_NAME, w.SUBNET_NAME) else '?'
    except Exception:
        return '?'


def _alarm(*_):
    raise Hang()


LIMIT = 20


def run(opname, a):
    f = OPS[opname]
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(LIMIT * (12 if opname == 'weave' else 1))
    try:
        r = f(a)
        st = 'ok'
    except Hang:
        st, r = 'weird', {'x': 0, 'hang': 1}
    except Weird:
        st, r = 'weird', {'x': 0}
    except RecursionError:
        st, r = 'refused', {'x': 0}
    except (Exception, SystemExit):
        st, r = 'refused', {'x': 0}
    finally:
        signal.alarm(0)
    return st, r


# ---- calls that overlap
class Stop(BaseException):
    """Abandons a call, as a signal handler would."""


ROOT = os.path.join(os.path.dirname(os.path.abspath(riemann.__file__)), '')


def plain(c):
    try:
        return {'st': 'ok', 'r': OPS[c['op']](c['a'])}
    except Weird:
        return {'st': 'weird', 'r': {'x': 0}}
    except (Exception, SystemExit):
        return {'st': 'refused', 'r': {'x': 0}}


def traced(f, at, hook):
    """Call f, and run hook when it is about to execute its at-th line of library code; which lines were executed?"""
    seen = []

    def local(frame, ev, arg):
        if ev == 'line':
            seen.append((frame.f_code.co_filename, frame.f_lineno))
            if len(seen) == at:
                sys.settrace(None)
                hook()
        return local

    def enter(frame, ev, arg):
        return local if frame.f_code.co_filename.startswith(ROOT) else None
    sys.settrace(enter)
    try:
        r = f()
    finally:
        sys.settrace(None)
    return r, seen


def points(seen, at):
    """Moments at which to interrupt a call: one for every line of code it executes (of the times the line is
    executed, the one that is at thousandths of the way), fewer when the call is long."""
    times = {}
    for i, x in enumerate(seen):
        times.setdefault(x, []).append(i + 1)
    ps = sorted(v[at * len(v) // 1000] for v in times.values())
    most = max(6, 12000 // (len(seen) + 1))
    return ps if len(ps) <= most else [ps[k * len(ps) // most] for k in range(most)]


def play(a, p):
    """Run program p of a weave (its handles are its own)."""
    out = []
    for c in a['progs'][p]:
        own = {k: v + 1000 * (p + 1) if k in ('h', 'h0', 'h2') else v for k, v in c['a'].items()}
        out.append(plain({'op': c['op'], 'a': own}))
    return out


def at_once(a):
    """Every program in a thread of its own, several times over."""
    n = len(a['progs'])
    rs, go = [None] * n, threading.Barrier(n)

    def work(p):
        go.wait(10)
        for _ in range(a['times']):
            r = play(a, p)
            if rs[p] is not None and rs[p] != r:      # two answers to one question: at least one is wrong
                rs[p] = [{'st': 'weird', 'r': {'x': 0}} for _ in r]
                return
            rs[p] = r
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(p,), daemon=True) for p in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    return rs


@op
def op_weave(a):
    """Programs of several clients: their steps in turns, one in the middle of another's call, after another
    was abandoned in the middle of a call, or all at once."""
    n = len(a['progs'])
    try:
        if a['mode'] == 'threads':
            rs = at_once(a)
        elif a['mode'] == 'turns':
            rs = [[] for _ in a['progs']]
            for p in a['order']:
                i = len(rs[p])
                rs[p] += play({'progs': {p: a['progs'][p][i:i + 1]}}, p)
        elif a['mode'] == 'alone':
            rs = [play(a, p) for p in range(n)]
        else:
            rest = range(1, n)
            seen = traced(lambda: play(a, 0), 0, None)[1]
            runs = []
            for at in points(seen, a['at']):
                got = []
                if a['mode'] == 'inside':
                    first = traced(lambda: play(a, 0), at, lambda: got.extend([play(a, p) for p in rest]))[0]
                    runs.append([first] + (got or [play(a, p) for p in rest]))   # with a memo, fewer lines run the second time
                else:
                    def stop():
                        raise Stop()
                    try:
                        traced(lambda: play(a, 0), at, stop)
                    except Stop:
                        pass
                    got = [play(a, p) for p in rest]
                    runs.append([play(a, 0)] + got)
            runs = runs or [[play(a, p) for p in range(n)]]
            rs = [x[0] if all(y == x[0] for y in x) else None for x in ([r[p] for r in runs] for p in range(n))]
        return {'rs': [r or [{'st': 'weird', 'r': {'x': 0}}] * len(p) for r, p in zip(rs, a['progs'])]}
    finally:
        for h in [h for h in HEAP if h >= 1000]:
            del HEAP[h]
            KEEP.pop(h, None)


def event(opname, a):
    """Run one action in the current process and describe it."""
    st, r = run(opname, a)
    e = {'op': opname, 'a': a, 'st': st, 'r': r, 'n': net_name()}
    attacks = opname == 'attack' or opname == 'weave' and any(c['op'] == 'attack' for q in a['progs'] for c in q)
    if not attacks and not lent_intact():
        e['args'] = 0
    reuse_lent()
    return e
