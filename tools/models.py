"""Which bounded models belong to which property."""
import collections

Model = collections.namedtuple('Model', 'module cfg env workers heap timeout extra')


def M(module, cfg=None, env=None, workers=2, heap='2g', timeout=600, extra=()):
    return Model(module, cfg or module, env or {}, workers, heap, timeout, extra)


def kinds(module, names, **kw):
    return [M(module, env={'MC_KIND': k}, **kw) for k in names]


SIG = {'C08': ['legacy'], 'C09': ['bip143'], 'C10': ['fork'], 'C11': ['overwinter'], 'C12': ['sapling'],
       'C13': ['sprout'], 'C14': ['decred'],
       'C35': ['legacy', 'bip143', 'fork', 'sprout', 'overwinter', 'sapling', 'decred']}
WIRE = {'C05': ['tx'], 'C06': ['tx', 'sprout', 'overwinter', 'sapling'], 'C07': ['tx'],
        'C17': ['sprout', 'overwinter', 'sapling'], 'C18': ['decred']}
MORE = {'MCCodec': {'C19': ['b58', 'b58raw'], 'C20': ['bech'], 'C21': ['cash']},
        'MCAddr': {'C22': ['scripts'], 'C23': ['scripts'], 'C24': ['makers']},
        'MCObjects': {'C15': ['life'], 'C16': ['copies']},
        'MCValid': {'C33': ['x']},
        'MCNet': {'C01': ['pairs'], 'C02': ['single', 'pairs']},
        'MCFee': {'C27': ['x']},
        'MCBech': {'C20': ['x']},
        'MCBlake': {'C28': ['x']},
        'MCStandard': {'C30': ['script', 'tx', 'final', 'small']},
        'MCBytes': {'C32': ['x']},
        'MCParts': {'C25': ['x']},
        'MCBuild': {'C26': ['x']},
        'MCInt': {'C29': ['x']},
        'MCStack': {'C34': ['x']},
        'MCJoin': {'C36': ['x']},
        'MCHash': {'C37': ['x']},
        'MCWeave': {'C38': ['turns', 'calls', 'refused']}}


def for_property(prop, tier):
    res = []
    for k in WIRE.get(prop, []):
        res.append(M('MCWire', env={'MC_KIND': k, 'MC_EMIT': 'bytes' if prop == 'C06' else 'objects'},
                     workers=3 if k == 'tx' else 2))
    s = SIG.get(prop, [])
    res += kinds('MCSighash', s, workers=2 if len(s) < 3 else 1)
    if prop == 'C03':
        res.append(M('MCCompact'))
    if prop == 'C04':
        res += kinds('MCScript', ['text', 'bytes'])
    if prop == 'C31':
        res += kinds('MCScript', ['sig'])
    for mod, by in MORE.items():
        res += kinds(mod, by.get(prop, []))
    return res
