"""Runs the generator of one property against the library and records every event.

usage: worker.py PROPERTY SHARD NSHARDS SEED TIER OUT [CASES]
CASES: optional file of actions (one JSON {"op","a"} per line) produced by TLC from the
specification; they are executed in order, split over the shards by session.
"""
import json
import os
import sys
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ops                                                   # noqa: E402
import gen                                                   # noqa: E402


def main():
    prop, shard, nshards, seed, tier, out = sys.argv[1:7]
    cases = sys.argv[7] if len(sys.argv) > 7 else None
    shard, nshards = int(shard), int(nshards)
    ctx = gen.Ctx(prop, shard, nshards, int(seed), tier)
    t0, n, hangs = time.time(), 0, 0
    limit = float(os.environ.get('VERIF_GEN_LIMIT', '150' if tier == 'quick' else '1500'))
    z = gen.Zygote(ops) if prop in ('C01', 'C38') else None
    with open(out, 'w') as f:
        for opname, a in gen.stream(ctx, cases):
            e = ops.event(opname, a)
            if z and opname == 'weave':
                rs = [z.fresh(e['n'], 'weave', {'mode': 'alone', 'progs': [p]})[1]['rs'][0] for p in a['progs']]
                e['st0'], e['r0'] = 'ok', {'rs': rs}
            elif z and opname not in ('select', 'reset') and (prop == 'C01' or opname in gen.STATELESS):
                e['st0'], e['r0'] = z.fresh(e['n'], opname, a)
            f.write(json.dumps(e, separators=(',', ':')) + '\n')
            n += 1
            if e['st'] == 'weird' and e['r'] == {'x': 0, 'hang': 1}:
                hangs += 1
            if hangs > 3 or time.time() - t0 > limit:
                break
    if z:
        z.close()


main()
