"""Development aid: screen.py BASEFILE SHARDS [--make]: records all properties (forked per property) and compares
the event hashes with the baseline; prints the first property/shard that differs, or 'same'."""
import hashlib
import json
import os
import signal
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'driver'))
os.environ.setdefault('VERIF_GEN_LIMIT', '60')
import ops
import gen
ORDER = ['C33', 'C25', 'C26', 'C32', 'C22', 'C24', 'C03', 'C04', 'C29', 'C37', 'C19', 'C20', 'C21', 'C23', 'C08', 'C09', 'C10',
         'C11', 'C12', 'C13', 'C16', 'C15', 'C17', 'C18', 'C31', 'C06', 'C05', 'C07', 'C27', 'C28', 'C30', 'C34', 'C36', 'C02', 'C14',
         'C01', 'C35']


def one(prop, shard):
    a, b = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(100)
            os.close(a)
            h = hashlib.sha256()
            z = gen.Zygote(ops) if prop == 'C01' else None
            hangs = 0
            for opname, x in gen.stream(gen.Ctx(prop, shard, 8, 1, 'quick')):
                e = ops.event(opname, x)
                if z and opname not in ('select', 'reset'):
                    e['st0'], e['r0'] = z.fresh(e['n'], opname, x)
                h.update(json.dumps(e, separators=(',', ':')).encode())
                hangs += e['st'] == 'weird' and 'hang' in e['r']
                if hangs > 2:
                    break
            os.write(b, h.hexdigest().encode())
        except BaseException as x:
            os.write(b, ('error ' + repr(x)[:60]).encode())
        os._exit(0)
    os.close(b)
    with os.fdopen(a) as f:
        r = f.read()
    os.waitpid(pid, 0)
    return r


base = json.load(open(sys.argv[1])) if os.path.exists(sys.argv[1]) else {}
for s in range(int(sys.argv[2])):
    for p in ORDER:
        r = one(p, s)
        if '--make' in sys.argv:
            base['%s/%d' % (p, s)] = r
        elif base['%s/%d' % (p, s)] != r:
            print('%s/%d %s' % (p, s, r if r.startswith('error') or not r else ''))
            sys.exit()
if '--make' in sys.argv:
    json.dump(base, open(sys.argv[1], 'w'))
print('same')
