"""show.py FILE: re-executes the last event of a replay file on the library, printing the exception."""
import json
import os
import sys
import traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'driver'))
import ops
evs = [json.loads(l) for l in open(sys.argv[1])]
for e in evs[:-1]:
    ops.run(e['op'], e['a'])
e = evs[-1]
s = json.dumps({k: v for k, v in e.items()})
print(len(evs), 'events; last', s[:int(sys.argv[2]) if len(sys.argv) > 2 else 1500])
f = getattr(ops, 'op_' + e['op'])
try:
    r = f(e['a'])
    print('RESULT', json.dumps(r)[:500])
except BaseException:
    traceback.print_exc()
