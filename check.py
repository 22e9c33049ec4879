#!/usr/bin/env python3
"""Decides one property: check.py PROPERTY  (tier VERIF_TIER, seed VERIF_SEED).

1. the bounded models of the specification listed for the property are explored by TLC
   (invariants of the design) and emit the cases they enumerated;
2. eight recorders run the property's generator and those cases on the library in /repo;
3. eight TLC processes replay the recordings through the state machine of spec/Api.tla,
   which judges every event;
4. verdicts outside the property's scope are dropped, known findings are set aside.
exit 0: held on everything explored.  1: VIOLATION line.  2: the check could not decide.
"""
import collections
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import models                                                # noqa: E402

JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CLASSES = os.path.join(HERE, 'build', 'classes')
CP = CLASSES + ':' + JARS
PYTHON = '/opt/venv/bin/python'
N = int(os.environ.get('VERIF_WORKERS', '8'))

BTC = {'outpoint', 'txin', 'txout', 'witem', 'witness', 'tx'}
VIEW = {'bytes', 'agree', 'fields', 'kind', 'extra'}
IDS, HS, DH = {'ids'}, {'hsigs', 'pinputs'}, {'dhashes'}
GATE = {'refused', 'accepted', 'weird', 'eval'}
ALL = {'*'}
# property -> operation -> clauses that belong to the property ('*': every clause but the special ones)
SPECIAL = IDS | HS | DH | {'net', 'history', 'frozen'}
MASK = {
    'C01': {'select': {'*'}, '*': {'net', 'history', 'args', 'weird', 'refused', 'accepted', 'eval'}},
    'C02': {'*': ALL | {'net'}},
    'C06': {'cuts': {'accepted', 'bytes', 'weird', 'eval'}, 'flips': {'accepted', 'bytes', 'weird', 'eval'}, 'parse': {'accepted', 'weird', 'eval'} | VIEW},
    'C07': {'*': IDS | {'eval', 'weird'}},
    'C14': {'*': ALL | DH},
    'C15': {'*': ALL | IDS | HS | DH | {'frozen'}, 'vi_enc': {'frozen'}, 'vi_dec': {'frozen'}},
    'C16': {'*': ALL | IDS | HS | DH},
    'C33': {'mk': GATE, 'copy': GATE, 'parse': {'accepted', 'weird', 'eval'}},
    'C36': {'*': HS | {'eval', 'weird'}},
    'C38': {'*': {'history'}},
}
SETUP = {'select', 'reset', 'oracle'}


def in_scope(prop, op, clause):
    m = MASK.get(prop, {'*': ALL})
    cs = m.get(op)
    if cs is None:
        if op in SETUP:
            return False
        cs = m.get('*', set())
    return clause in cs or ('*' in cs and clause not in SPECIAL)


def build_classes():
    src = os.path.join(HERE, 'java', 'RHash.java')
    out = os.path.join(CLASSES, 'RHash.class')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return
    tmp = CLASSES + '.%d' % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    subprocess.run(['javac', '-cp', JARS, '-d', tmp, src], check=True)
    os.makedirs(CLASSES, exist_ok=True)
    for f in os.listdir(tmp):
        os.replace(os.path.join(tmp, f), os.path.join(CLASSES, f))
    os.rmdir(tmp)


def tlc(module, cfg, meta, env=None, workers=1, heap='2g', extra=()):
    cmd = ['java', '-Xss64m', '-Xmx' + heap, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-XX:TieredStopAtLevel=4',
           '-cp', CP, '-DTLA-Library=' + os.path.join(HERE, 'spec'), 'tlc2.TLC', '-deadlock',
           '-metadir', meta, '-workers', str(workers), '-noGenerateSpecTE'] + list(extra) + ['-config', cfg, module]
    return cmd


class Abort(Exception):
    pass


STATS = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def parse_stats(text):
    m = STATS.findall(text)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


class Check:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.states = self.transitions = self.traces = self.events = 0
        self.ops = collections.Counter()
        self.outcomes = collections.Counter()
        self.samples, self.model_notes, self.fails = [], [], []

    # ---- 1. bounded models
    def run_models(self):
        todo = models.for_property(self.prop, self.tier)
        cases = os.path.join(self.work, 'cases.ndjson')
        ncases = 0
        procs = []
        for i, m in enumerate(todo):
            out = open(os.path.join(self.work, 'model%d.out' % i), 'w+')
            env = dict(os.environ, **m.env)
            cmd = tlc(os.path.join(HERE, 'spec', m.module + '.tla'), os.path.join(HERE, 'spec', m.cfg + '.cfg'),
                      os.path.join(self.work, 'mc%d' % i), workers=m.workers, heap=m.heap, extra=m.extra)
            procs.append((m, out, subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, env=env, cwd=self.work)))
        with open(cases, 'w') as f:
            for m, out, p in procs:
                try:
                    rc = p.wait(timeout=m.timeout)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    raise Abort('model %s did not finish in %d s' % (m.cfg, m.timeout))
                out.seek(0)
                text = out.read()
                gen, dist = parse_stats(text)
                if rc != 0:
                    raise Abort('model %s: TLC exit %d\n%s' % (m.cfg, rc, text[-3000:]))
                self.states += dist
                self.transitions += gen
                lines = sorted(json.loads(l)[5:] for l in text.splitlines() if l.startswith('"CASE '))
                k = len(lines)
                f.writelines(l + '\n' for l in lines)
                ncases += k
                self.model_notes.append({'model': m.cfg, 'distinct_states': dist, 'states_generated': gen,
                                         'behaviours_emitted': k})
        return cases if ncases else None

    # ---- 2. recordings
    def record(self, cases):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent/pycache',
                   PYTHONHASHSEED='0')
        procs = []
        for i in range(N):
            out = os.path.join(self.work, 't%d.ndjson' % i)
            cmd = [PYTHON, '-B', os.path.join(HERE, 'driver', 'worker.py'), self.prop, str(i), str(N), str(self.seed),
                   self.tier, out] + ([cases] if cases else [])
            err = open(os.path.join(self.work, 'rec%d.err' % i), 'w+')
            procs.append((out, err, subprocess.Popen(cmd, stdout=err, stderr=subprocess.STDOUT, env=env, cwd=self.work)))
        files = []
        bad = None
        for out, err, p in procs:
            if p.wait() != 0:
                err.seek(0)
                bad = bad or err.read()[-3000:]
            files.append(out)
        if bad is not None:
            raise Abort('recorder failed:\n' + bad)
        return files

    # ---- 3. judgement
    def judge(self, files):
        todo = [(f, 0) for f in files if os.path.getsize(f)]
        for rnd in range(4):
            procs = []
            for j, (f, off) in enumerate(todo):
                out = open(f + '.out%d' % rnd, 'w+')
                env = dict(os.environ, TRACE=f)
                cmd = tlc(os.path.join(HERE, 'spec', 'Trace.tla'), os.path.join(HERE, 'spec', 'Trace.cfg'),
                          f + '.meta%d' % rnd, heap='3g')
                procs.append((f, out, subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, env=env, cwd=self.work)))
            again = []
            for f, out, p in procs:
                rc = p.wait()
                out.seek(0)
                text = out.read()
                events = [l for l in open(f)]
                fails = [(int(m.group(1)), m.group(2)) for m in re.finditer(r'<<"FAIL", (\d+), "(\w+)">>', text)]
                gen, dist = parse_stats(text)
                done = rc == 0 and '<<"DONE", %d>>' % len(events) in text
                stop = None
                if not done:
                    m = re.findall(r'^/\\ i = (\d+)', text, re.M) or re.findall(r'^i = (\d+)', text, re.M)
                    if not m:
                        raise Abort('trace check failed:\n' + text[-3000:])
                    stop = int(m[-1]) + 1          # the event whose evaluation failed
                    fails = [x for x in fails if x[0] < stop] + [(stop, 'eval')]
                    open(os.path.join(self.work, 'eval.txt'), 'a').write(text[-2500:])
                self.states += dist
                self.transitions += gen
                self.traces += 1
                upto = events if stop is None else events[:stop]
                self.count(upto)
                for i, c in fails:
                    self.fails.append((c, json.loads(events[i - 1]), events, i))
                if stop is not None and stop < len(events):
                    # continue after the next reset
                    rest, net = self.resume(events, stop)
                    if rest:
                        g = f + '.r'
                        open(g, 'w').writelines(rest)
                        again.append((g, 0))
            todo = again
            if not todo:
                return

    @staticmethod
    def resume(events, stop):
        """The events after an unevaluable one, from the next session start."""
        net = json.loads(events[stop - 1])['n']
        for k in range(stop, len(events)):
            e = json.loads(events[k])
            if e['op'] == 'reset':
                sel = json.dumps({'op': 'select', 'a': {'name': e['n']}, 'st': 'ok', 'r': {'name': e['n']}, 'n': e['n']})
                return [sel + '\n'] + events[k:], e['n']
        return [], net

    def count(self, lines):
        seen = set()
        for l in lines:
            e = json.loads(l)
            self.events += 1
            a = e['a']
            key = e['op'] + (':' + str(a.get('k') or a.get('f') or a.get('mode')) if isinstance(a, dict) and (a.get('k') or a.get('f') or a.get('mode')) else '')
            self.ops[key] += 1
            self.outcomes[e['st']] += 1
            if key not in seen and len(l) < 1500 and e['op'] not in SETUP and len(self.samples) < 6 and \
                    not any(s['op'] == e['op'] for s in self.samples):
                seen.add(key)
                self.samples.append({'op': e['op'], 'net': e['n'], 'args': a, 'outcome': e['st'], 'result': e['r']})


def known(prop):
    """KNOWN lines: 'known: property=<id> <regex over "op clause json">  # text'"""
    res = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) match=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                res.append((re.compile(m.group(2)), m.group(3)))
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    work = os.path.join(HERE, 'build', 'run', '%s-%d' % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    build_classes()
    c = Check(prop, tier, seed, work)
    try:
        cases = c.run_models()
        t1 = time.time()
        files = c.record(cases)
        t2 = time.time()
        c.judge(files)
        phases = 'models %.1f, recording %.1f, judging %.1f' % (t1 - t0, t2 - t1, time.time() - t2)
    except Abort as x:
        print('ERROR property=%s %s' % (prop, x))
        keep(work)
        return 2
    found, listed, dropped = [], collections.Counter(), 0
    kn = known(prop)
    for clause, e, events, i in c.fails:
        if not in_scope(prop, e['op'], clause):
            dropped += 1
            continue
        s = json.dumps([e['op'], clause, e['n'], e['a']], separators=(',', ':'))
        for rx, text in kn:
            if rx.search(s):
                listed[text] += 1
                break
        else:
            found.append((clause, e, events, i))
    for text in listed:
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    wall = time.time() - t0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': c.states, 'transitions': c.transitions,
                       'traces_validated_against_impl': c.traces,
                       'events_judged': c.events, 'by_action': dict(sorted(c.ops.items())),
                       'by_outcome': dict(c.outcomes), 'models': c.model_notes,
                       'verdicts_of_other_properties_set_aside': dropped,
                       'samples': c.samples},
          'assumptions': ['TLC, the Java runtime and its SHA/RIPEMD/BLAKE2 code (cross-checked in-run against hashlib)',
                          'the specification in /verif/spec states the protocols correctly'],
          'violations': len(found), 'wall_s': round(wall, 2)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    rc = 0
    if found:
        rc = 1
        rep = os.path.join(HERE, 'build', 'replay')
        os.makedirs(rep, exist_ok=True)
        seen = set()
        for clause, e, events, i in found:
            key = (e['op'], clause, e['a'].get('k') or e['a'].get('f') if isinstance(e['a'], dict) else '')
            if key in seen or len(seen) >= 5:
                continue
            seen.add(key)
            start = i - 1
            while start > 0 and json.loads(events[start])['op'] != 'reset':
                start -= 1
            path = os.path.join(rep, '%s-%d.ndjson' % (prop, len(seen)))
            with open(path, 'w') as f:
                if start > 0:
                    n = json.loads(events[start])['n']
                    f.write(json.dumps({'op': 'select', 'a': {'name': n}, 'st': 'ok', 'r': {'name': n}, 'n': n}) + '\n')
                f.writelines(events[start:i])
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  clause %s in %s on %s' % (clause, key[0] + ':' + str(key[2]), e['n']))
        print('  %d violating verdicts' % len(found))
    if os.environ.get('VERIF_KEEP'):
        keep(work)
    else:
        shutil.rmtree(work, ignore_errors=True)
    print('%s %s: %d events in %d recordings judged, %d states, %d fails in scope (%d of other properties), %.1f s (%s)'
          % (prop, tier, c.events, c.traces, c.states, len(found), dropped, wall, phases))
    return rc


def keep(work):
    print('  kept ' + work)


if __name__ == '__main__':
    sys.exit(main())
