#!/usr/bin/env python3
'''
Checks one property by seeded search over simulated runs.

    check.py C05 [--tier quick|thorough] [--runs N] [--seed S]
    check.py --replay replays/C05-....json

Exit 0: the property held on every run.  Exit 1: it is broken, the last line
is `VIOLATION property=<id> replay=<path>`.  Exit 2: no answer.
'''
import argparse
import collections
import hashlib
import json
import os
import queue
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

from sim import gen, props, reduce  # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
GROUPS = 8          # hash seeds in use; run i uses hash seed i % GROUPS
RUNS = {  # quick, thorough
    'C01': (8000, 90000), 'C02': (6000, 70000), 'C03': (7000, 60000),
    'C04': (5000, 50000), 'C05': (8000, 90000), 'C06': (7000, 90000),
    'C07': (6000, 70000), 'C08': (5000, 60000), 'C09': (5000, 40000),
    'C10': (6000, 60000), 'C11': (7000, 90000), 'C12': (6000, 80000),
    'C13': (7000, 90000), 'C14': (6000, 80000), 'C15': (7000, 90000),
    'C16': (5000, 60000), 'C17': (4000, 45000), 'C18': (5000, 60000),
    'C21': (4000, 40000)}
DEADLINE = {'quick': 420, 'thorough': 1500}
TWICE = ('C17', 'C21')     # also run in a second, different process
GEN = threading.Lock()      # the generators keep state while they run
LEAST = 200         # runs without which a check gives no answer


def interpreter():
    for p in ('/opt/venv/bin/python', sys.executable):
        if os.path.exists(p):
            return p


class Broken(Exception):
    pass


class Worker(object):
    '''A process with one hash seed that executes scenarios one by one.'''
    def __init__(self, base, name, hashseed):
        self.dir = os.path.join(base, name)
        env = dict((k, v) for k, v in os.environ.items()
                   if not k.startswith('PYTHON'))
        env.update(PYTHONHASHSEED=str(hashseed), PYTHONPATH=HERE,
                   PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8', TZ='UTC')
        self.err = open(os.path.join(base, name + '.err'), 'w+')
        self.p = subprocess.Popen(
            [interpreter(), '-m', 'sim.worker', os.path.join(REPO, 'src'),
             self.dir], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=self.err, text=True, env=env, cwd=base)
        self.hashseed = hashseed
        if self.p.stdout.readline() != 'ready\n':
            self.p.wait()
            self.err.seek(0)
            raise Broken('worker did not start:\n' +
                         self.err.read()[-3000:])

    def ask(self, req):
        try:
            self.p.stdin.write(json.dumps(req) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except OSError as e:
            raise Broken('worker died: %s' % e)
        if not line:
            self.err.seek(0)
            raise Broken('worker died:\n' + self.err.read()[-3000:])
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(20)
        except (OSError, subprocess.TimeoutExpired):
            self.p.kill()
            self.p.wait()
        self.err.close()


def hashdiff(a, b, prop):
    '''Where two runs of one scenario under two hash seeds differ.'''
    if a.get('error') or b.get('error'):
        return None
    x = [e for e in a['log'] if prop != 'C17' or e[2] == 'random']
    y = [e for e in b['log'] if prop != 'C17' or e[2] == 'random']
    if x == y:
        return None
    for p, q in zip(x, y):
        if p != q:
            return {'tag': 'hashseed', 'client': p[0], 'op': p[1],
                    'name': p[2], 'after': False,
                    'msg': 'in another process operation %d of client %d '
                    '(%s) gives %s instead of %s' % (
                        p[1], p[0], p[2], q[3:], p[3:])}
    return {'tag': 'hashseed', 'client': 0, 'op': 0, 'name': 'random',
            'after': False, 'msg': 'another process runs differently'}


class Evaluator(object):
    '''Executes scenarios of one property under one hash seed.'''
    def __init__(self, prop, base, name, hashseed):
        self.prop = prop
        self.w = Worker(base, name, hashseed)
        self.w2 = None
        if prop in TWICE:
            self.w2 = Worker(base, name + 'b', hashseed + 1001)

    def run(self, req):
        r = self.w.ask(req)
        if self.w2 is not None:
            r2 = self.w2.ask(dict(req, env=1))
            r['runs'] = r.get('runs', 1) + r2.get('runs', 1)
            d = hashdiff(r, r2, self.prop)
            if d:
                r['violations'].insert(0, d)
                if 'gen' in req and not r.get('scenario'):
                    with GEN:
                        r['scenario'] = gen.make(*req['gen'])
                    if r.get('impatient') or r2.get('impatient'):
                        r['scenario']['impatient'] = True
            if r2.get('error') and not r.get('error'):
                r['error'] = r2['error']
        r['bad'] = props.judge(self.prop, r)
        return r

    def close(self):
        self.w.close()
        if self.w2 is not None:
            self.w2.close()


# --------------------------------------------------------- known findings
def known_findings(prop):
    '''Lines `known: property=<id> op=<op> tag=<tag> text=<substring>`.'''
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if not os.path.exists(path):
        return out
    with open(path) as f:
        for line in f:
            line = line.strip()
            if not line.startswith('known: '):
                continue
            d = {}
            rest = line[len('known: '):]
            head, _, d['text'] = rest.partition(' text=')
            for w in head.split():
                k, _, v = w.partition('=')
                d[k] = v
            if d.get('property') == prop and d['text']:
                out.append(d)
    return out


def is_known(v, known):
    for k in known:
        if (v.get('name') == k.get('op') and v['tag'] == k.get('tag') and
                k['text'] in v['msg']):
            return k
    return None


# ----------------------------------------------------------------- search
class Search(object):
    def __init__(self, prop, tier, seed, nruns, base):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.nruns, self.base = nruns, base
        self.lock = threading.Lock()
        self.count = collections.Counter()
        self.scheds, self.states, self.traces = set(), set(), {}
        self.nontrivial = 0
        self.runs = self.execs = self.now = self.switches = self.nops = 0
        self.load = 0
        self.failed = []
        self.errors = []
        self.broken = []
        self.known = known_findings(prop)
        self.seen_known = collections.Counter()
        self.stop = False
        self.deadline = time.time() + DEADLINE[tier]
        self.late = False
        self.samples = []

    def group(self, g):
        try:
            ev = Evaluator(self.prop, self.base, 'w%d' % g, g)
        except Broken as e:
            self.broken.append(str(e))
            self.stop = True
            return
        try:
            for i in range(g, self.nruns, GROUPS):
                if self.stop:
                    break
                if time.time() > self.deadline:
                    self.late = True
                    break
                req = {'gen': [self.prop, str(self.seed), i]}
                if i < 2:
                    req['want'] = True
                self.take(i, g, ev.run(req))
        except Broken as e:
            self.broken.append(str(e))
            self.stop = True
        finally:
            ev.close()

    def take(self, i, g, r):
        with self.lock:
            self.runs += 1
            self.execs += r.get('runs', 1)
            self.count.update(r['count'])
            self.now += r['now']
            self.switches += r['switches']
            self.nops += r.get('nops', 0)
            new = r['trace'] not in self.traces
            if new and r['count'].get('ops', 0) >= 3 and (
                    r['count'].get('frames') or
                    r['count'].get('steps', 0) > 200):
                self.nontrivial += 1
            self.traces[r['trace']] = i
            self.scheds.add(r['sched'])
            self.states.update(r['states'])
            self.load = max(self.load, r.get('load', 0))
            if r['error']:
                self.errors.append((i, r['error'], r.get('scenario')))
                if len(self.errors) > 20:
                    self.stop = True
            bad = []
            for v in r['bad']:
                k = is_known(v, self.known)
                if k:
                    self.seen_known[k['text']] += 1
                else:
                    bad.append(v)
            if bad:
                self.failed.append((i, g, bad, r.get('scenario'),
                                    r['trace']))
                self.stop = True
            if i < 2 and r.get('scenario'):
                self.samples.append({'run': i, 'scenario': r['scenario'],
                                     'log': r['log'][:6],
                                     'trace': r['trace']})

    def run(self):
        ts = [threading.Thread(target=self.group, args=(g,))
              for g in range(GROUPS)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    def repeat(self, k):
        '''Executes k earlier runs again in new processes.'''
        rng = random.Random(self.seed)
        byrun = dict((i, t) for t, i in self.traces.items())
        some = rng.sample(sorted(byrun), min(k, len(byrun)))
        same = 0
        todo = collections.defaultdict(list)
        for i in some:
            todo[i % GROUPS].append(i)
        res = []

        def go(g):
            w = Worker(self.base, 'd%d' % g, g)
            # another order than before
            for i in reversed(todo[g]):
                r = w.ask({'gen': [self.prop, str(self.seed), i]})
                res.append((i, r['trace'] == byrun[i]))
            w.close()
        ts = [threading.Thread(target=go, args=(g,)) for g in todo]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        same = sum(1 for x in res if x[1])
        return len(res), same, [i for i, s in res if not s]


def minimise(prop, hashseed, sc, want, base, seconds):
    '''The smallest scenario found that fails in the same way.'''
    evs, pool = [], queue.Queue()
    for i in range(GROUPS):
        try:
            e = Evaluator(prop, base, 'm%d' % i, hashseed)
        except Broken:
            break
        evs.append(e)
        pool.put(e)
    if not evs:
        return sc, 0
    tried = [0]

    def fails(s):
        e = pool.get()
        try:
            r = e.run({'scenario': s})
        except Broken:
            return False
        finally:
            pool.put(e)
        tried[0] += 1
        return not r['error'] and any(props.cls(v) == want for v in r['bad'])

    def batch(cands):
        '''Index of the first failing candidate or None.'''
        out = [False] * len(cands)

        def go(i):
            out[i] = fails(cands[i])
        ts = [threading.Thread(target=go, args=(i,))
              for i in range(len(cands))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for i, x in enumerate(out):
            if x:
                return i
        return None
    try:
        quick = dict(sc, impatient=True)
        if fails(quick):
            # runs that never end are given up sooner
            sc = quick
        sc = reduce.reduce(sc, batch, len(evs), time.time() + seconds)
    finally:
        for e in evs:
            e.close()
    return sc, tried[0]


def evidence(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = '%s.%d' % (path, os.getpid())
    with open(tmp, 'w') as f:
        json.dump(data, f, indent=1, sort_keys=True)
        f.write('\n')
    os.replace(tmp, path)


RULE = ('One case is one simulated execution of a seeded scenario: up to four '
        'client threads, each with a sequence of GiMPy calls, under an '
        'explicit schedule (switches between source lines, and where '
        'shared state is touched) and fault plan. '
        'It counts as non-trivial if at least three operations ran and it '
        'rendered a frame or executed more than 200 lines of GiMPy, and as '
        'distinct if the hash of its complete history (switches, seam calls, '
        'faults, virtual times, results, printed text, final states) '
        'differs from every other run.')
REAL = ['all of /repo/src/gimpy (graph.py, tree.py, global_constants.py), '
        'unmodified', 'coinor.blimpy queues', 'the Python interpreter, '
        'threads, tempfile, subprocess argument handling up to Popen',
        'the file system (a private scratch directory)']
STUB = ['Graphviz processes (a DOT parser that returns bytes derived from '
        'program, format and text)', 'PIL, matplotlib and xdot viewers and '
        'the user in front of them', 'clock and sleep (virtual time)',
        'locks (cooperative)', 'standard output (recorded)',
        'file errors (proxies around real files)']
ASSUME = ['Preemption happens between source lines of GiMPy, at seam calls '
          'and at lock operations (single bytecodes in a share of the C09 '
          'and C18 runs), not inside C functions.',
          'The simulated Graphviz accepts exactly the DOT language as '
          'implemented in sim/dot.py, compared with the real dot during '
          'development.',
          'Reference answers come from sim/ref.py (textbook algorithms).']


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    prop = rep['property']
    base = tempfile.mkdtemp(prefix='simreplay', dir=shm())
    try:
        e = Evaluator(prop, base, 'r', rep['hashseed'])
        r = e.run({'scenario': rep['scenario']})
        e.close()
    except Broken as x:
        print(x)
        return 2
    finally:
        shutil.rmtree(base, ignore_errors=True)
    for v in r['bad']:
        print('  %s: client %s operation %s: %s' % (
            v['tag'], v['client'], v['op'], v['msg']))
    if r['error']:
        print(r['error'])
    same = r['trace'] == rep['trace']
    print('history %s, the recorded one is %s' % (r['trace'], rep['trace']))
    if r['bad']:
        print('reproduced%s' % ('' if same else ', with another history'))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 2 if r['error'] else 0


def shm():
    for d in ('/dev/shm', os.environ.get('TMPDIR', '/tmp'), '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            try:
                s = os.statvfs(d)
                if s.f_bavail * s.f_frsize > 256 << 20:
                    return d
            except OSError:
                pass
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    if a.prop not in RUNS or a.tier not in DEADLINE:
        ap.error('unknown property or tier')
    prop = a.prop
    n = a.runs or RUNS[prop][0 if a.tier == 'quick' else 1]
    base = tempfile.mkdtemp(prefix='sim%s_' % prop, dir=shm())
    os.chmod(base, 0o755)
    try:
        return check(prop, a, n, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def check(prop, a, n, base):
    t0 = time.time()
    s = Search(prop, a.tier, a.seed, n, base)
    s.run()
    t1 = time.time()
    code, rep, tried = 0, None, 0
    again = (0, 0, [])
    if s.failed:
        s.failed.sort(key=lambda x: x[0])
        i, g, bad, sc, trace = s.failed[0]
        want = props.cls(bad[0])
        print('%s: run %d of seed %s fails: %s' % (prop, i, a.seed,
                                                   bad[0]['msg']))
        try:
            small, tried = minimise(prop, g, sc, want, base,
                                    60 if a.tier == 'quick' else 240)
        except Exception as e:
            print('note: not minimised: %r' % e)
            small = sc
        rep, r = confirm(prop, a, base, i, g, small, sc, bad, trace)
        code = 1
    elif s.broken:
        print(s.broken[0])
        code = 2
    elif s.errors:
        i, err, sc = s.errors[0]
        print('run %d of seed %s gives no answer:\n%s' % (i, a.seed, err))
        code = 2
    elif s.runs < min(LEAST, n):
        print('only %d runs before the deadline' % s.runs)
        code = 2
    else:
        try:
            again = s.repeat(24 if a.tier == 'quick' else 64)
        except Broken as e:
            print(e)
            code = 2
        if again[2]:
            print('note: runs %r took another course when repeated' %
                  again[2][:8])
    wall = time.time() - t0
    search = max(t1 - t0, 1e-6)
    faults = dict((k[6:], v) for k, v in sorted(s.count.items())
                  if k.startswith('fault:'))
    ops = dict((k[3:], v) for k, v in sorted(s.count.items())
               if k.startswith('op:'))
    data = {
        'property': prop, 'tier': a.tier, 'seed': a.seed,
        'level': 'fault_enumeration' if prop in FAULTY else 'exploration',
        'wall_s': round(wall, 2),
        'violations': len(s.failed),
        'assumptions': ASSUME,
        'coverage': {
            'evaluations': s.execs,
            'distinct_nontrivial': s.nontrivial,
            'rule': RULE,
            'samples': sorted(s.samples, key=lambda x: x['run']),
            'scenarios': s.runs,
            'scenarios_planned': n,
            'stopped_at_deadline': s.late,
            'seeds_per_hour': int(s.runs * 3600 / search),
            'runs_per_hour': int(s.execs * 3600 / search),
            'simulated_seconds': round(s.now / 1e6, 1),
            'gimpy_lines_executed': s.count.get('steps', 0),
            'operations': s.count.get('ops', 0),
            'operations_by_kind': ops,
            'operations_aborted_by_faults': s.count.get('aborts', 0),
            'frames_rendered': s.count.get('frames', 0),
            'comparison_runs_of_single_operations':
                s.count.get('twins', 0),
            'seam_calls': s.count.get('seams', 0),
            'faults_injected': faults,
            'faults_total': sum(faults.values()),
            'context_switches': s.switches,
            'switches_at_shared_state': s.count.get('hotswitches', 0),
            'longest_operation_share_of_step_budget': s.load,
            'distinct_interleavings': len(s.scheds),
            'interleaving_measure': 'hash of all switches with their '
            'virtual times and of all seam calls and faults in order',
            'distinct_states': len(s.states),
            'state_measure': 'hash of operation, outcome, faults and the '
            'complete observable state of the graph after it',
            'runs_repeated_in_new_processes': again[0],
            'repeated_with_identical_history': again[1],
            'hash_seeds': GROUPS * (2 if prop in TWICE else 1),
            'real_components': REAL, 'stub_components': STUB,
            'minimisation_runs': tried,
            'known_findings_met': dict(s.seen_known),
        }}
    if not a.no_evidence:
        evidence(os.path.join(HERE, 'evidence', prop + '.json'), data)
    for k in s.known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    print('%s: %d scenarios, %d executions, %d distinct non-trivial, %d '
          'faults, %d interleavings, %.0f simulated s, load %.2f, %.1f s%s' % (
              prop, s.runs, s.execs, s.nontrivial, sum(faults.values()),
              len(s.scheds), s.now / 1e6, s.load, wall,
              ' (stopped at the deadline)' if s.late else ''))
    if code == 1:
        print('VIOLATION property=%s replay=%s' % (prop, rep))
    return code


FAULTY = ('C02', 'C10', 'C11', 'C13', 'C14')


def confirm(prop, a, base, i, g, small, full, bad, trace):
    '''Writes the replay file after running it in a new process.'''
    out = None
    patient = dict(small)
    if not full.get('impatient'):
        patient.pop('impatient', None)
    for sc in (patient, small, full):
        try:
            e = Evaluator(prop, base, 'c%d' % (sc is full), g)
            r1 = e.run({'scenario': sc})
            r2 = e.run({'scenario': sc})
            e.close()
        except Broken:
            continue
        v = [x for x in r1['bad'] if props.cls(x) == props.cls(bad[0])]
        if v:
            out = (sc, v[0], r1)
            break
    if out is None:
        print('note: the failure does not repeat in a new process; the '
              'unreduced scenario is recorded')
        out = (full, bad[0], {'trace': trace})
        r1 = r2 = out[2]
    sc, v, r = out
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(sc, sort_keys=True).encode()).hexdigest()
    path = os.path.join(d, '%s-%s-%d-%s.json' % (prop, a.seed, i, h[:8]))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'seed': a.seed, 'run': i,
                   'hashseed': g, 'violation': v, 'trace': r['trace'],
                   'exact': r1['trace'] == r2['trace'],
                   'generator': [prop, str(a.seed), i],
                   'scenario': sc}, f, indent=1)
        f.write('\n')
    print('minimised to %d operations, %d faults, %d schedule entries: %s' %
          (sum(len(c) for c in sc['clients']), len(sc.get('faults', [])),
           len(sc.get('schedule', [])), v['msg']))
    return path, r


if __name__ == '__main__':
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 2
    sys.exit(code)
