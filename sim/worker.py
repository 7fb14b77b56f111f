'''
A worker process: imports the code under test once, then runs every simulated
execution in a pristine fork of itself.
'''
import faulthandler
import json
import os
import select
import shutil
import signal
import sys
import traceback

TIMEOUT = 100


def child(sc, path, wfd):
    from . import kernel, runner, world
    res = None
    try:
        world.enter_scratch(path)
        kernel.install_monitor(world.repo_src + os.sep, sc.get('grain',
                                                              'line'))
        world.environment(sc)
        if sc.get('env') and sc.get('idx', 0) % 2 and 'seed' in sc:
            # a process that has used the library before
            from . import gen
            runner.Run(gen.make(sc['prop'], sc['seed'],
                                sc['idx'] + 10000000)).execute()
            world.used()
        res = runner.Run(sc).execute()
    except BaseException:
        res = {'error': traceback.format_exc(), 'violations': [],
               'log': [], 'count': {}, 'now': 0, 'switches': 0,
               'trace': '', 'sched': '', 'states': []}
    data = json.dumps(res).encode()
    n = 0
    while n < len(data):
        n += world.real.os_write(wfd, data[n:])
    os._exit(0)


def once(sc, base, k):
    '''One execution in a fork.'''
    path = os.path.join(base, 'r%d' % k)
    os.mkdir(path)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        child(sc, path, w)
    os.close(w)
    data = []
    late = False
    while True:
        ready, _, _ = select.select([r], [], [], TIMEOUT)
        if not ready:
            late = True
            os.kill(pid, signal.SIGKILL)
            break
        x = os.read(r, 1 << 16)
        if not x:
            break
        data.append(x)
    os.close(r)
    os.waitpid(pid, 0)
    shutil.rmtree(path, ignore_errors=True)
    try:
        return json.loads(b''.join(data))
    except ValueError:
        return {'error': 'timeout' if late else 'the run died',
                'violations': [], 'log': [], 'count': {}, 'now': 0,
                'switches': 0, 'trace': '', 'sched': '', 'states': []}


def execute(sc, base, k):
    '''A scenario, with its solo variants if it has any.'''
    sc = json.loads(json.dumps(sc))
    res = once(sc, base, k)
    if res['error'] == 'timeout' and not sc.get('impatient'):
        # lines that take ever longer: see whether it ends at all
        sc['impatient'] = True
        res = once(sc, base, k)
        res['impatient'] = True
    res['runs'] = 1
    if sc.get('solo') and not res['error']:
        for c in range(len(sc['clients'])):
            if not sc['clients'][c]:
                continue
            alone = dict(sc)
            alone['only'] = c
            alone['schedule'] = []
            alone.pop('hot', None)
            r = once(alone, base, k)
            res['runs'] += 1
            if r['error']:
                res['error'] = r['error']
                break
            a = [x for x in res['log'] if x[0] == c]
            b = r['log']
            if a == b:
                continue
            n = 0
            while n < min(len(a), len(b)) and a[n] == b[n]:
                n += 1
            x = a[n] if n < len(a) else None
            y = b[n] if n < len(b) else None
            res['violations'].insert(0, {
                'tag': 'solo', 'client': c, 'op': n,
                'name': (x or y)[2], 'after': False,
                'msg': 'client %d operation %d (%s) gives %s, alone %s' % (
                    c, n, (x or y)[2], x and x[3:], y and y[3:])})
    return res


def main():
    src, base = sys.argv[1], sys.argv[2]
    faulthandler.enable()
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    os.makedirs(base, exist_ok=True)
    os.chdir(base)
    from . import gen, hot, kernel, props, runner, world
    world.install(src)
    kernel.HOT.update(hot.find([m for n, m in sorted(sys.modules.items())
                                if n.split('.')[0] == 'gimpy']))
    world.real.stdout = sys.stderr
    out.write('ready\n')
    out.flush()
    k = 0
    while True:
        line = sys.stdin.buffer.readline()
        if not line:
            break
        req = json.loads(line)
        k += 1
        if 'gen' in req:
            prop, seed, idx = req['gen']
            sc = gen.make(prop, seed, idx)
            if 'env' in req:
                sc['env'] = req['env']
            res = execute(sc, base, k)
            bad = props.judge(prop, res)
            if res.get('impatient'):
                sc['impatient'] = True
            res['idx'] = idx
            res['nops'] = sum(len(c) for c in sc['clients'])
            res['nclients'] = sum(1 for c in sc['clients'] if c)
            if bad or res['error'] or req.get('want'):
                sc.pop('env', None)
                res['scenario'] = sc
        else:
            sc = dict(req['scenario'])
            if 'env' in req:
                sc['env'] = req['env']
            res = execute(sc, base, k)
        out.write(json.dumps(res) + '\n')
        out.flush()
    shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    main()
