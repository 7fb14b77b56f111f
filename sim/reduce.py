'''
Delta debugging of failing scenarios.
'''
import copy
import time


def drop_ops(sc, c, idx):
    '''A copy without the operations idx of client c.'''
    idx = set(idx)
    s = copy.deepcopy(sc)
    s['clients'][c] = [o for i, o in enumerate(s['clients'][c])
                       if i not in idx]
    faults = []
    for f in s.get('faults', []):
        if f['c'] == c:
            f['op'] -= sum(1 for i in idx if i < f['op'])
            if f['op'] >= len(s['clients'][c]):
                continue
        faults.append(f)
    s['faults'] = faults
    return s


def drop_setup(sc, idx):
    idx = set(idx)
    s = copy.deepcopy(sc)
    s['setup'] = [o for i, o in enumerate(s['setup']) if i not in idx]
    return s


def drop_key(sc, key, idx):
    idx = set(idx)
    s = copy.deepcopy(sc)
    s[key] = [o for i, o in enumerate(s[key]) if i not in idx]
    return s


def oplists(sc):
    for c in range(len(sc['clients'])):
        yield ('clients', c)
    if 'setup' in sc:
        yield ('setup', None)


def getop(sc, where, i):
    return sc[where[0]][i] if where[1] is None else sc[where[0]][where[1]][i]


def chunks(n):
    '''Sets of positions to try to drop: large ones first.'''
    size = n
    while size >= 1:
        for k in range(0, n, size):
            yield list(range(k, min(n, k + size)))
        if size == 1:
            break
        size = (size + 1) // 2


def cand_clients(sc):
    live = [c for c, o in enumerate(sc['clients']) if o]
    if len(live) > 1:
        for c in live:
            yield drop_ops(sc, c, range(len(sc['clients'][c])))


def cand_faults(sc):
    n = len(sc.get('faults', []))
    if n > 1:
        yield drop_key(sc, 'faults', range(n))
    for i in range(n):
        yield drop_key(sc, 'faults', [i])
    for i in range(n):
        if sc['faults'][i].get('rep', 1) > 1:
            s = copy.deepcopy(sc)
            del s['faults'][i]['rep']
            yield s


def cand_misc(sc):
    if sc.get('grain') == 'instr':
        s = copy.deepcopy(sc)
        s['grain'] = 'line'
        yield s
    for k, v in sc.get('libs', {}).items():
        if not v:
            s = copy.deepcopy(sc)
            s['libs'][k] = True
            yield s
    if sc.get('schedule') and sum(1 for c in sc['clients'] if c) <= 1:
        s = copy.deepcopy(sc)
        s['schedule'] = []
        s.pop('hot', None)
        yield s


def cand_schedule(sc):
    for idx in chunks(len(sc.get('schedule', []))):
        yield drop_key(sc, 'schedule', idx)
    for idx in chunks(len(sc.get('hot', []))):
        yield drop_key(sc, 'hot', idx)


def cand_ops(sc):
    for c, ops in enumerate(sc['clients']):
        for idx in chunks(len(ops)):
            if len(idx) < len(ops):
                yield drop_ops(sc, c, idx)
    if 'setup' in sc:
        for idx in chunks(len(sc['setup'])):
            yield drop_setup(sc, idx)


OPTIONAL = ('display', 'label', 'component', 'attrs', 'reverse', 't')


def cand_parts(sc):
    for where in oplists(sc):
        n = len(sc['setup'] if where[1] is None else
                sc['clients'][where[1]])
        for i in range(n):
            o = getop(sc, where, i)
            if o['op'] == 'new' and o.get('edges'):
                for idx in chunks(len(o['edges'])):
                    s = copy.deepcopy(sc)
                    p = getop(s, where, i)
                    p['edges'] = [e for k, e in enumerate(p['edges'])
                                  if k not in idx]
                    yield s
            if o['op'] == 'new' and o.get('nodes'):
                for idx in chunks(len(o['nodes'])):
                    s = copy.deepcopy(sc)
                    p = getop(s, where, i)
                    gone = [repr(o['nodes'][k][0]) for k in idx]
                    p['nodes'] = [x for x in p['nodes']
                                  if repr(x[0]) not in gone]
                    p['edges'] = [e for e in p.get('edges', [])
                                  if repr(e[0]) not in gone and
                                  repr(e[1]) not in gone]
                    yield s
            for key in OPTIONAL:
                if key in o:
                    s = copy.deepcopy(sc)
                    p = getop(s, where, i)
                    if key == 'attrs' and isinstance(p[key], dict):
                        if not p[key]:
                            continue
                        p[key] = {}
                    else:
                        del p[key]
                    yield s
            for key in ('nodes', 'edges') if o['op'] == 'new' else ():
                for k, x in enumerate(o.get(key) or []):
                    for a in list(x[-1]) if isinstance(x[-1], dict) else []:
                        s = copy.deepcopy(sc)
                        del getop(s, where, i)[key][k][-1][a]
                        yield s


PASSES = (cand_clients, cand_faults, cand_misc, cand_ops, cand_schedule,
          cand_parts)


def reduce(sc, batch, width, deadline):
    '''
    batch(list of scenarios) returns the index of the first one that still
    fails, or None.
    '''
    sc = copy.deepcopy(sc)
    progress = True
    while progress and time.time() < deadline:
        progress = False
        for p in PASSES:
            again = True
            skip = 0
            while again and time.time() < deadline:
                again = False
                pos = 0
                todo = []
                gen = p(sc)
                for _ in range(skip):
                    if next(gen, None) is None:
                        break
                pos = skip
                for cand in gen:
                    todo.append(cand)
                    if len(todo) == width:
                        k = batch(todo)
                        if k is not None:
                            sc = todo[k]
                            again = progress = True
                            # what was tried in vain is not tried at once
                            skip = pos + k if p is not cand_clients else 0
                            break
                        pos += len(todo)
                        todo = []
                        if time.time() > deadline:
                            break
                else:
                    if todo:
                        k = batch(todo)
                        if k is not None:
                            sc = todo[k]
                            again = progress = True
                            skip = pos + k if p is not cand_clients else 0
                if not again and skip:
                    # start over once from the beginning of the pass
                    skip = 0
                    if p is not cand_parts:
                        again = False
    return sc
