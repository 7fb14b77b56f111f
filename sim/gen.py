'''
Seeded generators: (property, seed, index) -> scenario.  A scenario is plain
data: libraries present, clients with their operations, faults, schedule.
'''
import hashlib
import json
import random

from .model import enc

ALL_MODES = ['file', 'PIL', 'matplotlib', 'xdot', 'file', 'PIL', 'bogus']
LAYOUTS = ['dot', 'neato', 'fdp', 'circo', 'twopi', 'sfdp']
FORMATS = ['png', 'svg', 'pdf', 'gif']

# fault kinds by site; (site, kind, weight)
FATAL = [('mkstemp', 'emfile', 2), ('mkstemp', 'enospc', 2),
         ('mkstemp', 'eacces', 1), ('open', 'emfile', 2),
         ('open', 'enospc', 1), ('open', 'eacces', 1), ('write', 'enospc', 4),
         ('write', 'eio', 2), ('close', 'enospc', 2), ('close', 'eio', 1),
         ('imopen', 'eio', 2), ('imopen', 'emfile', 1), ('show', 'ctrlc', 2),
         ('wait', 'exit1', 5), ('wait', 'signal', 2), ('wait', 'ctrlc', 4),
         ('click', 'key', 3), ('click', 'close', 3), ('click', 'ctrlc', 3),
         ('tex', 'ctrlc', 2), ('texwait', 'ctrlc', 2)]
MIXED = [('spawn', 'emfile', 2), ('spawn', 'enomem', 2),
         ('wait', 'garbage', 2), ('tex', 'error', 3),
         ('texspawn', 'missing', 2), ('texspawn', 'emfile', 1),
         ('texwait', 'exit1', 3), ('texwait', 'signal', 1)]
MILD = [('spawn', 'missing', 4), ('spawn', 'eacces', 2),
        ('wait', 'stderr', 2), ('wait', 'slow', 2), ('click', 'timeout', 1),
        ('click', 'mouse', 1)]
SITES = {'file': ('mkstemp', 'open', 'write', 'close', 'spawn', 'wait'),
         'PIL': ('mkstemp', 'write', 'close', 'spawn', 'wait', 'imopen',
                 'show'),
         'matplotlib': ('mkstemp', 'write', 'close', 'spawn', 'wait',
                        'imopen', 'click', 'show'),
         'dot2tex': ('tex', 'texspawn', 'texwait', 'open', 'write', 'close'),
         'xdot': ('show',)}


def weighted(rng, items):
    t = sum(x[-1] for x in items)
    k = rng.uniform(0, t)
    for x in items:
        k -= x[-1]
        if k <= 0:
            return x
    return items[-1]


def chance(rng, p):
    return rng.random() < p


STYLE = []      # the one kind of names all graphs of a scenario use


# texts with a meaning in the DOT language
ODD = ['a"b', '"q" and "r"', '5"', 'back\\', 'in\\ner', '\\"', '<x', '<a> <b>',
       'x>', "it's", 'tab\there', 'semi;colon', '{b}', '[c]', 'a=b', 'x->y',
       '#1', '// no', '/* c */', 'a&b', '100%', 'a+b', 'x--y', '"', '\\', '<',
       '><', 'a\\\\', '"quoted"', '"with \\" in it"', '<i>html</i>', 'a,b;c',
       '"half', 'half "', '\\N', '|', '<<x>', '1e-05', '-', '.', '$x$', 'a@b']


def names(rng, n, simple=False):
    '''n distinct node names.'''
    style = STYLE[0] if STYLE else rng.choice(
        ['int', 'int', 'int', 'big', 'str', 'str', 'sp', 'tuple', 'mixed',
         'neg', 'word', 'flow', 'odd'])
    if simple and style in ('tuple', 'mixed'):
        style = 'str'
    if style == 'int':
        k = rng.choice([0, 0, 1])
        r = list(range(k, n + k))
    elif style == 'big':
        r = [1000 + 37 * i for i in range(n)]
    elif style == 'neg':
        r = [i - n // 2 for i in range(n)]
    elif style == 'str':
        r = ['n%d' % i for i in range(n)]
    elif style == 'sp':
        r = ['node %d' % i for i in range(n)]
    elif style == 'tuple':
        r = [(i // 3, i % 3) for i in range(n)]
    elif style == 'flow':
        r = (['s', 't'] + list('abcdefghijklmnopqr'))[:n]
        r += ['q%d' % i for i in range(n - len(r))]
    elif style == 'odd':
        words = list(ODD)
        rng.shuffle(words)
        r = words[:n] + ['o%d' % i for i in range(n - len(words))]
    elif style == 'word':
        words = ['alpha', 'Beta_2', 'x1', 'nodes', 'edge 1', 'a b c',
                 '12', '3.5', 'B2B', '', 'e', 'D_', '_u', '007', 'Graph7',
                 '4x', 'two\nlines', '-5', '(p)', '1.', '5 6', 'x,y',
                 '\xe9t\xe9', '\u8282\u70b9', 'na\xefve_1']
        rng.shuffle(words)
        r = words[:n] + ['w%d' % i for i in range(n - len(words))]
    else:
        r = [i if i % 2 else 'v%d' % i for i in range(n)]
        if chance(rng, 0.3):
            r = [x if i % 3 else i + 0.5 for i, x in enumerate(r)]
    if chance(rng, 0.4):
        rng.shuffle(r)
    return r


def size(rng, lo=1, hi=8):
    k = rng.random()
    if hi > 10:
        return rng.randint(10, hi)
    if k < 0.12:
        return rng.randint(lo, min(3, hi))
    if k < 0.9:
        return rng.randint(min(3, hi), min(7, hi))
    return rng.randint(min(6, hi), hi)


class Ctx(object):
    '''What the generator knows about a graph of a client.'''
    def __init__(self, slot, kind, names, shape):
        self.slot, self.kind, self.names, self.shape = \
            slot, kind, names, shape
        self.edges = []
        self.fresh = 0
        self.ends = None        # where a network begins and ends

    def terminals(self, rng):
        if self.ends and chance(rng, 0.7):
            s, t = self.ends
            if s in self.names and t in self.names:
                return {'s': enc(s), 't': enc(t)}
        return {'s': self.pick(rng), 't': self.pick(rng)}

    def pick(self, rng):
        return enc(rng.choice(self.names)) if self.names else 0


def label(rng):
    if chance(rng, 0.12):
        return rng.choice(ODD + ['t:5', 'red:blue', '12:30', 'a:b:c', ':', 'a:',
                                 '<p>x|<q>y', '<p>x|<q>', 'http://x/y?z=1&w',
                                 'line\\lnext\\l', 'C:\\dir\\'])
    return rng.choice(['a', 'lab el', '12', '3.5', 'x_1', 'Arc 7',
                       'two\nlines', '(1,2)', 'p, q', '5/10', '0', 'inf',
                       '-3', '', 'x = 3', '1e5', 'M1', 'end\n',
                       'Gr\xf6\xdfe', '\xfc', '\u8282\u70b9 3'])


def extras(rng, p=0.15):
    '''User attributes no algorithm has any business with.'''
    a = {}
    if chance(rng, p):
        a['shape'] = rng.choice(['box', 'circle', 'diamond'])
    if chance(rng, p):
        a['x'] = rng.randint(-5, 5)
    if chance(rng, p):
        a['tooltip'] = label(rng)
    if chance(rng, p / 3):
        a.update(rng.choice([{'fixedsize': True}, {'penwidth': 1.5},
                             {'note': None}, {'weight': -2},
                             {'unit cost': 3, 'x-y': 'a b'}]))
    return a


def graph_op(rng, slot, shape, hi=8, mode=None, simple=False):
    '''The operation that makes a graph, and its context.'''
    n = size(rng, 1 if shape not in ('net', 'mcf') else 2, hi)
    if shape in ('und', 'dig') and chance(rng, 0.015):
        n = 0
    layered = shape in ('net', 'mcf') and hi >= 6 and chance(rng, 0.4)
    if layered and hi < 10:
        n = rng.randint(6, hi + (shape == 'net'))
    nm = names(rng, n, simple)
    if shape == 'mcf' and chance(rng, 0.96):
        nm = [x for x in nm if x not in ('s', 't')] or ['a']
        n = len(nm)
    kind = 'graph' if shape == 'und' else 'digraph'
    ctx = Ctx(slot, kind, nm, shape)
    density = rng.choice([0.15, 0.3, 0.3, 0.5, 0.5, 0.7, 1.0])
    cmax = rng.choice([0, 1, 3, 3, 10, 10, 10, 100, 100, 30000])
    kmax = rng.choice([1, 2, 5, 5, 10, 10, 10, 30, 30, 20000])
    negative = chance(rng, 0.3) and shape in ('dig', 'dag', 'mcf')
    missing = chance(rng, 0.12) and shape == 'net'
    zero = chance(rng, 0.25)
    unit = 0.25 if shape in ('und', 'dig', 'dag') and chance(rng, 0.1) else 1
    # round numbers, which meet the bounds the code works with
    if n <= 10 and chance(rng, 0.05):
        unit = rng.choice([1000, 2500, 5000, 10000])
        cmax = min(cmax, 5)
    kunit = 1
    if n <= 10 and shape in ('net', 'mcf') and chance(rng, 0.15):
        kunit = rng.choice([1000, 2500, 5000, 10000, 10000])
        kmax = rng.choice([2, 2, 3, 5])
    if n > 10 and shape == 'mcf':
        # the number of cycles cancelled grows with these
        cmax, kmax = min(cmax, 100), min(kmax, 30)
    edges, have = [], set()

    def add(u, v):
        if (u, v) in have:
            return
        if shape in ('und', 'net', 'mcf') and (v, u) in have:
            return
        have.add((u, v))
        a = {}
        lo = -cmax // 2 if negative else 0
        if shape == 'und' and chance(rng, 0.05):
            lo = -3
        a['cost'] = (rng.randint(lo, cmax) if cmax else 0) * unit
        if shape in ('net', 'mcf') or chance(rng, 0.3):
            if not (missing and chance(rng, 0.3)):
                a['capacity'] = (0 if zero and chance(rng, 0.3) else
                                 rng.randint(1, kmax) * kunit)
        a.update(extras(rng, 0.06))
        if chance(rng, 0.15):
            a['label'] = label(rng)
        edges.append([enc(u), enc(v), a])

    order = list(nm)
    if layered and n > 5:
        pass
    elif shape == 'mcf' or (shape == 'net' and chance(rng, 0.5)) or \
            (shape == 'und' and chance(rng, 0.4)):
        # connected: a random tree first
        perm = list(nm)
        rng.shuffle(perm)
        for i in range(1, n):
            u, v = perm[rng.randint(0, i - 1)], perm[i]
            add(*((u, v) if chance(rng, 0.6) else (v, u)))
    if shape == 'dag':
        rng.shuffle(order)
    pairs = [(u, v) for i, u in enumerate(order) for v in order[i + 1:]]
    if chance(rng, 0.7):
        rng.shuffle(pairs)
    limit = 18 if n > 7 else 30
    if n > 10:
        limit = 3 * n
        density = min(density, rng.choice([0.12, 0.2, 0.3]))
    turn = 0.5
    if layered and n > 5:
        # layers between the ends: paths block each other and flow has to
        # be sent back
        mid = nm[1:-1]
        k = rng.choice([2, 2, 2, 3]) if len(mid) > 5 else 2
        cuts = [len(mid) * i // k for i in range(k + 1)]
        lay = [nm[:1]] + [mid[a:b] for a, b in zip(cuts, cuts[1:])] + [
            nm[-1:]]
        ctx.ends = nm[0], nm[-1]
        p = rng.choice([0.5, 0.7, 0.7, 1])
        more = [(u, v) for a, b in zip(lay, lay[1:]) for u in a for v in b]
        if chance(rng, 0.5):
            rng.shuffle(more)
        for u, v in more:
            if u == nm[0] or v == nm[-1] or chance(rng, p):
                add(u, v)
        density = rng.choice([0, 0, 0.05, 0.1])
        limit = 40
        turn = 0.3
    elif shape in ('net', 'mcf') and chance(rng, 0.3):
        # most arcs lead from the first nodes to the last ones, so that a
        # flow between them takes many paths that block each other
        turn = rng.choice([0, 0.05, 0.15])
        if n <= 10:
            density = rng.choice([0.4, 0.55, 0.7])
        ctx.ends = nm[0], nm[-1]
    for u, v in pairs:
        if len(edges) >= limit:
            break
        if not chance(rng, density):
            continue
        if shape != 'dag' and chance(rng, turn):
            u, v = v, u
        if ctx.ends == (u, v) and chance(rng, 0.7):
            continue
        add(u, v)
        if shape == 'dig' and chance(rng, 0.3):
            add(v, u)
    if shape != 'dag' and chance(rng, 0.1):
        p = rng.choice([0.2, 0.4, 1])
        for u in nm:
            if chance(rng, p):
                add(u, u)
    demand = {}
    if shape in ('mcf',):
        demand = dict((repr(x), 0) for x in nm)
        how = rng.random()
        if how < 0.1:
            pass
        elif how < 0.75 and edges:
            # demands some flow meets: feasible
            for u, v, a in edges:
                cap = a.get('capacity', 10)
                f = rng.randint(0, cap) if cap > 0 and chance(
                    rng, 0.5) else 0
                from .model import dec
                demand[repr(dec(u))] += f
                demand[repr(dec(v))] -= f
        else:
            for _ in range(rng.randint(1, 3)):
                u, v = rng.choice(nm), rng.choice(nm)
                if ctx.ends and chance(rng, 0.7):
                    u, v = ctx.ends
                k = rng.randint(1, kmax) * kunit
                demand[repr(u)] += k
                demand[repr(v)] -= k
    nodes = []
    for x in nm:
        a = extras(rng, 0.08)
        if demand:
            a['demand'] = demand[repr(x)]
        elif chance(rng, 0.05):
            a['demand'] = rng.randint(-4, 4)
        if chance(rng, 0.1):
            a['label'] = label(rng)
        nodes.append([enc(x), a])
    if shape in ('dig', 'und') and chance(rng, 0.1):
        nodes = nodes[:rng.randint(0, n)]      # the edges make the others
    attrs = {}
    if mode is not None:
        attrs['display'] = mode
    if chance(rng, 0.3):
        attrs['layout'] = rng.choice(LAYOUTS)
    if chance(rng, 0.25):
        attrs.update(rng.choice([
            {'splines': 'true'}, {'K': 1.5}, {'rankdir': 'LR'},
            {'label': label(rng)}, {'size': '7,5'}, {'overlap': 'scale'},
            {'splines': 'true', 'K': 2, 'bgcolor': 'white'},
            {'name': 'My_graph'}, {'ratio': 'fill', 'fontsize': 10},
            {'name': rng.choice(['my graph', 'G-1', '2nd', 'a"b', 'x:y']),
             'size': None},
            {'Damping': rng.choice([1e-05, -3, True]), 'splines': False},
            {'pad': (1, 2), 'bgcolor': 'red:blue'}]))
    o = {'op': 'new', 'g': slot, 'kind': kind, 'attrs': attrs,
         'nodes': nodes, 'edges': edges}
    if kind == 'graph' and chance(rng, 0.2):
        o['default_type'] = True
    ctx.edges = [(e[0], e[1]) for e in edges]
    return o, ctx


def with_display(rng, o, p):
    if chance(rng, p):
        o['display'] = rng.choice(ALL_MODES + ['off'])
    return o


def algo_op(rng, ctx, pd, focus=None):
    '''An algorithm that suits the graph.'''
    s = ctx.shape
    und = ctx.kind == 'graph'
    opts = [('search', 4), ('dfs', 1), ('bfs', 1)]
    if len(ctx.names) < 10:
        opts.append(('hamiltonian', 0.7))
    if und:
        opts += [('prim', 2), ('kruskal', 2), ('components', 2),
                 ('searchprim', 1.5), ('fifo', 0.7), ('diameter', 1)]
    else:
        opts += [('strong', 1.5), ('fifo', 1.5), ('floyd', 1),
                 ('neg_cycle', 0.7), ('page_rank', 0.5), ('kosaraju', 0.7)]
    if s == 'dag':
        opts += [('acyclic', 4)]
    if s in ('net', 'mcf'):
        opts += [('max_flow', 2.5), ('preflow', 2.5)]
    if s == 'mcf':
        opts += [('mincost', 4)]
    if focus:
        f = [x for x in opts if x[0] in focus]
        if f and chance(rng, 0.7):
            opts = f
    what = weighted(rng, opts)[0]
    g = ctx.slot
    P = lambda: ctx.pick(rng)
    if what == 'searchprim':
        o = {'op': 'search', 'g': g, 'algo': 'Prim', 's': P()}
    elif what == 'search':
        o = {'op': 'search', 'g': g, 's': P(), 'algo': rng.choice(
            ['DFS', 'BFS', 'Dijkstra', 'UnweightedSPT', 'BFS', 'Dijkstra'])}
        if focus and 'searchonly' in focus:
            o['algo'] = focus['searchonly'](rng)
        if chance(rng, 0.4):
            o['t'] = P()
        if chance(rng, 0.25) and not und:
            o['reverse'] = True
        if chance(rng, 0.15):
            o['component'] = rng.choice([0, 1, 3])
        if chance(rng, 0.1):
            o['q'] = rng.choice([1, 'p'])
    elif what in ('dfs',):
        o = {'op': 'dfs', 'g': g, 's': P()}
        if chance(rng, 0.15):
            o['count'] = [rng.randint(-7, 9), rng.randint(-7, 9)]
        if chance(rng, 0.4):
            o['bare'] = 1
        if chance(rng, 0.5):
            o['whole'] = True
        o['component'] = rng.choice([0, 1, 7])
    elif what == 'bfs':
        o = {'op': 'bfs', 'g': g, 's': P()}
        if chance(rng, 0.3):
            o['component'] = rng.choice([0, 2])
    elif what == 'hamiltonian':
        o = {'op': 'hamiltonian', 'g': g, 's': P()}
        if chance(rng, 0.6):
            o['bare'] = 1
        if chance(rng, 0.6) and len(ctx.names) > 1:
            o['t'] = enc(rng.choice([n for n in ctx.names
                                     if enc(n) != o['s']]))
    elif what == 'strong':
        o = {'op': 'strong', 'g': g}
        if chance(rng, 0.3):
            o['tarjan'] = True
        return o
    elif what == 'acyclic':
        o = {'op': 'acyclic', 'g': g, 's': P()}
        if chance(rng, 0.5):
            o['t'] = P()
        return o
    elif what in ('fifo',):
        return {'op': what, 'g': g, 's': P()}
    elif what in ('floyd', 'neg_cycle', 'diameter'):
        return {'op': what, 'g': g}
    elif what == 'page_rank':
        o = {'op': 'page_rank', 'g': g}
        if chance(rng, 0.5):
            o['damping'] = rng.choice([0.5, 0.85, 0.9])
            o['tol'] = rng.choice([1e-3, 1e-6, 1e-8])
        return o
    elif what in ('prim',):
        o = {'op': what, 'g': g, 's': P()}
        if chance(rng, 0.1):
            o['q'] = 1
    elif what in ('kruskal',):
        o = {'op': what, 'g': g}
        if chance(rng, 0.15):
            o['sets'] = chance(rng, 0.5)
    elif what == 'max_flow':
        o = dict({'op': what, 'g': g}, **ctx.terminals(rng))
        if chance(rng, 0.6):
            o['algo'] = rng.choice(['DFS', 'BFS'])
    elif what == 'preflow':
        o = dict({'op': what, 'g': g}, **ctx.terminals(rng))
        if chance(rng, 0.8):
            o['algo'] = rng.choice(['FIFO', 'SAP', 'HighestLabel'])
    elif what == 'mincost':
        o = {'op': what, 'g': g}
        if chance(rng, 0.75):
            o['algo'] = rng.choice(['simplex', 'simplex',
                                    'cycle_canceling'])
        if chance(rng, 0.5):
            o['pivot'] = rng.choice(['dantzig', 'first_eligible'])
        if chance(rng, 0.4):
            o['root'] = P()
    else:
        o = {'op': what, 'g': g}
    return with_display(rng, o, pd)


def edit_op(rng, ctx, keep=True):
    '''An edit; keep: the graph stays fit for its algorithms.'''
    g, s = ctx.slot, ctx.shape
    und = ctx.kind == 'graph'
    what = weighted(rng, [
        ('add_edge', 4), ('del_edge', 3), ('add_node', 2), ('del_node', 2),
        ('set_edge', 3), ('set_node', 2), ('cluster', 0.8),
        ('dup_node', 0.7), ('dup_edge', 0.8), ('no_edge', 0.7),
        ('no_node', 0.6), ('layout', 0.3)])[0]
    P = lambda: ctx.pick(rng)

    def cost():
        a = {'cost': rng.randint(0, 10)}
        if s in ('net', 'mcf') or chance(rng, 0.3):
            a['capacity'] = rng.randint(0, 10)
        a.update(extras(rng, 0.05))
        return a
    if what == 'add_edge':
        u, v = P(), P()
        if u == v and not chance(rng, 0.15):
            v = P()
        if u == v and keep and s == 'dag':
            return {'op': 'query', 'g': g, 'probe': [u]}
        if keep and s in ('net', 'mcf') and ([v, u] in [
                list(x) for x in ctx.edges]):
            return {'op': 'del_edge', 'g': g, 'u': v, 'v': u}
        if keep and s == 'dag':
            nm = [enc(x) for x in ctx.names]
            if nm.index(u) > nm.index(v):
                u, v = v, u
        if chance(rng, 0.1) and not keep:
            v = enc(new_name(rng, ctx))
        ctx.edges.append((u, v))
        return {'op': 'add_edge', 'g': g, 'u': u, 'v': v, 'attrs': cost()}
    if what in ('del_edge', 'dup_edge', 'set_edge'):
        if not ctx.edges:
            return {'op': 'query', 'g': g, 'probe': [P()]}
        u, v = rng.choice(ctx.edges)
        if und and chance(rng, 0.5):
            u, v = v, u
        if what == 'del_edge':
            if chance(rng, 0.8):
                ctx.edges = [x for x in ctx.edges if tuple(x) != (u, v) and
                             (not und or tuple(x) != (v, u))]
            return {'op': 'del_edge', 'g': g, 'u': u, 'v': v}
        if what == 'dup_edge':
            return {'op': 'add_edge', 'g': g, 'u': u, 'v': v,
                    'attrs': cost() if chance(rng, 0.6) else {}}
        k = rng.choice(['cost', 'cost', 'capacity', 'label', 'x'])
        val = label(rng) if k == 'label' else rng.randint(0, 12)
        return {'op': 'set_edge', 'g': g, 'u': u, 'v': v, 'k': k,
                'val': val}
    if what == 'add_node':
        n = new_name(rng, ctx)
        ctx.names.append(n)
        a = extras(rng, 0.2)
        if s == 'mcf':
            a['demand'] = 0
        return {'op': 'add_node', 'g': g, 'n': enc(n), 'attrs': a}
    if what == 'dup_node':
        return {'op': 'add_node', 'g': g, 'n': P(),
                'attrs': {'x': 99, 'label': 'dup'}}
    if what == 'del_node':
        n = P()
        if len(ctx.names) > 2 and chance(rng, 0.85):
            ctx.names = [x for x in ctx.names if enc(x) != n]
            ctx.edges = [e for e in ctx.edges if n not in e]
        return {'op': 'del_node', 'g': g, 'n': n}
    if what == 'no_node':
        return {'op': 'del_node', 'g': g, 'n': enc(new_name(rng, ctx))}
    if what == 'no_edge':
        return {'op': 'del_edge', 'g': g, 'u': P(),
                'v': enc(new_name(rng, ctx)) if chance(rng, 0.5) else P()}
    if what == 'set_node':
        k = rng.choice(['x', 'label', 'cost', 'note'])
        return {'op': 'set_node', 'g': g, 'n': P(), 'k': k,
                'val': label(rng) if k == 'label' else rng.randint(-9, 9)}
    if what == 'cluster':
        return cluster_op(rng, ctx)
    return {'op': 'layout', 'g': g, 'val': rng.choice(LAYOUTS + ['dot2tex'])}


def tweak_op(rng, ctx):
    '''A change of the data the algorithms of this graph work on.'''
    k = rng.random()
    if ctx.shape == 'mcf' and k < 0.25 and len(ctx.names) > 1:
        u, v = rng.sample(ctx.names, 2)
        return {'op': 'shift_demand', 'g': ctx.slot, 'u': enc(u),
                'v': enc(v), 'k': rng.choice([1, 1, 2, 5])}
    if k < 0.9 and ctx.edges:
        u, v = rng.choice(ctx.edges)
        what = 'cost'
        if ctx.shape in ('net', 'mcf') and chance(rng, 0.65):
            what = 'capacity'
        return {'op': 'set_edge', 'g': ctx.slot, 'u': u, 'v': v, 'k': what,
                'val': rng.choice([0, 1, 2, 3, 5, 9, 12])}
    return edit_op(rng, ctx)


def new_name(rng, ctx):
    ctx.fresh += 1
    return rng.choice([2000 + ctx.fresh, 'new%d' % ctx.fresh,
                       'new node %d' % ctx.fresh])


def cluster_op(rng, ctx):
    k = rng.randint(0, min(3, len(ctx.names)))
    o = {'op': 'cluster', 'g': ctx.slot,
         'nodes': [enc(x) for x in rng.sample(ctx.names, k)]}
    if chance(rng, 0.6):
        a = {}
        if chance(rng, 0.5):
            a['name'] = (rng.choice(['k%d', 'k%d', 'c%d', 'left side %d'])
                         % rng.randint(0, 3))
        if chance(rng, 0.6):
            a['label'] = label(rng)
        if chance(rng, 0.4):
            a['color'] = rng.choice(['blue', 'red', 'light blue'])
        if chance(rng, 0.1):
            a['penwidth'] = rng.choice([2, 1.5])
        o['cattrs'] = a
    if chance(rng, 0.5):
        o['nattrs'] = rng.choice([{'color': 'green'}, {'shape': 'box'},
                                  {'style': 'filled', 'color': 'gray'}, {},
                                  {'style': 'rounded,filled', 'height': 1}])
    if chance(rng, 0.2):
        o['share'] = 1
    elif chance(rng, 0.3):
        o['scribble'] = rng.choice([1, 3])
    return o


def query_op(rng, ctx):
    g = ctx.slot
    k = rng.random()
    if k < 0.6:
        probe = [ctx.pick(rng) for _ in range(rng.randint(1, 3))]
        if chance(rng, 0.3):
            probe.append('absent')
        return {'op': 'query', 'g': g, 'probe': probe,
                'pairs': [[ctx.pick(rng), ctx.pick(rng)]
                          for _ in range(rng.randint(0, 3))]}
    if k < 0.8 and ctx.edges:
        pairs = []
        for _ in range(rng.randint(1, 4)):
            u, v = rng.choice(ctx.edges)
            if ctx.kind == 'graph' and chance(rng, 0.5):
                u, v = v, u
            pairs.append([u, v])
        return {'op': 'edge_attrs', 'g': g, 'pairs': pairs}
    if k < 0.9:
        return {'op': 'to_string', 'g': g}
    if ctx.kind == 'digraph':
        return {'op': rng.choice(['page_rank', 'floyd', 'neg_cycle',
                                  'residual', 'print_flow']), 'g': g}
    return {'op': 'to_string', 'g': g}


def render_op(rng, ctx, tag, nodes=True):
    g = ctx.slot
    k = rng.random()
    if k < 0.6:
        o = {'op': 'display', 'g': g}
        if nodes and chance(rng, 0.4) and ctx.names:
            o['highlight'] = [enc(x) for x in rng.sample(
                ctx.names, rng.randint(1, min(3, len(ctx.names))))]
            if chance(rng, 0.3):
                o['as_node'] = True
        if chance(rng, 0.4):
            o['basename'] = 'pic%s%d' % (tag, rng.randint(0, 2))
        if chance(rng, 0.4):
            o['format'] = rng.choice(FORMATS)
        if chance(rng, 0.2):
            o['wait_for_click'] = False
            o['pause'] = chance(rng, 0.5)
        return o
    if k < 0.85:
        o = {'op': 'write', 'g': g, 'file': 'out%s%d' % (
            tag, rng.randint(0, 2)), 'format': rng.choice(
                FORMATS + ['dot', 'dot'])}
        if chance(rng, 0.5):
            o['layout'] = rng.choice(LAYOUTS)
        return o
    return {'op': 'create', 'g': g, 'layout': rng.choice(LAYOUTS),
            'format': rng.choice(FORMATS)}


# ------------------------------------------------------------------- trees
def tree_ops(rng, slot, k, pd, mode=None, expr=None):
    '''A history of a tree.'''
    if expr is None:
        expr = chance(rng, 0.35)
    if expr:
        return expr_ops(rng, slot, pd, mode)
    binary = chance(rng, 0.65)
    attrs = {'display': mode} if mode else {}
    if chance(rng, 0.2):
        attrs['layout'] = rng.choice(['dot', 'dot', 'twopi', 'neato'])
    ops = [{'op': 'new', 'g': slot, 'kind': 'bintree' if binary else 'tree',
            'attrs': attrs}]
    base = rng.choice([0, 0, 1, 500])
    strs = chance(rng, 0.35)
    cnt = [0]
    # names that look like nothing, anywhere in the tree
    empty = {}
    if chance(rng, 0.4):
        base = max(base, 1)
        empty[rng.randint(1, 5)] = rng.choice(['', 0])

    def fresh():
        cnt[0] += 1
        n = base + cnt[0] - 1
        return empty.get(cnt[0], 't%d' % n if strs else n)
    nm = [fresh()]
    ops.append({'op': 'root', 'g': slot, 'n': nm[0]})
    kids = {}
    gone = []
    for _ in range(k):
        w = rng.random()
        if w < 0.5 or len(nm) < 3:
            p = rng.choice(nm)
            if chance(rng, 0.08):
                n = rng.choice(nm)          # rejected: exists
            elif gone and chance(rng, 0.5):
                n = rng.choice(gone)        # a name used before
            else:
                n = fresh()
            if chance(rng, 0.04):
                p = 'nobody'                # rejected: no such parent
            o = {'op': 'child', 'g': slot, 'n': n, 'p': p}
            if binary:
                o['side'] = rng.choice('LR')
            if chance(rng, 0.2):
                o['label'] = label(rng)
            ops.append(o)
            ok = n not in nm and p in nm and not (
                binary and (p, o['side']) in kids)
            if ok:
                nm.append(n)
                if n in gone:
                    gone.remove(n)
                if binary:
                    kids[(p, o['side'])] = n
                else:
                    kids[(p, n)] = n
        elif w < 0.58:
            inner = set(x[0] for x in kids)
            cand = [x for x in nm if x not in inner]
            n = rng.choice(cand) if cand and chance(rng, 0.9) else \
                rng.choice(nm)
            if len(nm) > 1 or binary:
                ops.append({'op': 'del_leaf', 'g': slot, 'n': n})
                if n in cand:
                    nm.remove(n)
                    gone.append(n)
                    for x in [x for x in kids if kids[x] == n]:
                        del kids[x]
                    if not nm:
                        nm.append(fresh())
                        ops.append({'op': 'root', 'g': slot, 'n': nm[0]})
        elif w < 0.61:
            ops.append({'op': 'root', 'g': slot, 'n': rng.choice(nm)})
        elif w < 0.8:
            o = {'op': 'traverse', 'g': slot, 'how': rng.choice(
                ['dfs', 'bfs', 'queue', 'stack', 'default'])}
            if chance(rng, 0.4):
                o['root'] = rng.choice(nm)
            if binary and chance(rng, 0.4):
                o['priority'] = rng.choice('LR')
            ops.append(with_display(rng, o, pd))
        elif w < 0.93 and binary:
            o = {'op': 'print_nodes', 'g': slot}
            if chance(rng, 0.8):
                o['order'] = rng.choice(['pre', 'in', 'post'])
            if chance(rng, 0.5):
                o['priority'] = rng.choice('LR')
            if chance(rng, 0.4):
                o['root'] = rng.choice(nm)
            ops.append(with_display(rng, o, pd))
        else:
            ops.append({'op': 'tree_query', 'g': slot})
    if binary and chance(rng, 0.2):
        # down to nothing and up again
        while nm:
            inner = set(x[0] for x in kids)
            n = rng.choice([x for x in nm if x not in inner])
            ops.append({'op': 'del_leaf', 'g': slot, 'n': n})
            nm.remove(n)
            for x in [x for x in kids if kids[x] == n]:
                del kids[x]
        if chance(rng, 0.5):
            ops.append({'op': 'tree_query', 'g': slot})
        nm.append(fresh())
        ops.append({'op': 'root', 'g': slot, 'n': nm[0]})
        for side in 'LR':
            if chance(rng, 0.7):
                n = fresh()
                ops.append({'op': 'child', 'g': slot, 'n': n, 'p': nm[0],
                            'side': side})
                nm.append(n)
    for how in ('dfs', 'bfs'):
        if chance(rng, 0.5):
            o = {'op': 'traverse', 'g': slot, 'how': how}
            ops.append(with_display(rng, o, max(pd, 0.5)))
    return ops


def expr_ops(rng, slot, pd, mode=None):
    attrs = {'display': mode} if mode else {}
    ops = [{'op': 'new', 'g': slot, 'kind': 'bintree', 'attrs': attrs}]
    cnt = [rng.choice([0, 0, 1, 300])]
    todo = []

    def leaf():
        return str(rng.choice([0, 0, 1, 2, 3, 5, 9, 12, 1, 7]))

    def fresh():
        cnt[0] += 1
        return cnt[0] - 1

    def grow(n, depth):
        if depth == 0 or chance(rng, 0.3):
            return leaf()
        for side in 'LR':
            m = fresh()
            todo.append((m, n, side, grow(m, depth - 1)))
        return rng.choice('+-*+-*/')
    r = fresh()
    lab = grow(r, rng.randint(1, 4))
    ops.append({'op': 'root', 'g': slot, 'n': r, 'label': lab})
    # parents come after their children in todo: order them
    done = set([r])
    while todo:
        x = [t for t in todo if t[1] in done]
        m, n, side, lab = x[0] if chance(rng, 0.5) else x[-1]
        todo.remove((m, n, side, lab))
        done.add(m)
        ops.append({'op': 'child', 'g': slot, 'n': m, 'p': n, 'side': side,
                    'label': lab})
        if chance(rng, 0.12) and lab not in '+-*/':
            del ops[-1]['label']        # the name stands for it
    for _ in range(rng.randint(1, 4)):
        w = rng.choice(['evaluate', 'infix', 'evaluate', 'print_nodes'])
        o = {'op': w, 'g': slot}
        if w == 'print_nodes':
            o['order'] = rng.choice(['pre', 'in', 'post'])
        if chance(rng, 0.25):
            o['root'] = rng.choice(sorted(done))
        ops.append(with_display(rng, o, pd))
        if chance(rng, 0.2):
            ops.append({'op': 'tree_query', 'g': slot})
    return ops


# ----------------------------------------------------------- disjoint sets
def dset_ops(rng, slot, k, tag, mode=None):
    attrs = {'display': mode} if mode else {}
    if chance(rng, 0.1):
        attrs['layout'] = rng.choice(LAYOUTS)
    o = {'op': 'new', 'g': slot, 'kind': 'dset', 'attrs': attrs,
         'optimize': chance(rng, 0.65)}
    ops = [o]
    style = rng.choice(['int', 'int', 'big', 'str'])

    def nm(i):
        return {'int': i, 'big': 400 + i, 'str': 'e%d' % i}[style]
    items = []
    n = rng.randint(2, 9)
    i = 0
    while i < n:
        m = 1 if chance(rng, 0.7) else rng.randint(2, 4)
        ops.append({'op': 'ds_add', 'g': slot,
                    'items': [nm(j) for j in range(i, i + m)]})
        items += [nm(j) for j in range(i, i + m)]
        i += m
    for _ in range(k):
        w = rng.random()
        if w < 0.5:
            if chance(rng, 0.04):
                ops.append({'op': 'ds_union', 'g': slot, 'i': 'absent',
                            'j': rng.choice(items)})
            else:
                ops.append({'op': 'ds_union', 'g': slot,
                            'i': rng.choice(items), 'j': rng.choice(items)})
        elif w < 0.75:
            its = [rng.choice(items) for _ in range(rng.randint(1, 4))]
            if chance(rng, 0.04):
                its.append('absent')
            ops.append({'op': 'ds_find', 'g': slot, 'items': its})
        elif w < 0.83:
            ops.append({'op': 'ds_check', 'g': slot})
        elif w < 0.9:
            m = rng.randint(1, 3)
            ops.append({'op': 'ds_add', 'g': slot,
                        'items': [nm(j) for j in range(i, i + m)]})
            items += [nm(j) for j in range(i, i + m)]
            i += m
        elif w < 0.93:
            ops.append({'op': 'ds_add', 'g': slot,
                        'items': [rng.choice(items)]})
        elif w < 0.97:
            ops.append({'op': 'display', 'g': slot})
        else:
            ops.append({'op': 'to_string', 'g': slot})
    ops.append({'op': 'ds_check', 'g': slot})
    return ops


# ---------------------------------------------------------- random graphs
def random_params(rng):
    n = rng.choice([1, 2, 3, 5, 6, 8, 10])
    p = {'numnodes': n, 'seedInput': rng.choice([0, 1, 2, 7, 13, 99])}
    eu = chance(rng, 0.3)
    if eu:
        p['Euclidean'] = True
    how = rng.random()
    if how < 0.5:
        p['degree_range'] = [0, 0]
        a = rng.randint(0, max(0, min(3, n - 2)))
        b = rng.randint(a, max(a, min(4, n - 2)))
        p['degree_range'] = [a, b]
    elif how < 0.9:
        p['density'] = rng.choice([0.1, 0.3, 0.5, 0.9, 1])
        p['degree_range'] = None
    else:
        p['numnodes'] = max(n, 6)
    if chance(rng, 0.5):
        a = rng.randint(0, 5)
        p['length_range'] = [a, a + rng.randint(0, 20)]
    elif chance(rng, 0.15):
        p['length_range'] = None
    if chance(rng, 0.3):
        p['add_labels'] = chance(rng, 0.5)
    if chance(rng, 0.3):
        p['parallel_allowed'] = chance(rng, 0.6)
    if chance(rng, 0.3):
        p['node_selection'] = rng.choice(['closest', 'random'])
    if chance(rng, 0.2):
        p['scale'] = 50
    if chance(rng, 0.15):
        p['scale_cost'] = 3
    if chance(rng, 0.12):
        del p['seedInput']
    return p


def noise_op(rng):
    return {'op': 'noise', 'do': [rng.choice([-1, -5, -99, 1, 3, 10])
                                  for _ in range(rng.randint(1, 3))]}


# ------------------------------------------------------ faults, schedules
def fault(rng, c, ops, libs, pool, op=None):
    '''A fault that can hit one of the client's animated operations.'''
    cand = []
    own = {}
    tex = set()
    for i, o in enumerate(ops):
        if o['op'] == 'layout':
            (tex.add if o['val'] == 'dot2tex' else tex.discard)(o['g'])
        if o['op'] == 'new':
            own[o['g']] = o.get('attrs', {}).get('display', 'off')
        elif o['op'] == 'mode':
            own[o['g']] = o['val']
        d = o.get('display', own.get(o.get('g'), 'off'))
        if o['op'] in ('write', 'create'):
            cand.append((i, 'write'))
        elif d in SITES and o['op'] not in (
                'new', 'mode', 'query', 'add_node', 'add_edge', 'del_node',
                'del_edge', 'set_node', 'set_edge', 'cluster'):
            cand.append((i, 'dot2tex' if o.get('g') in tex else d))
    if not cand:
        return None
    i, d = rng.choice(cand)
    sites = SITES['file' if d == 'write' else d]
    p = [f for f in pool if f[0] in sites]
    if not p:
        return None
    site, kind, _ = weighted(rng, p)
    big = ops[i]['op'] not in ('display', 'write', 'create')
    if big and ops[i]['op'] in ('traverse', 'print_nodes', 'evaluate',
                                'infix'):
        nth = int(2 ** rng.uniform(0, 3.3))
    else:
        nth = int(2 ** rng.uniform(0, 5.5 if big else 1.6))
    f = {'c': c, 'op': i, 'site': site, 'nth': nth, 'kind': kind}
    if (site, kind) in (('spawn', 'missing'), ('spawn', 'eacces'),
                        ('click', 'timeout'), ('wait', 'stderr')):
        f['rep'] = rng.choice([1, 1000])
    elif chance(rng, 0.06):
        f['rep'] = rng.choice([2, 5])
    return f


def press(rng, sc, p):
    '''Ctrl-C while an algorithm computes.'''
    if not chance(rng, p):
        return sc
    for _ in range(rng.choice([1, 1, 1, 2])):
        cand = [(c, i) for c, ops in enumerate(sc['clients'])
                for i, o in enumerate(ops) if o['op'] in COMPUTING]
        if cand:
            c, i = rng.choice(cand)
            hi = 13 if sc['clients'][c][i]['op'] == 'mincost' else \
                7 if sc['clients'][c][i]['op'] in WALKS else 10.5
            sc['faults'].append({
                'c': c, 'op': i, 'site': 'line', 'kind': 'ctrlc',
                'nth': int(2 ** rng.uniform(0, hi))})
    return sc


WALKS = ('traverse', 'print_nodes', 'evaluate', 'infix')
COMPUTING = WALKS + (
    'search', 'dfs', 'bfs', 'hamiltonian', 'strong', 'kosaraju', 'components',
    'prim', 'kruskal', 'fifo', 'floyd', 'neg_cycle', 'diameter', 'acyclic',
    'max_flow', 'preflow', 'mincost', 'page_rank')


def schedule(rng, n, steps):
    '''Who runs, for how many steps.'''
    if n < 2:
        return []
    style = rng.choice(['fine', 'mixed', 'mixed', 'pct', 'pct', 'coarse',
                        'seq', 'lag'])
    s = []
    if style == 'lag':
        # in step, some way apart
        for c in rng.sample(range(n), n):
            s.append([c, int(2 ** rng.uniform(0, 10))])
        q = rng.choice([1, 2, 5, 20])
        a = rng.randrange(n)
        for _ in range(300):
            a = (a + 1) % n
            s.append([a, rng.randint(1, q)])
        return s
    if style == 'seq':
        order = list(range(n))
        rng.shuffle(order)
        return [[c, 1 << 40] for c in order]
    if style == 'fine':
        q = rng.choice([1, 2, 3, 7])
        for _ in range(600):
            s.append([rng.randrange(n), rng.randint(1, q)])
        return s
    if style == 'pct':
        # long runs, a few change points anywhere
        order = list(range(n))
        rng.shuffle(order)
        c = order[0]
        for _ in range(rng.randint(1, 6)):
            s.append([c, int(2 ** rng.uniform(1, steps))])
            c = rng.choice([x for x in range(n) if x != c])
        for _ in range(rng.choice([0, 40])):
            s.append([rng.randrange(n), rng.randint(1, 40)])
        return s
    if style == 'coarse':
        for _ in range(80):
            s.append([rng.randrange(n), int(2 ** rng.uniform(3, 9))])
        return s
    for _ in range(250):
        s.append([rng.randrange(n), int(2 ** rng.uniform(0, 6.5))])
    return s


def libs(rng, p):
    r = {'PIL': True, 'MATPLOTLIB': True, 'XDOT': True, 'DOT2TEX': True}
    for k in r:
        if chance(rng, p):
            r[k] = False
    return r


# --------------------------------------------------------- per property
SHAPES = {
    'C01': ['und', 'und', 'dig', 'net', 'dag', 'mcf'],
    'C02': ['und', 'dig', 'net', 'mcf', 'mcf', 'dag'],
    'C03': ['net', 'net', 'net', 'mcf'],
    'C04': ['mcf'],
    'C05': ['dig', 'und', 'dag', 'dig', 'net'],
    'C06': ['und'],
    'C07': ['und', 'dig', 'dag', 'dig'],
}
FOCUS = {
    'C03': ('max_flow', 'preflow'),
    'C04': ('mincost',),
    'C05': ('search', 'bfs', 'fifo', 'floyd', 'neg_cycle', 'acyclic',
            'diameter'),
    'C06': ('prim', 'kruskal', 'searchprim'),
    'C07': ('search', 'components', 'strong', 'dfs', 'hamiltonian',
            'kosaraju'),
}
ANY = ['und', 'dig', 'net', 'mcf', 'dag']
SEARCH = {
    'C05': ['BFS', 'Dijkstra', 'UnweightedSPT', 'BFS', 'Dijkstra'],
    'C07': ['DFS', 'DFS', 'DFS', 'BFS'],
}


def misuse_op(rng, ctx, pd, like=None):
    '''A mistake of the user's.'''
    g = ctx.slot
    what = like['op'] if like and chance(rng, 0.5) else None
    how = rng.choice(['node', 'node', 'data', 'option', 'kind'])
    flows = ['max_flow', 'preflow', 'mincost', 'mincost']
    if how == 'node':
        if what not in NODE_ARG:
            what = rng.choice(NODE_ARG)
    elif how == 'data':
        if what not in ('search', 'prim', 'kruskal', 'floyd', 'fifo') and \
                what not in flows:
            what = rng.choice(['search', 'prim', 'kruskal', 'floyd', 'fifo']
                              + flows)
    elif how == 'option':
        if what not in ('search', 'max_flow', 'preflow', 'mincost'):
            what = rng.choice(['search', 'max_flow', 'preflow', 'mincost'])
    elif ctx.kind == 'graph':
        what = rng.choice(flows + ['residual', 'page_rank'])
    else:
        what = rng.choice(['components', 'residual'])
    if ctx.shape not in ('net', 'mcf') and what in flows and how != 'kind':
        what = 'search'
    P = lambda: ctx.pick(rng)
    o = {'op': 'misuse', 'g': g, 'what': what, 's': P(), 't': P()}
    if what == 'search':
        o['algo'] = rng.choice(['DFS', 'BFS', 'Dijkstra', 'Prim',
                                'UnweightedSPT'])
    if how == 'node':
        if what == 'mincost':
            o['root'] = 'nobody'
        else:
            o[rng.choice(['s', 's', 't'])] = 'nobody'
    elif how == 'data':
        o['drop'] = [rng.randrange(50), 'cost' if what not in flows else
                     rng.choice(['cost', 'demand', 'capacity', 'capacity'])
                     if what == 'mincost' else 'capacity']
        if what == 'search':
            o['algo'] = rng.choice(['Dijkstra', 'Prim'])
    elif how == 'option':
        o['algo'] = 'bogus'
        if what == 'mincost' and chance(rng, 0.7):
            del o['algo']
            o['pivot'] = 'bogus'
    if chance(rng, pd) and what not in ('fifo', 'acyclic', 'floyd',
                                        'residual', 'page_rank'):
        o['display'] = rng.choice(ALL_MODES)
    return o


NODE_ARG = ('search', 'dfs', 'bfs', 'hamiltonian', 'prim', 'max_flow',
            'preflow', 'mincost', 'fifo', 'acyclic')


def history(rng, prop, slot, tag, k, mode=None, pd=0.1, edits=0.25,
            queries=0.1, renders=0.05, keep=True, shape=None, modes=0.0,
            hi=8, favourite=None):
    '''One graph and what is done to it.'''
    shape = shape or rng.choice(SHAPES.get(prop, ANY))
    o, ctx = graph_op(rng, slot, shape, hi, mode)
    ops = [o]
    focus = FOCUS.get(prop)
    if focus and prop in SEARCH:
        focus = dict((x, 1) for x in focus)
        focus['searchonly'] = lambda r: r.choice(SEARCH[prop])
    elif focus:
        focus = dict((x, 1) for x in focus)
    if favourite:
        focus = {favourite: 1}
    if chance(rng, 0.25):
        ops.append(cluster_op(rng, ctx))
    for _ in range(k):
        w = rng.random()
        if w < edits:
            ops.append(edit_op(rng, ctx, keep))
        elif w < edits + queries:
            ops.append(query_op(rng, ctx))
        elif w < edits + queries + renders:
            ops.append(render_op(rng, ctx, tag))
        elif w < edits + queries + renders + modes:
            ops.append({'op': 'mode', 'g': slot,
                        'val': rng.choice(ALL_MODES + ['off', 'off'])})
        else:
            a = algo_op(rng, ctx, pd, focus)
            if chance(rng, 0.09):
                ops.append(misuse_op(rng, ctx, pd, a))
            ops.append(a)
            w = rng.random()
            if w < 0.08:
                ops.append(dict(a))
            elif w < 0.3:
                # the data change and it is solved again
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    ops.append(tweak_op(rng, ctx))
                ops.append(dict(a) if chance(rng, 0.7) else algo_op(
                    rng, ctx, pd, {a['op']: 1}))
            elif w < 0.42:
                # another algorithm, the graph changes, and it is run again
                b = algo_op(rng, ctx, pd)
                if ctx.kind == 'graph' and chance(rng, 0.5):
                    b = {'op': 'components', 'g': slot}
                ops.append(b)
                for _ in range(rng.choice([1, 1, 2])):
                    ops.append(edit_op(rng, ctx, keep))
                ops.append(dict(a))
    for o in [x for x in ops if x.get('share')]:
        ops.insert(rng.randint(ops.index(o) + 1, len(ops)), dict(o))
    return ops, ctx


def sweep(rng, prop, slot):
    '''A long life of one graph: its data change, it is solved again.'''
    shape = rng.choice(SHAPES.get(prop, ANY))
    if prop == 'C05' and chance(rng, 0.5):
        shape = 'dig'
    o, ctx = graph_op(rng, slot, shape, 8)
    ops = [o]
    focus = dict((x, 1) for x in FOCUS.get(prop) or ())
    if prop in SEARCH:
        focus['searchonly'] = lambda r: r.choice(SEARCH[prop])
    if prop == 'C05' and shape == 'dig':
        focus = rng.choice([{'neg_cycle': 1}, {'floyd': 1}, {'fifo': 1},
                            {'neg_cycle': 1, 'floyd': 1, 'fifo': 1}])
    lo, hi = rng.choice([(0, 1), (0, 3), (0, 9), (-1, 1), (-1, 3), (-2, 9),
                         (-5, 5), (-9, 10)])
    what = 'cost'
    for _ in range(rng.randint(8, 30)):
        for _ in range(rng.choice([1, 1, 2, 4, 8])):
            if not ctx.edges or chance(rng, 0.1):
                ops.append(edit_op(rng, ctx))
                continue
            if chance(rng, 0.15):
                ops.append(tweak_op(rng, ctx))
                continue
            u, v = rng.choice(ctx.edges)
            if shape in ('net', 'mcf'):
                what = rng.choice(['cost', 'capacity'])
            neg = shape in ('dig', 'dag', 'mcf') and what == 'cost'
            val = rng.randint(lo if neg else 0, hi)
            ops.append({'op': 'set_edge', 'g': slot, 'u': u, 'v': v,
                        'k': what, 'val': val})
        ops.append(algo_op(rng, ctx, 0.0, focus))
    return ops


def make(prop, seed, idx):
    '''The scenario of a property with this seed and index.'''
    h = hashlib.sha256(('%s/%s/%s' % (prop, seed, idx)).encode()).digest()
    rng = random.Random(int.from_bytes(h, 'big'))
    STYLE.clear()
    sc = MAKERS[prop](rng, prop)
    if prop in ('C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C14', 'C16'):
        press(rng, sc, 0.12)
    sc['prop'], sc['seed'], sc['idx'] = prop, seed, idx
    return sc


def finish(rng, clients, lib=0.08, nfaults=(0, 0, 1, 1, 2), pool=None,
           solo=False, grain=None):
    sc = {'libs': libs(rng, lib), 'clients': clients, 'faults': [],
          'schedule': schedule(rng, len(clients), 12)}
    if pool is None:
        pool = FATAL + FATAL + MIXED + MILD
    for _ in range(rng.choice(nfaults)):
        c = rng.randrange(len(clients))
        f = fault(rng, c, clients[c], sc['libs'], pool)
        if f is not None:
            sc['faults'].append(f)
    if grain is None:
        grain = 'instr' if len(clients) > 1 and chance(rng, 0.15) else 'line'
    sc['grain'] = grain
    if solo:
        sc['solo'] = True
    if len(clients) > 1 and chance(rng, 0.6):
        # where clients touch what they share, if they do
        if chance(rng, 0.5):
            sc['hot'] = [1 + int(2 ** rng.uniform(0, 8))
                         for _ in range(rng.randint(1, 5))]
        else:
            p = rng.choice([0.03, 0.1, 0.3])
            sc['hot'] = [i for i in range(1, 400) if chance(rng, p)]
    return sc


def other_client(rng, prop, c):
    '''A neighbour that keeps the interpreter busy with graphs of its own.'''
    tag = 'c%d' % c
    w = rng.random()
    if w < 0.6:
        ops, _ = history(rng, prop, tag + 'g', tag, rng.randint(1, 4),
                         mode=rng.choice(['off', 'off', 'file']), pd=0.15,
                         hi=6)
        return ops
    if w < 0.75:
        return tree_ops(rng, tag + 't', rng.randint(3, 8), 0.2)
    if w < 0.9:
        return dset_ops(rng, tag + 'd', rng.randint(3, 10), tag)
    return [{'op': 'new', 'g': tag + 'r', 'kind': 'digraph'},
            {'op': 'random', 'g': tag + 'r', 'params': random_params(rng)},
            noise_op(rng)]


def mk_algo(rng, prop):
    '''C02 to C07: histories of algorithms on one or several graphs.'''
    style = rng.random()
    if style < 0.06:
        return finish(rng, [sweep(rng, prop, 'g')], nfaults=(0,))
    if style < 0.35:
        # plain histories, no rendering
        ops, _ = history(rng, prop, 'g', 'a', rng.randint(2, 7), pd=0.0,
                         renders=0, edits=0.25, queries=0.05,
                         hi=18 if chance(rng, 0.1) else 8)
        return finish(rng, [ops], nfaults=(0,))
    if style < 0.6:
        # animated, cut short, repeated
        ops, ctx = history(rng, prop, 'g', 'a', rng.randint(2, 5),
                           mode=rng.choice(['off', 'file', 'PIL',
                                            'matplotlib']), pd=0.4,
                           edits=0.15, queries=0.03)
        return finish(rng, [ops], nfaults=(0, 1, 1, 2, 3))
    if style < 0.72:
        # two graphs used in turn by one client
        a, _ = history(rng, prop, 'g', 'a', rng.randint(2, 4), pd=0.15)
        b, _ = history(rng, prop, 'h', 'b', rng.randint(2, 4), pd=0.15)
        ops = []
        while a or b:
            x = a if (a and (not b or chance(rng, 0.5))) else b
            ops.append(x.pop(0))
        return finish(rng, [ops], nfaults=(0, 0, 1))
    n = rng.choice([2, 2, 3])
    clients = []
    for c in range(n):
        if c == 0 or chance(rng, 0.5):
            ops, _ = history(rng, prop, 'g%d' % c, 'c%d' % c,
                             rng.randint(1, 4), pd=0.12, hi=6)
        else:
            ops = other_client(rng, prop, c)
        clients.append(ops)
    return finish(rng, clients, nfaults=(0, 0, 0, 1, 1))


def mk_c01(rng, prop):
    style = rng.random()
    if style < 0.65:
        ops, _ = history(rng, prop, 'g', 'a', rng.randint(5, 22),
                         mode=rng.choice(['off', 'off', 'file', 'PIL']),
                         pd=0.1, edits=0.6, queries=0.22, renders=0.04,
                         keep=chance(rng, 0.4))
        return finish(rng, [ops], nfaults=(0, 0, 1))
    n = rng.choice([2, 2, 3])
    clients = []
    for c in range(n):
        if c == 0 or chance(rng, 0.6):
            ops, _ = history(rng, prop, 'g%d' % c, 'c%d' % c,
                             rng.randint(4, 12), pd=0.08, edits=0.6,
                             queries=0.2, keep=chance(rng, 0.4), hi=6)
        else:
            ops = other_client(rng, prop, c)
        clients.append(ops)
    return finish(rng, clients, nfaults=(0, 0, 1))


def mk_c08(rng, prop):
    w = rng.random()
    if w < 0.78:
        ops, _ = history(rng, prop, 'g', 'a', rng.randint(1, 4),
                         mode=rng.choice(ALL_MODES + ['off']),
                         pd=rng.choice([0.0, 0.6, 0.9]), edits=0.1,
                         queries=0.02, renders=0.12, modes=0.05, hi=7)
    elif w < 0.95:
        ops = tree_ops(rng, 't', rng.randint(4, 10), 0.7,
                       mode=rng.choice(['off', 'file', 'PIL']))
    else:
        ops = dset_ops(rng, 'd', rng.randint(4, 10), 'a',
                       mode=rng.choice(ALL_MODES))
    return finish(rng, [ops], lib=0.15, nfaults=(0, 1, 1, 2), pool=MILD)


def twin(rng, ops, old, new):
    '''The same things done to a graph that differs in a few details.'''
    text = json.dumps(ops).replace('"%s"' % old, '"%s"' % new)
    ops = json.loads(text)
    for o in ops:
        for k in ('basename', 'file'):
            if k in o:
                o[k] = o[k].replace(old, new)
    first = ops[0]
    edges = first.get('edges') or []
    for _ in range(rng.randint(0, 2)):
        if edges and chance(rng, 0.5):
            edges.pop(rng.randrange(len(edges)))
        elif edges:
            a = rng.choice(edges)[2]
            for k in ('cost', 'capacity'):
                if k in a:
                    a[k] = rng.randint(0, 9)
    if chance(rng, 0.3):
        rng.shuffle(edges)
    nodes = [n for n, _ in first.get('nodes') or []]
    for o in ops:
        for k in ('s', 't'):
            if k in o and nodes and chance(rng, 0.5):
                o[k] = rng.choice(nodes)
    if chance(rng, 0.3) and len(ops) > 2:
        ops.insert(1, ops.pop())
    return ops


def mk_c09(rng, prop):
    n = rng.choice([2, 2, 2, 3, 4])
    clients = []
    same = chance(rng, 0.3)
    shape = rng.choice(ANY)
    favourite = None
    if chance(rng, 0.35):
        # everybody does the same thing to graphs that look alike
        favourite = rng.choice(['search', 'searchprim', 'dfs', 'bfs',
                                'hamiltonian', 'prim', 'kruskal',
                                'components', 'strong', 'kosaraju', 'fifo',
                                'floyd', 'neg_cycle', 'page_rank',
                                'max_flow', 'preflow', 'mincost', 'mincost',
                                'mincost', 'acyclic', 'diameter'])
        same = True
        if favourite in ('strong', 'kosaraju', 'floyd', 'page_rank'):
            shape = rng.choice(['dig', 'dag'])
        elif favourite in ('max_flow', 'preflow'):
            shape = rng.choice(['net', 'mcf'])
        elif favourite in ('mincost', 'acyclic'):
            shape = {'mincost': 'mcf', 'acyclic': 'dag'}[favourite]
        elif favourite in ('prim', 'kruskal', 'components', 'searchprim'):
            shape = 'und'
        STYLE[:] = [rng.choice(['int', 'str', 'word'])]
    for c in range(n):
        tag = 'c%d' % c
        w = rng.random() * (0.7 if favourite else 1)
        if favourite and c and chance(rng, 0.7):
            ops = twin(rng, clients[0], 'c0', tag)
        elif w < 0.62 or favourite and not c:
            ops, _ = history(rng, prop, tag, tag, rng.randint(1, 5),
                             mode=rng.choice(['off', 'off', 'file', 'PIL',
                                              'matplotlib']),
                             pd=0.12, edits=0.3, queries=0.1, renders=0.08,
                             modes=0.04, hi=6, shape=shape if same else None,
                             keep=chance(rng, 0.7), favourite=favourite)
        elif w < 0.78:
            ops = tree_ops(rng, tag, rng.randint(3, 9), 0.2)
        elif w < 0.92:
            ops = dset_ops(rng, tag, rng.randint(3, 10), tag)
        else:
            ops = [{'op': 'new', 'g': tag, 'kind': rng.choice(
                ['graph', 'digraph'])},
                {'op': 'random', 'g': tag, 'params': random_params(rng)},
                {'op': 'query', 'g': tag, 'probe': [0, 1]}, noise_op(rng)]
        clients.append(ops)
    STYLE.clear()
    return finish(rng, clients, nfaults=(0, 0, 0, 1), solo=True)


def mk_c10(rng, prop):
    '''Abort, then look at everything that follows.'''
    clients = []
    n = rng.choice([1, 1, 1, 2])
    for c in range(n):
        tag = 'c%d' % c
        w = rng.random()
        if w < 0.72:
            shape = rng.choice(ANY)
            mode = rng.choice(['file', 'PIL', 'matplotlib', 'off', 'xdot'])
            ops, ctx = history(rng, prop, tag, tag, 0, mode=mode,
                               shape=shape, hi=7)
            first = []
            for _ in range(rng.randint(1, 2)):
                o = algo_op(rng, ctx, 1.0 if mode == 'off' else 0.3)
                first.append(len(ops))
                ops.append(o)
            if chance(rng, 0.5):
                ops.append({'op': 'mode', 'g': tag, 'val': 'off'})
            for _ in range(rng.randint(1, 4)):
                x = rng.random()
                if x < 0.4:
                    o = dict(ops[rng.choice(first)])
                    if chance(rng, 0.7):
                        o.pop('display', None)
                    ops.append(o)
                elif x < 0.85:
                    ops.append(algo_op(rng, ctx, 0.05))
                elif x < 0.93:
                    ops.append(edit_op(rng, ctx))
                else:
                    ops.append(query_op(rng, ctx))
            if chance(rng, 0.3):
                more, _ = history(rng, prop, tag + 'x', tag + 'x',
                                  rng.randint(1, 2), pd=0.0, renders=0,
                                  shape=shape if chance(rng, 0.6) else None,
                                  hi=6)
                ops += more
        else:
            ops = tree_ops(rng, tag, rng.randint(4, 10), 0.6,
                           mode=rng.choice(['off', 'file']))
            walks = [x for x in ops if x['op'] in (
                'traverse', 'print_nodes', 'evaluate', 'infix')]
            if walks and chance(rng, 0.6):
                # the same walk, over and over
                o = dict(rng.choice(walks))
                o.pop('root', None)
                if o['op'] == 'traverse' and chance(rng, 0.5):
                    o['how'] = rng.choice(['default', 'dfs', 'bfs'])
                k = len(ops)
                for _ in range(rng.randint(2, 4)):
                    ops.append(with_display(rng, dict(o), 0.9))
            if chance(rng, 0.5):
                ops += tree_ops(rng, tag + 'x', rng.randint(3, 6), 0.1)
        clients.append(ops)
    sc = finish(rng, clients, lib=0.03, nfaults=(1, 1, 2, 2, 3),
                pool=FATAL)
    for f in sc['faults']:
        # usually in the first animated operations
        ops = clients[f['c']]
        if chance(rng, 0.6):
            if ops[0]['op'] != 'new':
                f['op'] = min(f['op'], 2)
            else:
                walks = [i for i, o in enumerate(ops[:f['op'] + 1])
                         if o.get('display') and o['op'] == 'traverse']
                if walks and f['op'] not in walks[:1]:
                    f['op'] = rng.choice(walks)
    return press(rng, sc, 0.35)


def typeset(rng, ops):
    '''With the layout dot2tex.'''
    ops.insert(rng.randint(1, min(3, len(ops))),
               {'op': 'layout', 'g': ops[0]['g'], 'val': 'dot2tex'})
    for o in ops:
        if o['op'] == 'display' and chance(rng, 0.8):
            o['format'] = rng.choice(['pdf', 'ps', 'ps', 'png'])


def mk_render(rng, prop):
    '''C11, C12, C13: displays, writes and animations.'''
    n = rng.choice([1, 1, 1, 1, 2]) if prop != 'C13' else \
        rng.choice([1, 1, 1, 1, 1, 2])
    clients = []
    for c in range(n):
        tag = 'c%d' % c
        w = rng.random()
        mode = rng.choice(['file', 'PIL', 'matplotlib', 'xdot', 'file',
                           'PIL', 'matplotlib', 'off', 'bogus'])
        if w < 0.82:
            r = 0.35 if prop == 'C12' else 0.6
            ops, ctx = history(rng, prop, tag, tag, rng.randint(2, 6),
                               mode=mode, pd=0.2, edits=0.2, queries=0.06,
                               renders=r, modes=0.06, hi=7,
                               keep=chance(rng, 0.6))
            if prop == 'C12' and chance(rng, 0.4):
                for _ in range(rng.choice([1, 2, 2, 3])):
                    ops.insert(rng.randint(1, min(3, len(ops))),
                               cluster_op(rng, ctx))
            if prop == 'C12' and chance(rng, 0.3):
                ops.append({'op': 'to_string', 'g': tag})
        elif w < 0.93:
            ops = tree_ops(rng, tag, rng.randint(3, 8), 0.5, mode=mode)
            if prop != 'C12':
                ctx = Ctx(tag, 'digraph', [], 'tree')
                ops.append(render_op(rng, ctx, tag, False))
        else:
            ops = dset_ops(rng, tag, rng.randint(2, 6), tag, mode=mode)
            ctx = Ctx(tag, 'digraph', [], 'dset')
            for _ in range(2):
                ops.insert(rng.randint(1, len(ops)),
                           render_op(rng, ctx, tag, False))
        if w < 0.82 and chance(rng, 0.08):
            typeset(rng, ops)
        clients.append(ops)
    if prop == 'C12':
        return finish(rng, clients, lib=0.03, nfaults=(0, 0, 0, 1))
    return finish(rng, clients, lib=0.12, nfaults=(0, 1, 1, 1, 2, 3))


def mk_c14(rng, prop):
    clients = []
    n = rng.choice([1, 1, 1, 1, 2])
    for c in range(n):
        tag = 'c%d' % c
        mode = rng.choice(['off', 'off', 'file', 'PIL', 'xdot', 'bogus'])
        if chance(rng, 0.75):
            ops, _ = history(rng, prop, tag, tag, rng.randint(1, 4),
                             mode=mode, pd=0.85, edits=0.06, queries=0.02,
                             renders=0.06, modes=0.08, hi=6)
            if chance(rng, 0.05):
                typeset(rng, ops)
        else:
            ops = tree_ops(rng, tag, rng.randint(3, 8), 0.8, mode=mode)
        clients.append(ops)
    return finish(rng, clients, lib=0.08, nfaults=(0, 0, 1, 1, 2),
                  grain='line')


def mk_c15(rng, prop):
    n = rng.choice([1, 1, 2, 3])
    clients = []
    for c in range(n):
        tag = 'c%d' % c
        ops = dset_ops(rng, tag, rng.randint(4, 22), tag,
                       mode=rng.choice(['off', 'off', 'file', 'PIL']))
        if chance(rng, 0.2):
            more = dset_ops(rng, tag + 'x', rng.randint(4, 10), tag)
            ops = weave(rng, ops, more)
        elif chance(rng, 0.15):
            k, _ = history(rng, prop, tag + 'k', tag, 2, shape='und',
                           pd=0.0, hi=5)
            ops = weave(rng, ops, k)
        clients.append(ops)
    return finish(rng, clients, nfaults=(0, 0, 1, 2))


def weave(rng, a, b):
    a, b, r = list(a), list(b), []
    while a or b:
        x = a if (a and (not b or chance(rng, 0.5))) else b
        r.append(x.pop(0))
    return r


def mk_c16(rng, prop):
    n = rng.choice([1, 1, 1, 2, 3])
    clients = []
    for c in range(n):
        tag = 'c%d' % c
        ops = tree_ops(rng, tag, rng.randint(4, 16), 0.3,
                       mode=rng.choice(['off', 'off', 'file', 'PIL']))
        if chance(rng, 0.25):
            more = tree_ops(rng, tag + 'x', rng.randint(3, 8), 0.3)
            ops = weave(rng, ops, more)
        clients.append(ops)
    return finish(rng, clients, nfaults=(0, 0, 1, 1, 2))


def mk_c17(rng, prop):
    n = rng.choice([1, 2, 2, 3])
    params = [random_params(rng) for _ in range(rng.choice([1, 2]))]
    clients = []
    for c in range(n):
        ops = []
        for j in range(rng.randint(1, 3)):
            slot = 'c%dr%d' % (c, j)
            if chance(rng, 0.4):
                ops.append(noise_op(rng))
            ops.append({'op': 'new', 'g': slot, 'kind': rng.choice(
                ['graph', 'digraph', 'digraph'])})
            p = dict(rng.choice(params))
            if ops[-1]['kind'] == 'graph':
                p.pop('parallel_allowed', None)
            ops.append({'op': 'random', 'g': slot, 'params': p})
            if chance(rng, 0.3):
                ops.append({'op': 'query', 'g': slot, 'probe': [0, 1]})
        clients.append(ops)
    sc = finish(rng, clients, nfaults=(0,), solo=True)
    if chance(rng, 0.5) and n > 1:
        sc['schedule'] = [[rng.randrange(n), rng.randint(1, 12)]
                          for _ in range(400)]
    return sc


def mk_c18(rng, prop):
    shape = rng.choice(['dig', 'dig', 'und', 'dag', 'net'])
    o, ctx = graph_op(rng, 'S', shape, 7, simple=chance(rng, 0.7))
    setup = [o]
    text = chance(rng, 0.25)
    if chance(rng, 0.3) or text:
        setup.append(cluster_op(rng, ctx))
        if ctx.edges and text:
            # a cluster with edges inside
            inside = []
            for e in rng.sample(ctx.edges, min(2, len(ctx.edges))):
                inside += [enc(n) for n in e if enc(n) not in inside]
            setup[-1]['nodes'] = inside
    if shape == 'net' and len(ctx.names) > 1:
        # a flow: the residual graph has something to show
        a, b = rng.sample(ctx.names, 2)
        setup.append({'op': 'max_flow', 'g': 'S', 's': enc(a),
                      't': enc(b)})
        setup.append({'op': 'takeflow', 'g': 'S'})
    elif chance(rng, 0.3):
        setup.append(algo_op(rng, ctx, 0.0))
    for _ in range(rng.randint(0, 3)):
        setup.append(edit_op(rng, ctx))
    if shape == 'net':
        setup = [x for x in setup if x['op'] in
                 ('new', 'cluster', 'max_flow', 'takeflow', 'layout')]
    n = rng.choice([1, 2, 2, 3, 4])
    clients = []
    for c in range(n):
        ops = []
        for _ in range(rng.randint(1, 4)):
            if text and chance(rng, 0.8):
                q = {'op': 'to_string', 'g': 'S'}
            elif ctx.kind == 'digraph' and chance(rng, 0.55):
                w = rng.choice(['floyd', 'neg_cycle', 'page_rank',
                                'residual', 'page_rank'])
                if shape == 'net' and chance(rng, 0.5):
                    w = rng.choice(['residual', 'residual', 'print_flow'])
                q = {'op': w, 'g': 'S'}
                if w == 'page_rank' and chance(rng, 0.6):
                    q['damping'] = rng.choice([0.5, 0.85, 0.9])
                    q['tol'] = rng.choice([1e-3, 1e-6, 1e-8])
            else:
                q = query_op(rng, ctx)
            ops.append(q)
        clients.append(ops)
    sc = finish(rng, clients, nfaults=(0,))
    sc['setup'] = setup
    return sc


def mk_c21(rng, prop):
    '''Anything: the same again in another process.'''
    p = rng.choice(['C01', 'C02', 'C03', 'C03', 'C04', 'C04', 'C05', 'C05',
                    'C06', 'C06', 'C07', 'C07', 'C10', 'C12', 'C15', 'C16',
                    'C18'])
    sc = MAKERS[p](rng, p)
    sc.pop('solo', None)
    return sc


MAKERS = {'C01': mk_c01, 'C02': mk_algo, 'C03': mk_algo, 'C04': mk_algo,
          'C05': mk_algo, 'C06': mk_algo, 'C07': mk_algo, 'C08': mk_c08,
          'C09': mk_c09, 'C10': mk_c10, 'C11': mk_render, 'C12': mk_render,
          'C13': mk_render, 'C14': mk_c14, 'C15': mk_c15, 'C16': mk_c16,
          'C17': mk_c17, 'C18': mk_c18, 'C21': mk_c21}
