'''
The operations clients perform, each with its precondition, its call on the
real code and its oracle against the reference model.
'''
import ast
import copy
import os
from collections import Counter

from . import ref, world
from .model import (Model, SetModel, TreeModel, dec, is_directed, same,
                    snapshot)

OPS = {}
INF = ref.INF

N_SEARCH = ('label', 'priority', 'distance', 'color', 'component', 'depth')
N_DFS = ('label', 'component', 'disc_time', 'finish_time', 'color')
N_SIMPLEX = ('color', 'potential', 'component', 'pred', 'depth', 'thread',
             'distance', 'label')
FLOW_E = ('flow', 'label', 'color')
N_PREFLOW = ('excess', 'distance', 'label', 'color', 'priority', 'component',
             'depth')


class Plan(object):
    '''What an operation is about to do.'''
    def __init__(self, family, call, check=None, N=(), E=(), query=False,
                 apply=None, reject=False, capfix=False, edit=False,
                 name=None):
        self.family, self.call, self.check = family, call, check
        self.N, self.E, self.query = N, E, query
        self.apply, self.reject = apply, reject
        self.capfix, self.edit = capfix, edit


def op(name):
    def deco(f):
        OPS[name] = f
        return f
    return deco


class Bad(Exception):
    '''An oracle's verdict.'''


def need(cond, msg, *args):
    if not cond:
        raise Bad(msg % args if args else msg)


def disp(o):
    return {'display': o['display']} if 'display' in o else {}


def kw(d):
    '''Attribute dict of a scenario.'''
    return dict(d or {})


# ----------------------------------------------------------- construction
class Entry(object):
    '''A graph, tree or disjoint set of a run.'''
    def __init__(self, kind, G, M):
        self.kind, self.G, self.M = kind, G, M
        self.broken = False       # differs from the model, as reported
        self.layout = None        # what the user asked for, if he did


@op('new')
def new(run, e, o):
    g = world.gimpy
    kind = o['kind']
    attrs = kw(o.get('attrs'))
    slot = o['g']

    def call():
        if kind in ('graph', 'digraph'):
            if kind == 'graph' and o.get('default_type'):
                G = g.Graph(**attrs)
            else:
                G = g.Graph(type=(g.DIRECTED_GRAPH if kind == 'digraph' else
                                  g.UNDIRECTED_GRAPH), **attrs)
            for n, a in o.get('nodes', []):
                G.add_node(dec(n), **kw(a))
            for u, v, a in o.get('edges', []):
                G.add_edge(dec(u), dec(v), **kw(a))
        elif kind == 'tree':
            G = g.Tree(**attrs)
        elif kind == 'bintree':
            G = g.BinaryTree(**attrs)
        else:
            G = g.DisjointSet(optimize=o.get('optimize', True), **attrs)
        run.pending[slot] = G
        return None

    def check(res):
        G = run.pending.pop(slot)
        if kind in ('graph', 'digraph'):
            M = Model(kind == 'digraph')
            for n, a in o.get('nodes', []):
                M.add_node(dec(n), kw(a))
            for u, v, a in o.get('edges', []):
                M.add_edge(dec(u), dec(v), kw(a))
            M.attr = dict((k, v) for k, v in attrs.items()
                          if k not in ('display', 'layout'))
        elif kind in ('tree', 'bintree'):
            M = TreeModel(kind == 'bintree')
        else:
            M = SetModel(o.get('optimize', True))
        ent = Entry(kind, G, M)
        ent.layout = attrs.get('layout')
        run.graphs[slot] = ent
        if kind in ('graph', 'digraph'):
            bad = M.structure(G) + M.inputs(G)
            need(not bad, 'new graph: %s', '; '.join(bad[:3]))
        else:
            # starts empty
            need(G.get_node_list() == [] and G.get_edge_list() == [],
                 'new %s is not empty', kind)
    return Plan('edit', call, check, edit=True)


def isgraph(e):
    return e is not None and e.kind in ('graph', 'digraph')


# ------------------------------------------------------------------ edits
@op('add_node')
def add_node(run, e, o):
    if not isgraph(e):
        return None
    n, a = dec(o['n']), kw(o.get('attrs'))
    G, M = e.G, e.M
    if n in M.nodes:
        return Plan('edit', lambda: G.add_node(n, **a), reject=True)

    def check(res):
        need(getattr(res, 'name', None) == n, 'add_node returned %r', res)
    return Plan('edit', lambda: G.add_node(n, **a), check,
                apply=lambda: M.add_node(n, a), edit=True)


@op('del_node')
def del_node(run, e, o):
    if not isgraph(e):
        return None
    n = dec(o['n'])
    G, M = e.G, e.M
    if n not in M.nodes:
        return Plan('edit', lambda: G.del_node(n), reject=True)
    return Plan('edit', lambda: G.del_node(n),
                apply=lambda: M.del_node(n), edit=True)


@op('add_edge')
def add_edge(run, e, o):
    if not isgraph(e):
        return None
    u, v, a = dec(o['u']), dec(o['v']), kw(o.get('attrs'))
    G, M = e.G, e.M
    if M.key(u, v) is not None:
        return Plan('edit', lambda: G.add_edge(u, v, **a), reject=True)
    return Plan('edit', lambda: G.add_edge(u, v, **a),
                apply=lambda: M.add_edge(u, v, a), edit=True)


@op('del_edge')
def del_edge(run, e, o):
    if not isgraph(e):
        return None
    u, v = dec(o['u']), dec(o['v'])
    G, M = e.G, e.M
    if M.key(u, v) is None:
        return Plan('edit', lambda: G.del_edge((u, v)), reject=True)
    return Plan('edit', lambda: G.del_edge((u, v)),
                apply=lambda: M.del_edge(u, v), edit=True)


@op('set_node')
def set_node(run, e, o):
    if not isgraph(e):
        return None
    n, k, val = dec(o['n']), o['k'], o['val']
    G, M = e.G, e.M
    if n not in M.nodes:
        return None
    return Plan('edit', lambda: G.set_node_attr(n, k, val),
                apply=lambda: M.nodes[n].__setitem__(k, val), edit=True)


@op('shift_demand')
def shift_demand(run, e, o):
    '''Move some demand from one node to another.'''
    if not isgraph(e):
        return None
    u, v = dec(o['u']), dec(o['v'])
    G, M = e.G, e.M
    if u == v or any('demand' not in M.nodes.get(n, {}) for n in (u, v)):
        return None
    a = M.nodes[u]['demand'] + o['k']
    b = M.nodes[v]['demand'] - o['k']

    def call():
        G.set_node_attr(u, 'demand', a)
        G.set_node_attr(v, 'demand', b)

    def apply():
        M.nodes[u]['demand'] = a
        M.nodes[v]['demand'] = b
    return Plan('edit', call, apply=apply, edit=True)


@op('set_edge')
def set_edge(run, e, o):
    if not isgraph(e):
        return None
    u, v, k, val = dec(o['u']), dec(o['v']), o['k'], o['val']
    G, M = e.G, e.M
    key = M.key(u, v)
    if key is None:
        return None
    return Plan('edit', lambda: G.set_edge_attr(u, v, k, val),
                apply=lambda: M.edges[key].__setitem__(k, val), edit=True)


@op('cluster')
def cluster(run, e, o):
    if not isgraph(e):
        return None
    G, M = e.G, e.M
    nl = [dec(n) for n in o['nodes']]
    if any(n not in M.nodes for n in nl) or len(set(nl)) != len(nl):
        return None
    args = {}
    if 'cattrs' in o:
        args['cluster_attrs'] = kw(o['cattrs'])
    if 'nattrs' in o:
        args['node_attrs'] = kw(o['nattrs'])
    name = o.get('cattrs', {}).get('name')
    if 'share' in o:
        # the program keeps these objects and passes them again
        key = (run.client().idx, repr(nl), repr(sorted(args.items())))
        nl, args = run.kept.setdefault(key, (nl, args))
    else:
        nl = list(nl)
    was = (list(nl), copy.deepcopy(args))
    if name is not None and name in M.clusters:
        return Plan('edit', lambda: G.create_cluster(nl, **args),
                    reject=True)

    def check(r):
        need((nl, args) == was, 'the arguments of create_cluster %r became '
             '%r', was, (nl, args))
        if o.get('scribble') and 'share' not in o:
            # the program goes on using its objects for something else
            nl[:] = ['elsewhere'] * o['scribble']
            for d in args.values():
                d.clear()
                d['color'] = 'elsewhere'

    def apply():
        nm = name
        ca = dict(o.get('cattrs', {}))
        if nm is None:
            nm = 'c%d' % M.nclusters
            M.nclusters += 1
            while nm in M.clusters:
                nm = 'c%d' % M.nclusters
                M.nclusters += 1
            ca['name'] = nm
        M.clusters[nm] = {'node_list': list(was[0]), 'attrs': ca,
                          'node_attrs': dict(o.get('nattrs', {}))}
    return Plan('edit', lambda: G.create_cluster(nl, **args), check,
                apply=apply, edit=True)


@op('mode')
def mode(run, e, o):
    if e is None:
        return None

    def check(res):
        need(e.G.attr['display'] == o['val'], 'display mode is %r',
             e.G.attr['display'])
    return Plan('edit', lambda: e.G.set_display_mode(o['val']), check,
                edit=True)


@op('layout')
def layout(run, e, o):
    if e is None:
        return None

    def check(res):
        e.layout = o['val']
        need(e.G.get_layout() == o['val'], 'layout is %r', e.G.get_layout())
    return Plan('edit', lambda: e.G.set_layout(o['val']), check, edit=True)


# ---------------------------------------------------------------- queries
@op('query')
def query(run, e, o):
    '''A batch of cheap read-only calls.'''
    if not isgraph(e):
        return None
    G, M = e.G, e.M
    probes = [dec(n) for n in o.get('probe', [])]
    pairs = [(dec(u), dec(v)) for u, v in o.get('pairs', [])]

    def call():
        r = {}
        r['nodes'] = G.get_node_list()
        r['edges'] = G.get_edge_list()
        r['nn'], r['ne'] = G.get_node_num(), G.get_edge_num()
        for n in probes:
            r['in', n] = None if isinstance(n, tuple) else n in G
            r['node', n] = G.get_node(n) is not None
            if r['node', n]:
                r['nb', n] = list(G.get_neighbors(n))
                r['out', n] = list(G.get_out_neighbors(n))
                if is_directed(G):
                    r['inn', n] = list(G.get_in_neighbors(n))
                for k in ('cost', 'demand', 'label', 'x'):
                    r['attr', n, k] = G.get_node_attr(n, k)
        for u, v in pairs:
            r['has', u, v] = (u, v) in G
            r['check', u, v] = G.check_edge(u, v)
            if r['check', u, v]:
                for k in G.edge_attr.get((u, v), {}):
                    r['eattr', u, v, k] = G.get_edge_attr(u, v, k)
        r['deg'] = G.get_degrees()
        if is_directed(G):
            r['ind'] = G.get_in_degrees()
            r['outd'] = G.get_out_degrees()
        r['repr'] = repr(G)
        return r

    def check(r):
        need(Counter(r['nodes']) == Counter(M.nodes.keys()),
             'get_node_list %r', r['nodes'])
        need(Counter(r['edges']) == Counter(M.edges.keys()),
             'get_edge_list %r', r['edges'])
        need(r['nn'] == len(M.nodes) and r['ne'] == len(M.edges),
             'counts %r %r', r['nn'], r['ne'])
        for n in probes:
            has = n in M.nodes
            need(r['in', n] in (has, None), '%r in graph is %r', n,
                 r['in', n])
            need(r['node', n] == has, 'get_node(%r)', n)
            if has:
                need(Counter(r['nb', n]) == Counter(M.out(n)),
                     'get_neighbors(%r) is %r', n, r['nb', n])
                need(Counter(r['out', n]) == Counter(M.out(n)),
                     'get_out_neighbors(%r) is %r', n, r['out', n])
                if M.directed:
                    need(Counter(r['inn', n]) == Counter(M.inn(n)),
                         'get_in_neighbors(%r) is %r', n, r['inn', n])
                for k in ('cost', 'demand', 'label', 'x'):
                    if k in M.nodes[n]:
                        need(same(r['attr', n, k], M.nodes[n][k]),
                             'attribute %s of %r is %r', k, n,
                             r['attr', n, k])
        for u, v in pairs:
            has = M.key(u, v) is not None
            need(r['has', u, v] == has, '%r in graph is %r', (u, v),
                 r['has', u, v])
            need(r['check', u, v] == has, 'check_edge%r is %r', (u, v),
                 r['check', u, v])
            if has:
                for k, x in M.edges[M.key(u, v)].items():
                    if ('eattr', u, v, k) in r:
                        need(same(r['eattr', u, v, k], x),
                             'attribute %s of %r is %r', k, (u, v),
                             r['eattr', u, v, k])
        outd = dict((n, len(M.out(n))) for n in M.nodes)
        if M.directed:
            ind = dict((n, len(M.inn(n))) for n in M.nodes)
            need(r['ind'] == ind, 'get_in_degrees %r', r['ind'])
            need(r['outd'] == outd, 'get_out_degrees %r', r['outd'])
            need(r['deg'] == dict((n, ind[n] + outd[n]) for n in ind),
                 'get_degrees %r', r['deg'])
        else:
            need(r['deg'] == outd, 'get_degrees %r', r['deg'])
        if not any(isinstance(n, str) and '\n' in n for n in M.nodes):
            lines = r['repr'].split('\n') if M.nodes else []
            need(len(lines) == len(M.nodes), 'repr %r', r['repr'])
            for n, line in zip(r['nodes'], lines):
                head = '%s -> ' % (n,)
                need(line.startswith(head + '['), 'repr line %r', line)
                try:
                    nb = ast.literal_eval(line[len(head):])
                except (SyntaxError, ValueError):
                    nb = line
                need(Counter(nb) == Counter(M.out(n)),
                     'repr line %r', line)
    return Plan('query', call, check, query=True)


@op('edge_attrs')
def edge_attrs(run, e, o):
    '''Read attributes of edges in the given orientation.'''
    if not isgraph(e):
        return None
    G, M = e.G, e.M
    pairs = [(dec(u), dec(v)) for u, v in o['pairs']]
    pairs = [(u, v) for u, v in pairs if M.key(u, v) is not None]
    keys = dict((p, sorted(M.edges[M.key(*p)])) for p in pairs)

    def call():
        r = {}
        for p in pairs:
            for k in keys[p]:
                r[p, k] = G.get_edge_attr(p[0], p[1], k)
            if 'cost' in keys[p]:
                r[p, '#cost'] = G.get_edge_cost(p)
        return r

    def check(r):
        for p in pairs:
            a = M.edges[M.key(*p)]
            for k in keys[p]:
                need(same(r[p, k], a[k]), 'attribute %s of %r is %r', k, p,
                     r[p, k])
            if 'cost' in a:
                need(same(r[p, '#cost'], a['cost']), 'get_edge_cost(%r) %r',
                     p, r[p, '#cost'])
    return Plan('query', call, check, query=True)


@op('to_string')
def to_string(run, e, o):
    if e is None:
        return None
    G = e.G

    def check(res):
        bad = run.compare_text(G, res)
        need(not bad, 'to_string: %s', '; '.join(bad[:3]))
    return Plan('query', lambda: G.to_string(), check, query=True)


@op('page_rank')
def page_rank(run, e, o):
    if not isgraph(e) or not e.M.directed:
        return None
    G, M = e.G, e.M
    d = o.get('damping', 0.85)
    tol = o.get('tol', 0.00001)

    def call():
        if 'tol' in o or 'damping' in o:
            return G.page_rank(damping_factor=d, max_iterations=400,
                               min_delta=tol)
        return G.page_rank()

    def check(r):
        need(isinstance(r, dict) and set(r) == set(M.nodes),
             'page_rank keys %r', r)
        if M.nodes:
            x = ref.pagerank_residual(list(M.nodes), M.edges, r, d)
            need(x <= 2 * tol + 1e-9, 'page_rank residual %g', x)
    return Plan('query', call, check, query=True)


def costs_ok(M):
    return all('cost' in a for a in M.edges.values())


@op('floyd')
def floyd(run, e, o):
    if not isgraph(e) or not e.M.directed or not costs_ok(e.M) or \
            not e.M.nodes:
        return None
    G, M = e.G, e.M
    nodes = list(M.nodes)
    wadj = ref.weighted(nodes, M.edges)
    dist, neg = {}, False
    for n in nodes:
        dist[n], x = ref.bellman_ford(nodes, wadj, n)
        neg = neg or x

    def call():
        valid, d, nx = G.floyd_warshall()
        if valid:
            paths = dict(((i, j), G.floyd_warshall_get_path(d, nx, i, j))
                         for i in nodes for j in nodes)
            return valid, d, paths
        return valid, d, G.floyd_warshall_get_cycle(d, nx)

    def check(r):
        valid, d, x = r
        need(valid == (not neg), 'floyd_warshall says valid=%r', valid)
        if not valid:
            check_cycle(M, x)
            return
        for i in nodes:
            for j in nodes:
                w = dist[i].get(j)
                need(d[(i, j)] == ('infinity' if w is None else w),
                     'distance of %r is %r instead of %r', (i, j),
                     d[(i, j)], w)
                p = x[(i, j)]
                if w is None:
                    need(p is None, 'path %r is %r', (i, j), p)
                else:
                    check_path(M, p, i, j, w)
    return Plan('sp', call, check, query=True)


@op('neg_cycle')
def neg_cycle(run, e, o):
    if not isgraph(e) or not e.M.directed or not costs_ok(e.M):
        return None
    G, M = e.G, e.M
    nodes = list(M.nodes)
    wadj = ref.weighted(nodes, M.edges)
    neg = any(ref.bellman_ford(nodes, wadj, n)[1] for n in nodes)

    def check(r):
        need((r is not None) == neg, 'get_negative_cycle is %r', r)
        if r is not None:
            check_cycle(M, r)
    return Plan('sp', lambda: G.get_negative_cycle(), check, query=True)


@op('residual')
def residual(run, e, o):
    if not isgraph(e) or not e.M.directed:
        return None
    G, M = e.G, e.M
    for a in M.edges.values():
        if not all(k in a for k in ('flow', 'capacity', 'cost')):
            return None
        if not 0 <= a['flow'] <= a['capacity']:
            return None
    if any((v, u) in M.edges for u, v in M.edges):
        return None

    def check(r):
        want = {}
        for (u, v), a in M.edges.items():
            if a['flow'] > 0:
                want[(v, u)] = (-a['cost'], a['flow'])
            if a['capacity'] > a['flow']:
                want[(u, v)] = (a['cost'], a['capacity'] - a['flow'])
        have = dict((x, (r.edge_attr[x]['cost'], r.edge_attr[x]['capacity']))
                    for x in r.get_edge_list())
        need(have == want, 'residual graph is %r instead of %r', have, want)
        for x in r.get_edge_list():
            # it belongs to the caller
            r.set_edge_attr(x[0], x[1], 'cost', -99)
            r.set_edge_attr(x[0], x[1], 'capacity', -99)
            r.del_edge(x)
    return Plan('query', lambda: G.create_residual_graph(), check, query=True)


@op('print_flow')
def print_flow(run, e, o):
    if not isgraph(e):
        return None
    G, M = e.G, e.M
    if any('flow' not in a or (a['flow'] and 'capacity' not in a)
           for a in M.edges.values()):
        return None

    def check(r):
        out = ''.join(run.client().out)
        want = Counter()
        for k, a in M.edges.items():
            if a['flow']:
                x = '%s %s %s' % (k, a['flow'], a['capacity'])
                want[' '.join(x.split())] += 1
        have = Counter(' '.join(x.split()) for x in out.split('\n')[1:] if x)
        need(have == want, 'print_flow prints %r', out)
    return Plan('query', lambda: G.print_flow(), check, query=True)


# ------------------------------------------------------ search algorithms
def check_path(M, p, s, t, cost=None, hops=None, reverse=False):
    need(isinstance(p, list) and p, 'path is %r', p)
    need(p[0] == s and p[-1] == t, 'path %r does not join %r to %r', p, s, t)
    need(len(set(p)) == len(p), 'path %r repeats a node', p)
    total = 0
    for u, v in zip(p, p[1:]):
        k = M.key(v, u) if reverse else M.key(u, v)
        need(k is not None, 'path %r uses missing edge %r', p, (u, v))
        if cost is not None:
            total += M.edges[k]['cost']
    if cost is not None:
        need(total == cost, 'path %r costs %r, optimum %r', p, total, cost)
    if hops is not None:
        need(len(p) - 1 == hops, 'path %r has %d edges, optimum %d', p,
             len(p) - 1, hops)


def check_cycle(M, c):
    need(isinstance(c, list) and c, 'cycle is %r', c)
    need(len(set(c)) == len(c), 'cycle %r repeats a node', c)
    total = 0
    for u, v in zip(c, c[1:] + c[:1]):
        k = M.key(u, v)
        need(k is not None, 'cycle %r uses missing edge %r', c, (u, v))
        total += M.edges[k]['cost']
    need(total < 0, 'cycle %r has cost %r', c, total)


def check_tree(M, pred, s, reached, reverse=False):
    '''pred is a tree rooted at s that spans reached.  Returns depths and
    costs along the tree.'''
    need(isinstance(pred, dict), 'predecessors are %r', pred)
    have = set(k for k in pred if not (k == s and pred[k] is None))
    need(have == set(reached) - set([s]), 'tree spans %r instead of %r',
         sorted(map(repr, have)), sorted(map(repr, set(reached) - set([s]))))
    depth, cost = {s: 0}, {s: 0}
    for n in have:
        chain, x = [], n
        while x not in depth:
            need(x not in chain, 'predecessors of %r form a cycle', n)
            chain.append(x)
            need(x in pred, 'predecessors of %r do not lead to %r', n, s)
            x = pred[x]
        for y in reversed(chain):
            p = pred[y]
            k = M.key(y, p) if reverse else M.key(p, y)
            need(k is not None, 'tree uses missing edge %r', (p, y))
            depth[y] = depth[p] + 1
            cost[y] = cost[p] + M.edges[k].get('cost', 0)
    return depth, cost


@op('search')
def search(run, e, o):
    if not isgraph(e):
        return None
    G, M = e.G, e.M
    algo = o['algo']
    s = dec(o['s'])
    t = dec(o['t']) if 't' in o else None
    rev = bool(o.get('reverse')) and M.directed
    if s not in M.nodes or ('t' in o and t not in M.nodes):
        return None
    args = {'algo': algo}
    if 't' in o:
        args['destination'] = t
    if o.get('reverse'):
        args['reverse'] = True
    if 'component' in o:
        args['component'] = o['component']
    args.update(disp(o))
    if 'q' in o:
        q = {'DFS': world.graphmod.Stack, 'BFS': world.graphmod.Queue,
             'UnweightedSPT': world.graphmod.Queue}
        if o['q'] == 'p':
            q = {}
        args['q'] = q.get(algo, world.graphmod.PriorityQueue)()
    nodes = list(M.nodes)
    adj = ref.adjacency(nodes, M.edges, M.directed, rev)
    reach = ref.hops(adj, s)
    fam = {'DFS': 'reach', 'BFS': 'sp', 'UnweightedSPT': 'sp',
           'Dijkstra': 'sp', 'Prim': 'mst'}[algo]
    cost = None
    if algo == 'Dijkstra':
        if not costs_ok(M) or \
                any(a['cost'] < 0 for a in M.edges.values()):
            return None
        edges = M.edges
        if rev:
            edges = dict(((v, u), a) for (u, v), a in edges.items())
        cost, _ = ref.bellman_ford(nodes, ref.weighted(nodes, edges,
                                                       M.directed), s)
    if algo == 'Prim':
        if M.directed or not costs_ok(M) or 't' in o:
            return None

    def check(r):
        if 't' in o:
            if t not in reach:
                need(r is None, 'search to unreachable node gave %r', r)
            else:
                check_path(M, r, s, t,
                           cost=cost[t] if cost is not None else None,
                           hops=reach[t] if algo in ('BFS', 'UnweightedSPT')
                           else None, reverse=rev)
            return
        depth, c = check_tree(M, r, s, reach, reverse=rev)
        if algo in ('BFS', 'UnweightedSPT'):
            for n in reach:
                need(depth[n] == reach[n], 'depth of %r is %r instead of %r',
                     n, depth[n], reach[n])
                need(G.get_node_attr(n, 'distance') == reach[n],
                     'distance of %r is %r instead of %r', n,
                     G.get_node_attr(n, 'distance'), reach[n])
        if algo == 'Dijkstra':
            for n in reach:
                need(c[n] == cost[n], 'cost to %r is %r instead of %r', n,
                     c[n], cost[n])
        if algo == 'Prim':
            check_mst(M, [(r[n], n) for n in r], s)
        if 'component' in o and algo not in ('Dijkstra', 'Prim'):
            for n in reach:
                need(G.get_node_attr(n, 'component') == o['component'],
                     'component of %r', n)
    return Plan(fam, lambda: G.search(s, **args), check, N=N_SEARCH,
                E=('color',))


def check_mst(M, edges, s=None):
    nodes = list(M.nodes)
    if s is not None:
        comp = set(ref.hops(ref.adjacency(nodes, M.edges, False), s))
    else:
        comp = set(nodes)
    sub = dict((k, a) for k, a in M.edges.items() if k[0] in comp)
    want, k = ref.mst_cost(list(comp), sub)
    uf, total = ref.Union(comp), 0
    for u, v in edges:
        key = M.key(u, v)
        need(key is not None and u in comp, 'tree uses missing edge %r',
             (u, v))
        need(uf.union(u, v), 'edges %r contain a cycle', edges)
        total += M.edges[key]['cost']
    need(len(edges) == k, 'tree has %d edges instead of %d', len(edges), k)
    need(total == want, 'tree costs %r, optimum %r', total, want)


@op('prim')
def prim(run, e, o):
    if not isgraph(e) or e.M.directed or not costs_ok(e.M):
        return None
    G, M, s = e.G, e.M, dec(o['s'])
    if s not in M.nodes:
        return None
    reach = ref.hops(ref.adjacency(list(M.nodes), M.edges, False), s)

    def check(r):
        check_tree(M, r, s, reach)
        check_mst(M, [(r[n], n) for n in r if r[n] is not None], s)
    args = disp(o)
    if 'q' in o:
        args['q'] = world.graphmod.PriorityQueue()
    return Plan('mst', lambda: G.minimum_spanning_tree_prim(s, **args),
                check, N=('color', 'label'), E=('color',))


@op('kruskal')
def kruskal(run, e, o):
    if not isgraph(e) or e.M.directed or not costs_ok(e.M):
        return None
    G, M = e.G, e.M

    def check(r):
        need(isinstance(r, list), 'kruskal returned %r', r)
        check_mst(M, list(r))
    args = disp(o)
    if 'sets' in o:
        args['components'] = world.graphmod.DisjointSet(optimize=o['sets'])
    return Plan('mst', lambda: G.minimum_spanning_tree_kruskal(**args),
                check, E=('color',))


@op('bfs')
def bfs(run, e, o):
    if not isgraph(e):
        return None
    G, M, s = e.G, e.M, dec(o['s'])
    if s not in M.nodes:
        return None
    reach = ref.hops(ref.adjacency(list(M.nodes), M.edges, M.directed), s)
    args = disp(o)
    if 'component' in o:
        args['component'] = o['component']

    def check(r):
        for n in M.nodes:
            need(G.get_node_attr(n, 'distance') == reach.get(n),
                 'distance of %r is %r instead of %r', n,
                 G.get_node_attr(n, 'distance'), reach.get(n))
            if n in reach and 'component' in o:
                need(G.get_node_attr(n, 'component') == o['component'],
                     'component of %r', n)
    return Plan('sp', lambda: G.bfs(s, **args), check, N=N_SEARCH,
                E=('color',))


@op('diameter')
def diameter(run, e, o):
    if not isgraph(e) or e.M.directed or not e.M.nodes or \
            len(e.M.nodes) > 6:
        return None
    G, M = e.G, e.M
    if (
            len(M.nodes) > 4 and run.effective(o, run.client()) != 'off'):
        return None
    adj = ref.adjacency(list(M.nodes), M.edges, False)
    ecc = []
    for n in M.nodes:
        h = ref.hops(adj, n)
        if len(h) < len(M.nodes):
            ecc = None
            break
        ecc.append(max(h.values()))

    def check(r):
        if ecc is None:
            need(r == 'infinity', 'diameter of a disconnected graph is %r', r)
        else:
            # the documentation defines the one and the code gives the other
            need(r in (min(ecc), max(ecc)), 'diameter is %r, the largest '
                 'distances of the nodes are %r', r, ecc)
    return Plan('sp', lambda: G.get_diameter(), check, N=N_SEARCH,
                E=('color',))


@op('fifo')
def fifo(run, e, o):
    if not isgraph(e) or not costs_ok(e.M):
        return None
    G, M, s = e.G, e.M, dec(o['s'])
    if s not in M.nodes:
        return None
    if not M.directed and any(a['cost'] < 0 for a in M.edges.values()):
        return None
    nodes = list(M.nodes)
    dist, neg = ref.bellman_ford(nodes, ref.weighted(nodes, M.edges,
                                                     M.directed), s)

    def check(r):
        ok, x = r
        need(ok == (not neg), 'label correcting says %r', ok)
        if not ok:
            check_cycle(M, x)
            return
        _, c = check_tree(M, x, s, dist)
        for n in nodes:
            d = G.get_node_attr(n, 'distance')
            if n in dist:
                need(d == dist[n], 'distance of %r is %r instead of %r', n,
                     d, dist[n])
                need(c[n] == dist[n], 'tree cost of %r is %r instead of %r',
                     n, c[n], dist[n])
            else:
                need(d in ('inf', float('inf'), None),
                     'distance of unreachable %r is %r', n, d)
    return Plan('sp', lambda: G.fifo_label_correcting(s), check,
                N=('distance', 'label'))


@op('acyclic')
def acyclic(run, e, o):
    if not isgraph(e) or not e.M.directed or not costs_ok(e.M):
        return None
    G, M, s = e.G, e.M, dec(o['s'])
    nodes = list(M.nodes)
    if s not in M.nodes or not ref.is_dag(nodes, M.edges):
        return None
    t = dec(o['t']) if 't' in o else None
    if 't' in o and t not in M.nodes:
        return None
    dist, _ = ref.bellman_ford(nodes, ref.weighted(nodes, M.edges), s)
    args = {'destination': t} if 't' in o else {}

    def check(r):
        if 't' in o:
            if t in dist:
                check_path(M, r, s, t, cost=dist[t])
            else:
                need(not isinstance(r, list), 'path %r to unreachable node',
                     r)
            return
        _, c = check_tree(M, r, s, dist)
        for n in dist:
            need(c[n] == dist[n], 'cost to %r is %r instead of %r', n, c[n],
                 dist[n])
    return Plan('sp', lambda: G.acyclic_shortest_path(s, **args), check,
                N=N_DFS, E=('color',))


# -------------------------------------------- reachability and components
def check_partition(G, M, blocks, what):
    label = {}
    for b in blocks:
        vals = set(repr(G.get_node_attr(n, 'component')) for n in b)
        need(len(vals) == 1, '%s: %r have component numbers %r', what,
             sorted(map(repr, b)), sorted(vals))
        v = vals.pop()
        need(v != 'None', '%s: %r are unlabelled', what,
             sorted(map(repr, b)))
        need(v not in label, '%s: %r and %r share number %s', what,
             label.get(v), b, v)
        label[v] = b


@op('components')
def components(run, e, o):
    if not isgraph(e) or e.M.directed:
        return None
    G, M = e.G, e.M
    blocks = ref.components(list(M.nodes), M.edges)

    def check(r):
        check_partition(G, M, blocks, 'components')
        need(G.num_components == len(blocks), 'num_components is %r',
             G.num_components)
    return Plan('reach', lambda: G.label_components(**disp(o)), check,
                N=N_SEARCH, E=('color',))


@op('strong')
def strong(run, e, o):
    if not isgraph(e) or not e.M.directed:
        return None
    G, M = e.G, e.M
    blocks = ref.strong_components(list(M.nodes), M.edges)

    def check(r):
        check_partition(G, M, blocks, 'strong components')
        if M.nodes or not o.get('tarjan'):
            need(G.num_components == len(blocks), 'num_components is %r',
                 G.num_components)

    def call():
        if o.get('tarjan'):
            return G.tarjan()
        return G.label_strong_component()
    return Plan('reach', call, check, N=('component', 'index', 'lowlink'))


@op('dfs')
def dfs(run, e, o):
    if not isgraph(e):
        return None
    G, M = e.G, e.M
    s = dec(o['s'])
    if s not in M.nodes:
        return None
    nodes = list(M.nodes)
    adj = ref.adjacency(nodes, M.edges, M.directed)
    comp = o.get('component', 7)
    whole = o.get('whole')
    pred, order, roots = {}, [], []
    bare = o.get('bare')
    count, first = o.get('count', (0, 1))

    def call():
        for n in G.get_node_list():
            G.set_node_attr(n, 'disc_time', None)
            G.set_node_attr(n, 'finish_time', None)
        args = dict(disp(o), component=comp)
        if not bare:
            args.update(pred=pred, topological_order=order)
        if 'count' in o:
            r = G.dfs(s, count, first, **args)
        else:
            r = G.dfs(s, **args)
        roots.append(s)
        if whole:
            for n in nodes:
                if G.get_node_attr(n, 'disc_time') is None:
                    roots.append(n)
                    r = G.dfs(n, r[0], r[1], **args)
        return r

    def check(r):
        reach = set(ref.hops(adj, s)) if not whole else set(nodes)
        disc = dict((n, G.get_node_attr(n, 'disc_time')) for n in nodes)
        fin = dict((n, G.get_node_attr(n, 'finish_time')) for n in nodes)
        got = set(n for n in nodes if disc[n] is not None)
        need(got == reach, 'dfs reached %r instead of %r',
             sorted(map(repr, got)), sorted(map(repr, reach)))
        k = len(reach)
        need(sorted(disc[n] for n in reach) ==
             list(range(count + 1, count + k + 1)),
             'discovery numbers %r', disc)
        need(sorted(fin[n] for n in reach) == list(range(first, first + k)),
             'finishing numbers %r', fin)
        need(tuple(r) == (count + k, first + k), 'dfs returned %r', r)
        for n in reach:
            need(G.get_node_attr(n, 'component') == comp, 'component of %r',
                 n)
        for u in reach:
            for v in adj[u]:
                if u != v:
                    need(not (disc[u] < disc[v] and fin[u] < fin[v]),
                         '%r was discovered after %r was finished', v, u)
        if bare:
            return
        need(sorted(map(repr, order)) == sorted(map(repr, reach)),
             'order %r', order)
        need(order == sorted(reach, key=lambda n: -fin[n]),
             'topological order %r is not by finishing time', order)
        for n in pred:
            need(M.key(pred[n], n) is not None, 'pred uses missing edge %r',
                 (pred[n], n))
            need(disc[pred[n]] < disc[n] and fin[n] < fin[pred[n]],
                 'numbering of %r is not nested in %r', n, pred[n])
        need(set(pred) == reach - set(roots), 'pred is %r', pred)
        if M.directed and ref.is_dag(nodes, M.edges):
            pos = dict((n, i) for i, n in enumerate(order))
            for u, v in M.edges:
                if u in pos:
                    need(pos[u] < pos[v], 'arc %r goes backwards in %r',
                         (u, v), order)
    return Plan('reach', call, check, N=N_DFS, E=('color',))


@op('kosaraju')
def kosaraju(run, e, o):
    '''Strong components by two depth-first passes, the second one on the
    transposed graph: what dfs(transpose=True) is for.'''
    if not isgraph(e) or not e.M.directed or not e.M.nodes:
        return None
    G, M = e.G, e.M
    nodes = list(M.nodes)
    blocks = ref.strong_components(nodes, M.edges)

    def call():
        for n in nodes:
            G.set_node_attr(n, 'disc_time', None)
        r = (0, 1)
        for n in nodes:
            if G.get_node_attr(n, 'disc_time') is None:
                r = G.dfs(n, r[0], r[1], **disp(o))
        for n in nodes:
            G.set_node_attr(n, 'component', None)
        k = 0
        for n in sorted(nodes, key=lambda n: -G.get_node_attr(
                n, 'finish_time')):
            if G.get_node_attr(n, 'component') is None:
                G.dfs(n, component=k, transpose=True, **disp(o))
                k += 1
        return k

    def check(r):
        check_partition(G, M, blocks, 'two-pass strong components')
        need(r == len(blocks), '%r strong components', r)
    return Plan('reach', call, check, N=N_DFS, E=('color',))


@op('hamiltonian')
def hamiltonian(run, e, o):
    if not isgraph(e) or len(e.M.nodes) > 8 or not e.M.nodes:
        return None
    G, M, s = e.G, e.M, dec(o['s'])
    t = dec(o['t']) if 't' in o else None
    if s not in M.nodes or ('t' in o and t not in M.nodes):
        return None
    if len(M.nodes) > 1 and t is not None and t == s:
        return None
    if len(M.nodes) > 5 and run.effective(o, run.client()) != 'off':
        return None
    adj = ref.adjacency(list(M.nodes), M.edges, M.directed)
    want = ref.hamiltonian(M.nodes, adj, s, t)
    args = {} if t is None else {'destination': t}
    args.update(disp(o))
    pred = {}

    if not o.get('bare'):
        args['pred'] = pred

    def check(r):
        need(bool(r) == want, 'hamiltonian says %r', r)
        if 'pred' in args and r and t is not None and len(M.nodes) > 1:
            p, x = [t], t
            while x != s:
                need(x in pred and len(p) <= len(M.nodes),
                     'predecessors %r do not lead from %r to %r', pred, s, t)
                x = pred[x]
                p.insert(0, x)
            check_path(M, p, s, t, hops=len(M.nodes) - 1)
    return Plan('reach', lambda: G.hamiltonian(s, **args), check,
                N=('label', 'visited', 'color'), E=('color',))


# ------------------------------------------------------------------ flows
def flow_graph(M, caps_needed=False):
    '''Is this a graph the flow algorithms are meant for?'''
    if not M.directed or not M.nodes:
        return False
    for (u, v), a in M.edges.items():
        if u != v and (v, u) in M.edges:
            return False
        c = a.get('capacity')
        if c is not None and c < 0:
            return False
    return True


def read_flow(G, M):
    f = {}
    for (u, v) in M.edges:
        try:
            f[(u, v)] = G.get_edge_attr(u, v, 'flow')
        except KeyError:
            raise Bad('arc %r has no flow' % ((u, v),))
    return f


def check_flow(M, f, balance, free=()):
    net = dict((n, 0) for n in M.nodes)
    for (u, v), x in f.items():
        cap = ref.capacity(M.edges[(u, v)])
        need(isinstance(x, (int, float)) and not isinstance(x, bool) and
             x == int(x), 'flow of %r is %r', (u, v), x)
        need(0 <= x <= cap, 'flow of %r is %r, capacity %r', (u, v), x, cap)
        net[u] += x
        net[v] -= x
    for n in M.nodes:
        if n not in free:
            need(net[n] == balance.get(n, 0),
                 'net outflow of %r is %r instead of %r', n, net[n],
                 balance.get(n, 0))
    return net


@op('max_flow')
def max_flow(run, e, o):
    if not isgraph(e) or not flow_graph(e.M):
        return None
    G, M = e.G, e.M
    s, t = dec(o['s']), dec(o['t'])
    if s not in M.nodes or t not in M.nodes or s == t:
        return None
    want = ref.max_flow_value(list(M.nodes), M.edges, s, t)
    args = disp(o)
    if 'algo' in o:
        args['algo'] = o['algo']

    def check(r):
        f = read_flow(G, M)
        net = check_flow(M, f, {}, (s, t))
        need(net[s] == want and net[t] == -want,
             'flow value is %r, maximum %r', net[s], want)
    return Plan('maxflow', lambda: G.max_flow(s, t, **args), check,
                N=('color',), E=FLOW_E, capfix=True)


@op('preflow')
def preflow(run, e, o):
    if not isgraph(e) or not flow_graph(e.M):
        return None
    G, M = e.G, e.M
    s, t = dec(o['s']), dec(o['t'])
    if s not in M.nodes or t not in M.nodes or s == t:
        return None
    want = ref.max_flow_value(list(M.nodes), M.edges, s, t)
    args = disp(o)
    if 'algo' in o:
        args['algo'] = o['algo']

    def check(r):
        f = read_flow(G, M)
        net = check_flow(M, f, {}, (s, t))
        need(net[s] == want and net[t] == -want,
             'flow value is %r, maximum %r', net[s], want)
    return Plan('maxflow', lambda: G.max_flow_preflowpush(s, t, **args),
                check, N=N_PREFLOW, E=FLOW_E, capfix=True)


@op('mincost')
def mincost(run, e, o):
    if not isgraph(e) or not flow_graph(e.M) or not costs_ok(e.M):
        return None
    G, M = e.G, e.M
    nodes = list(M.nodes)
    if not all('demand' in a for a in M.nodes.values()):
        return None
    demand = dict((n, M.nodes[n]['demand']) for n in nodes)
    if sum(demand.values()) != 0 or \
            len(ref.components(nodes, M.edges)) != 1:
        return None
    want = ref.min_cost_flow(nodes, M.edges, demand)
    args = {}
    for k in ('algo', 'pivot'):
        if k in o:
            args[k] = o[k]
    if 'root' in o:
        args['root'] = dec(o['root'])
        if args['root'] not in M.nodes:
            return None
    args.update(disp(o))

    def call():
        return G.min_cost_flow(**args)
    if 's' in M.nodes or 't' in M.nodes:
        # the names of the auxiliary nodes: refused
        return Plan('mincost', call, None, reject=True)

    def check(r):
        text = ''.join(run.client().out)
        said = 'infeasible' in text
        if want is None:
            need(said, 'an infeasible problem was not reported')
            return
        need(not said, 'a feasible problem was called infeasible')
        f = read_flow(G, M)
        check_flow(M, f, demand)
        cost = sum(f[k] * M.edges[k]['cost'] for k in f)
        need(cost == want, 'flow costs %r, optimum %r', cost, want)
    return Plan('mincost', call, check, N=N_SIMPLEX, E=FLOW_E, capfix=True)


# ----------------------------------------------------------------- misuse
def missing(M, e, attr):
    '''Where an attribute is taken away for the time of a call.'''
    return [k for k in sorted(M, key=repr) if attr in M[k]]


@op('misuse')
def misuse(run, e, o):
    '''A call the user got wrong: a node that does not exist, an option that
    does not exist, data that are missing, the wrong kind of graph. Whatever
    it says or returns, the graph must survive it.'''
    if not isgraph(e):
        return None
    G, M, w = e.G, e.M, o['what']
    s, t = dec(o['s']), dec(o['t'])
    args = disp(o)
    for k in ('algo', 'pivot'):
        if k in o:
            args[k] = o[k]
    if 'root' in o:
        args['root'] = dec(o['root'])
    if w == 'search':
        f = lambda: G.search(s, destination=t, **args)
    elif w in ('dfs', 'bfs', 'hamiltonian'):
        f = lambda: getattr(G, w)(s, **args)
    elif w == 'prim':
        f = lambda: G.minimum_spanning_tree_prim(s, **args)
    elif w == 'kruskal':
        f = lambda: G.minimum_spanning_tree_kruskal(**args)
    elif w == 'components':
        f = lambda: G.label_components(**args)
    elif w == 'max_flow':
        f = lambda: G.max_flow(s, t, **args)
    elif w == 'preflow':
        f = lambda: G.max_flow_preflowpush(s, t, **args)
    elif w == 'mincost':
        f = lambda: G.min_cost_flow(**args)
    elif w == 'fifo':
        f = lambda: G.fifo_label_correcting(s)
    elif w == 'acyclic':
        f = lambda: G.acyclic_shortest_path(s)
    elif w == 'floyd':
        f = lambda: G.floyd_warshall()
    elif w == 'residual':
        f = lambda: G.create_residual_graph()
    elif w == 'page_rank':
        f = lambda: G.page_rank()
    else:
        return None
    call = f
    if 'drop' in o:
        i, attr = o['drop']

        def call():
            if attr == 'demand':
                d = dict((n, G.get_node(n).attr) for n in M.nodes)
            else:
                d = G.edge_attr
            k = missing(d, e, attr)
            if not k:
                return None
            d = d[k[i % len(k)]]
            val = d.pop(attr)
            try:
                return f()
            finally:
                d[attr] = val
    return Plan('misuse', call, N=N_SIMPLEX + N_PREFLOW + N_SEARCH + N_DFS,
                E=FLOW_E, capfix=True)


# -------------------------------------------------------------- rendering
@op('display')
def display(run, e, o):
    if e is None:
        return None
    G = e.G
    args = {}
    hl = None
    if 'highlight' in o:
        hl = [dec(n) for n in o['highlight']]
        if any(G.get_node(n) is None for n in hl):
            return None
        args['highlight'] = ([G.get_node(n) for n in hl] if o.get('as_node')
                             else hl)
    for k in ('basename', 'format', 'pause', 'wait_for_click'):
        if k in o:
            args[k] = o[k]

    def check(r):
        need(r is None, 'display returned %r', r)
    p = Plan('render', lambda: G.display(**args), check,
             N=('color',) if hl else ())
    p.basename = o.get('basename', 'graph')
    p.format = o.get('format', 'png')
    return p


@op('write')
def write(run, e, o):
    if e is None:
        return None
    G = e.G
    fmt = o.get('format', 'png')
    name = o['file']
    args = {'format': fmt}
    if 'layout' in o:
        args['layout'] = o['layout']
    elif G.get_layout() == 'dot2tex':
        # not a program of Graphviz
        args['layout'] = 'dot'

    def call():
        with open(name, 'w+b') as f:
            G.write(f, **args)

    def check(r):
        c = run.client()
        with world.real.io_open(os.path.join(world.cwd, name), 'rb') as f:
            data = f.read()
        if fmt == 'dot':
            bad = run.compare_text(G, data.decode('utf8', 'replace'))
            need(not bad, 'write: %s', '; '.join(bad[:3]))
            return
        good = [f for f in c.frames if f['via'] == 'graphviz' and
                f.get('image') is not None]
        if good:
            need(data == good[-1]['image'],
                 'the file has not what Graphviz produced')
        else:
            need(c.rout, 'nothing was written and nothing was said')
    p = Plan('render', call, check)
    p.deliver = True
    p.layout, p.format = args.get('layout'), fmt
    return p


@op('create')
def create(run, e, o):
    if e is None:
        return None
    G = e.G

    def check(r):
        c = run.client()
        good = [f for f in c.frames if f['via'] == 'graphviz' and
                f.get('image') is not None]
        if good:
            need(r == good[-1]['image'],
                 'create did not return what Graphviz produced')
        else:
            need(r is None and c.rout,
                 'no picture and no message, returned %r', r)
    p = Plan('render', lambda: G.create(o['layout'], o['format']), check)
    p.deliver = True
    p.layout, p.format = o['layout'], o['format']
    return p


# ------------------------------------------------------------------ trees
def istree(e):
    return e is not None and e.kind in ('tree', 'bintree')


@op('root')
def root(run, e, o):
    if not istree(e):
        return None
    T, M, n = e.G, e.M, o['n']
    a = {}
    if 'label' in o:
        a['label'] = o['label']
    if n in M.parent:
        return Plan('tree', lambda: T.add_root(n, **a), reject=True)
    if M.root is not None:
        return None
    return Plan('tree', lambda: T.add_root(n, **a),
                apply=lambda: M.add(n, None, label=o.get('label')),
                edit=True)


@op('child')
def child(run, e, o):
    if not istree(e):
        return None
    T, M, n, p = e.G, e.M, o['n'], o['p']
    a = {}
    if 'label' in o:
        a['label'] = o['label']
    side = o.get('side')
    if M.binary != (side is not None):
        return None
    if side is None:
        f = lambda: T.add_child(n, p, **a)
    elif side == 'L':
        f = lambda: T.add_left_child(n, p, **a)
    else:
        f = lambda: T.add_right_child(n, p, **a)
    if p not in M.parent or n in M.parent or \
            (side and M.child(p, side) is not None):
        return Plan('tree', f, reject=True)
    return Plan('tree', f,
                apply=lambda: M.add(n, p, side, o.get('label')), edit=True)


@op('del_leaf')
def del_leaf(run, e, o):
    if not istree(e):
        return None
    T, M, n = e.G, e.M, o['n']
    if n not in M.parent or M.children[n]:
        return None
    if M.parent[n] is None and not M.binary:
        return None
    return Plan('tree', lambda: T.del_node(n), apply=lambda: M.remove(n),
                edit=True)


def red_nodes(c):
    '''Nodes shown highlighted, frame by frame.'''
    out = []
    for f in c.frames:
        p = f.get('parsed')
        if p is None:
            continue
        red = [n for n, al, cl in p.nodes if ('color', 'red') in al]
        out.append(red)
    return out


def tree_order(M, r, first, second, bfs):
    '''Order in which a stack or queue serves the nodes of a tree.'''
    q, out = [r], []
    while q:
        n = q.pop(0) if bfs else q.pop()
        out.append(n)
        if M.binary:
            for s in (first, second):
                m = M.child(n, s)
                if m is not None:
                    q.append(m)
        else:
            q.extend(M.children[n])
    return out


@op('traverse')
def traverse(run, e, o):
    if not istree(e):
        return None
    T, M = e.G, e.M
    r = o.get('root', M.root)
    if r not in M.parent:
        return None
    args = disp(o)
    if 'root' in o:
        args['root'] = o['root']
    how = o['how']
    first, second = 'L', 'R'
    if M.binary and 'priority' in o:
        args['priority'] = o['priority']
        if o['priority'] == 'R':
            first, second = 'R', 'L'
    isbfs = how in ('bfs', 'queue')
    stale = [n for n in T.get_node_list()
             if T.get_node_attr(n, 'color') == 'red']

    def call():
        if how == 'bfs':
            return T.bfs(**args)
        if how == 'dfs':
            return T.dfs(**args)
        if how == 'queue':
            return T.traverse(q=world.graphmod.Queue(), **args)
        if how == 'stack':
            return T.traverse(q=world.graphmod.Stack(), **args)
        return T.traverse(**args)

    def check(res):
        c = run.client()
        if run.animated(c, T, o):
            # marks of a traversal that was cut short go when the node is
            # visited again
            want, left = [], list(stale)
            for n in tree_order(M, r, first, second, isbfs):
                want.append(sorted(set([str(n)] + [str(x) for x in left])))
                left = [x for x in left if x != n]
            have = [sorted(x) for x in red_nodes(c)]
            if stale and have != want:
                want = [[str(n)] for n in tree_order(M, r, first, second,
                                                     isbfs)]
            need(have == want, 'nodes visited %r instead of %r', have, want)
    return Plan('tree', call, check, N=())


def dfs_print(M, n, order, first, second):
    out = []
    if n is None:
        return out
    a = dfs_print(M, M.child(n, first), order, first, second)
    b = dfs_print(M, M.child(n, second), order, first, second)
    if order == 'pre':
        return [n] + a + b
    if order == 'in':
        return a + [n] + b
    return a + b + [n]


@op('print_nodes')
def print_nodes(run, e, o):
    if not istree(e) or not e.M.binary:
        return None
    T, M = e.G, e.M
    r = o.get('root', M.root)
    if r not in M.parent:
        return None
    args = disp(o)
    for k in ('order', 'priority', 'root'):
        if k in o:
            args[k] = o[k]
    first, second = ('L', 'R') if o.get('priority', 'L') == 'L' else \
        ('R', 'L')
    want = dfs_print(M, r, o.get('order', 'in'), first, second)

    def check(res):
        have = ''.join(run.client().out).split('\n')[:-1]
        need(have == [str(n) for n in want], 'printed %r instead of %r',
             have, want)
    return Plan('tree', lambda: T.print_nodes(**args), check)


def expression(M, n):
    '''(value, is it a proper expression tree) of the subtree at n.'''
    lab = M.label.get(n, n)
    a, b = M.child(n, 'L'), M.child(n, 'R')
    if a is None and b is None:
        try:
            return int(lab)
        except (TypeError, ValueError):
            return None
    if a is None or b is None or lab not in ('+', '-', '*', '/'):
        return None
    x, y = expression(M, a), expression(M, b)
    if x is None or y is None:
        return None
    if lab == '+':
        return x + y
    if lab == '-':
        return x - y
    if lab == '*':
        return x * y
    if y == 0:
        return None
    return x / y


@op('evaluate')
def evaluate(run, e, o):
    if not istree(e) or not e.M.binary or e.M.root is None:
        return None
    T, M = e.G, e.M
    root = o.get('root', M.root)
    if root not in M.parent:
        return None
    args = disp(o)
    if 'root' in o:
        args['root'] = root
    below = dfs_print(M, root, 'pre', 'L', 'R')
    want = expression(M, root)
    if want is None or abs(want) > 1e12:
        return None
    for n in M.parent:
        # every inner node must be evaluable without dividing by zero
        if expression(M, n) is None:
            return None

    def check(res):
        need(res == want, 'value is %r instead of %r', res, want)
        toks = ''.join(run.client().out).split()
        labs = [str(M.label.get(x, x)) for x in below]
        need(not Counter(labs) - Counter(toks), 'printed %r', toks)
    return Plan('tree', lambda: T.postordereval(**args), check)


@op('infix')
def infix(run, e, o):
    if not istree(e) or not e.M.binary or e.M.root is None:
        return None
    T, M = e.G, e.M
    root = o.get('root', M.root)
    if root not in M.parent:
        return None
    args = disp(o)
    if 'root' in o:
        args['root'] = root
    for n in M.parent:
        a, b = M.child(n, 'L'), M.child(n, 'R')
        if (a is None) != (b is None):
            return None

    def text(n):
        lab = str(M.label.get(n, n)).split()
        a, b = M.child(n, 'L'), M.child(n, 'R')
        if a is None:
            return lab
        return ['('] + text(a) + lab + text(b) + [')']

    def check(res):
        have = ''.join(run.client().out).split()
        need(have == text(root), 'printed %r instead of %r', have,
             text(root))
    return Plan('tree', lambda: T.printexp(**args), check)


@op('tree_query')
def tree_query(run, e, o):
    if not istree(e):
        return None
    T, M = e.G, e.M

    def call():
        r = {}
        for n in T.get_node_list():
            r[n] = [T.get_parent(n), list(T.get_children(n)),
                    T.get_node_attr(n, 'level')]
            if M.binary:
                # by name or by node
                r[n] += [T.get_left_child(n), T.get_right_child(n),
                         T.get_left_child(T.get_node(n)),
                         T.get_right_child(T.get_node(n))]
        return r

    def check(res):
        bad = M.structure(T)
        need(not bad, '%s', '; '.join(bad[:3]))
        for n in M.parent:
            x = [M.parent[n], M.children[n], M.level(n)]
            if M.binary:
                x += [M.child(n, 'L'), M.child(n, 'R')] * 2
            need(res.get(n) == x, 'parent, children and level of %r are %r '
                 'instead of %r', n, res.get(n), x)
    return Plan('tree', call, check)


# ---------------------------------------------------------- disjoint sets
@op('ds_add')
def ds_add(run, e, o):
    if e is None or e.kind != 'dset':
        return None
    D, M, items = e.G, e.M, list(o['items'])
    if items[0] in M.block:
        return Plan('dset', lambda: D.add(list(items)), reject=True)
    if any(i in M.block for i in items) or len(set(items)) != len(items):
        return None
    return Plan('dset', lambda: D.add(list(items)),
                apply=lambda: M.add(items), edit=True)


@op('ds_union')
def ds_union(run, e, o):
    if e is None or e.kind != 'dset':
        return None
    D, M, i, j = e.G, e.M, o['i'], o['j']
    if i not in M.block or j not in M.block:
        return Plan('dset', lambda: D.union(i, j), reject=True)
    want = M.block[i] is not M.block[j]

    def check(res):
        need(res is want, 'union(%r, %r) returned %r', i, j, res)
    return Plan('dset', lambda: D.union(i, j), check,
                apply=lambda: M.union(i, j), edit=True)


def ds_check(D, M):
    '''find of every item, sizes of every representative.'''
    rep = {}
    for i in M.block:
        r = D.find(i)
        need(r in M.block and M.block[r] is M.block[i],
             'find(%r) is %r, not in the set of %r', i, r, i)
        b = id(M.block[i])
        need(rep.setdefault(b, r) == r,
             'find(%r) is %r, %r for another member', i, r, rep[b])
        need(D.find(i) == r, 'find(%r) changed', i)
        need(D.sizes.get(r) == len(M.block[i]),
             'size of the set of %r is %r instead of %d', i, D.sizes.get(r),
             len(M.block[i]))


@op('ds_find')
def ds_find(run, e, o):
    if e is None or e.kind != 'dset':
        return None
    D, M = e.G, e.M
    items = [i for i in o['items']]
    if any(i not in M.block for i in items):
        items = [i for i in items if i not in M.block][:1]
        return Plan('dset', lambda: D.find(items[0]), reject=True)

    def check(res):
        for i, r in zip(items, res):
            need(r in M.block and M.block[r] is M.block[i],
                 'find(%r) is %r', i, r)
            need(D.sizes.get(r) == len(M.block[i]),
                 'size of the set of %r is %r instead of %d', i,
                 D.sizes.get(r), len(M.block[i]))
        for i, r in zip(items, res):
            for j, q in zip(items, res):
                if M.block[i] is M.block[j]:
                    need(r == q, 'find(%r) is %r but find(%r) is %r', i, r,
                         j, q)
    return Plan('dset', lambda: [D.find(i) for i in items], check)


@op('ds_check')
def ds_check_op(run, e, o):
    '''Complete check on a copy, so that the check itself compresses no
    path of the set under test.'''
    if e is None or e.kind != 'dset':
        return None
    import copy

    def check(res):
        ds_check(copy.deepcopy(e.G), e.M)
        need(sorted(map(repr, e.G.get_node_list())) ==
             sorted(map(repr, e.M.block)), 'items are %r',
             e.G.get_node_list())
    return Plan('dset', lambda: None, check)


# ----------------------------------------------------------------- random
@op('random')
def random_op(run, e, o):
    if not isgraph(e) or e.M.nodes:
        return None
    G, M = e.G, e.M
    p = dict(o['params'])
    if not M.directed:
        # pairs have one orientation only
        p.pop('parallel_allowed', None)
    for k in ('degree_range', 'length_range'):
        if p.get(k) is not None:
            p[k] = tuple(p[k])

    def call():
        return G.random(**p)

    def check(res):
        n = p.get('numnodes', 10)
        need(sorted(G.get_node_list()) == list(range(n)), 'nodes are %r',
             G.get_node_list())
        euclid = p.get('Euclidean', False)
        lr = p.get('length_range', (1, 10))
        for u, v in G.get_edge_list():
            need(u in range(n) and v in range(n) and u != v,
                 'edge %r', (u, v))
            if not euclid:
                need(p.get('parallel_allowed') or
                     (v, u) not in G.edge_attr, 'edges %r both ways', (u, v))
            a = G.edge_attr[(u, v)]
            if not euclid and lr is not None:
                need(isinstance(a.get('cost'), int) and
                     lr[0] <= a['cost'] <= lr[1], 'cost of %r is %r', (u, v),
                     a.get('cost'))
            if 'cost' in a and p.get('add_labels', True):
                need(a.get('label') == str(a['cost']), 'label of %r is %r',
                     (u, v), a.get('label'))
        # the model follows: later operations work on this graph
        for x in G.get_node_list():
            M.add_node(x, dict(G.get_node(x).attr))
        for (u, v) in G.get_edge_list():
            M.add_edge(u, v, dict(G.edge_attr[(u, v)]))
        bad = M.structure(G)
        need(not bad, '%s', '; '.join(bad[:3]))
    return Plan('random', call, check, edit=True)


@op('noise')
def noise(run, e, o):
    '''Somebody else uses the random module.'''
    import random

    def call():
        for x in o['do']:
            if x < 0:
                random.seed(x)
            else:
                for _ in range(x):
                    random.random()
                random.randint(0, 5)
        return None
    return Plan('noise', call)


@op('takeflow')
def takeflow(run, e, o):
    '''The flow an algorithm left becomes data of the user.'''
    if not isgraph(e):
        return None
    G, M = e.G, e.M

    def apply():
        for k in M.edges:
            a = G.edge_attr[k]
            if 'flow' in a:
                M.edges[k]['flow'] = a['flow']
            if 'capacity' in a:
                M.edges[k]['capacity'] = a['capacity']
    return Plan('query', lambda: None, apply=apply)
