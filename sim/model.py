'''
Shadow models: what a graph, tree or disjoint set must look like after the
accepted operations, kept as plain data by the harness.
'''
import copy
import functools
from collections import Counter

INPUTS = ('cost', 'capacity', 'demand')


def enc(x):
    '''A node name as JSON.'''
    if isinstance(x, tuple):
        return {'t': [enc(y) for y in x]}
    return x


def dec(x):
    if isinstance(x, dict):
        return tuple(dec(y) for y in x['t'])
    return x


def holders(G):
    '''The objects a graph keeps its state in.'''
    d = getattr(G, '__dict__', {})
    yield d
    nodes = d.get('nodes')
    for n in nodes.values() if isinstance(nodes, dict) else ():
        if hasattr(n, '__dict__'):
            yield n.__dict__


def unseen(f):
    '''
    Looking at a graph leaves nothing behind in it: what the queries keep
    for the next time (caches) is as it was before.
    '''
    @functools.wraps(f)
    def look(*args):
        kept = []
        for d in holders(args[-1]):
            kept.append((d, dict(d), [
                (v, v.copy()) for v in d.values()
                if isinstance(v, (dict, list, set))]))
        try:
            return f(*args)
        finally:
            for d, was, inner in kept:
                for v, w in inner:
                    if len(v) != len(w) or ids(v) != ids(w):
                        v.clear()
                        (v.extend if isinstance(v, list) else v.update)(w)
                if len(d) != len(was) or ids(d) != ids(was):
                    d.clear()
                    d.update(was)
    return look


def ids(v):
    if isinstance(v, dict):
        return [(id(a), id(b)) for a, b in v.items()]
    return sorted(id(a) for a in v) if isinstance(v, set) else [
        id(a) for a in v]


@unseen
def snapshot(G):
    '''Complete copy of everything observable in a graph, as plain data.'''
    s = {
        'type': G.graph_type,
        'nodes': [(n, copy.deepcopy(G.get_node(n).attr))
                  for n in G.get_node_list()],
        'edges': [(e, copy.deepcopy(G.edge_attr[e]))
                  for e in G.get_edge_list()],
        'out': dict((n, list(G.get_neighbors(n)))
                    for n in G.get_node_list()),
        'attr': copy.deepcopy(G.attr),
        'cluster': copy.deepcopy(G.cluster),
    }
    if is_directed(G):
        s['in'] = dict((n, list(G.get_in_neighbors(n)))
                       for n in G.get_node_list())
    if hasattr(G, 'sizes'):
        s['sizes'] = dict(G.sizes)
    if hasattr(G, 'root'):
        s['root'] = getattr(G.root, 'name', None)
    return s


def is_directed(G):
    return G.graph_type == 'digraph'


@unseen
def dotsnap(G):
    return {'kind': G.graph_type, 'name': G.attr.get('name', 'G'),
            'nodes': dict(
                (n, G.get_node(n).attr) for n in G.get_node_list()),
            'edges': dict((e, G.edge_attr[e]) for e in G.get_edge_list()),
            'clusters': G.cluster, 'attr': G.attr}


class Model(object):
    '''A graph.'''
    def __init__(self, directed):
        self.directed = directed
        self.nodes = {}
        self.edges = {}
        self.clusters = {}
        self.nclusters = 0
        self.attr = {}

    def key(self, u, v):
        if (u, v) in self.edges:
            return (u, v)
        if not self.directed and (v, u) in self.edges:
            return (v, u)
        return None

    def add_node(self, n, attrs):
        self.nodes[n] = dict(attrs)

    def add_edge(self, u, v, attrs):
        for n in (u, v):
            if n not in self.nodes:
                self.nodes[n] = {}
        self.edges[(u, v)] = dict(attrs)

    def del_edge(self, u, v):
        del self.edges[self.key(u, v)]

    def del_node(self, n):
        for e in list(self.edges):
            if n in e:
                del self.edges[e]
        del self.nodes[n]
        for c in self.clusters.values():
            if n in c['node_list']:
                c['node_list'].remove(n)

    def out(self, n):
        r = []
        for (u, v) in self.edges:
            if u == n:
                r.append(v)
            if not self.directed and v == n:
                r.append(u)
        return r

    def inn(self, n):
        return [u for (u, v) in self.edges if v == n]

    def forget(self, nattrs, eattrs):
        '''An algorithm may have written these attributes.'''
        if nattrs:
            for a in self.nodes.values():
                for k in nattrs:
                    a.pop(k, None)
        if eattrs:
            for a in self.edges.values():
                for k in eattrs:
                    a.pop(k, None)

    # ------------------------------------------------------------ checking
    @unseen
    def structure(self, G):
        '''Differences between the graph and the model.'''
        bad = []
        nl, el = G.get_node_list(), G.get_edge_list()
        if Counter(nl) != Counter(self.nodes.keys()):
            bad.append('nodes are %r instead of %r' % (nl, list(self.nodes)))
            return bad
        if G.get_node_num() != len(self.nodes):
            bad.append('get_node_num is %r' % G.get_node_num())
        if Counter(el) != Counter(self.edges.keys()):
            bad.append('edges are %r instead of %r' % (el, list(self.edges)))
            return bad
        if G.get_edge_num() != len(self.edges):
            bad.append('get_edge_num is %r' % G.get_edge_num())
        out = dict((n, []) for n in self.nodes)
        inn = dict((n, []) for n in self.nodes)
        for (u, v) in self.edges:
            out[u].append(v)
            inn[v].append(u)
            if not self.directed:
                out[v].append(u)
        for n in self.nodes:
            if Counter(G.get_neighbors(n)) != Counter(out[n]):
                bad.append('neighbours of %r are %r instead of %r' %
                           (n, G.get_neighbors(n), out[n]))
            if self.directed and \
                    Counter(G.get_in_neighbors(n)) != Counter(inn[n]):
                bad.append('in-neighbours of %r are %r instead of %r' %
                           (n, G.get_in_neighbors(n), inn[n]))
            node = G.get_node(n)
            if node is None or node.name != n:
                bad.append('get_node(%r) is %r' % (n, node))
        have = dict((c, sorted(map(repr, G.cluster[c]['node_list'])))
                    for c in G.cluster)
        want = dict((c, sorted(map(repr, self.clusters[c]['node_list'])))
                    for c in self.clusters)
        if have != want:
            bad.append('clusters are %r instead of %r' % (have, want))
        return bad

    @unseen
    def inputs(self, G):
        '''Differences in the attributes the user supplied.'''
        bad = []
        for n, attrs in self.nodes.items():
            have = G.get_node(n).attr
            for k, v in attrs.items():
                if k not in have:
                    bad.append('attribute %s of node %r is gone' % (k, n))
                elif not same(have[k], v):
                    bad.append('attribute %s of node %r is %r instead of %r' %
                               (k, n, have[k], v))
            for k in INPUTS:
                if k in have and k not in attrs and have[k] is not None:
                    bad.append('node %r got %s %r' % (n, k, have[k]))
        for e, attrs in self.edges.items():
            have = G.edge_attr[e]
            for k, v in attrs.items():
                if k not in have:
                    bad.append('attribute %s of edge %r is gone' % (k, e))
                elif not same(have[k], v):
                    bad.append('attribute %s of edge %r is %r instead of %r' %
                               (k, e, have[k], v))
            for k in INPUTS:
                if k in have and k not in attrs and have[k] is not None:
                    bad.append('edge %r got %s %r' % (e, k, have[k]))
        for k, v in self.attr.items():
            if k not in G.attr or not same(G.attr[k], v):
                bad.append('graph attribute %s is %r instead of %r' %
                           (k, G.attr.get(k), v))
        for c in self.clusters:
            for k in ('attrs', 'node_attrs'):
                if c in G.cluster and G.cluster[c][k] != self.clusters[c][k]:
                    bad.append('cluster %r has %s %r instead of %r' %
                               (c, k, G.cluster[c][k], self.clusters[c][k]))
        return bad


def same(a, b):
    return type(a) == type(b) and a == b


class TreeModel(object):
    def __init__(self, binary):
        self.binary = binary
        self.root = None
        self.parent = {}
        self.children = {}      # name -> list (insertion order)
        self.side = {}          # name -> 'L' or 'R'
        self.label = {}

    def level(self, n):
        k = 0
        while self.parent[n] is not None:
            n = self.parent[n]
            k += 1
        return k

    def child(self, n, side):
        for m in self.children[n]:
            if self.side.get(m) == side:
                return m
        return None

    def add(self, n, parent, side=None, label=None):
        self.parent[n] = parent
        self.children[n] = []
        if parent is None:
            self.root = n
        else:
            self.children[parent].append(n)
        if side:
            self.side[n] = side
        if label is not None:
            self.label[n] = label

    def remove(self, n):
        p = self.parent.pop(n)
        if p is not None:
            self.children[p].remove(n)
        else:
            self.root = None
        del self.children[n]
        self.side.pop(n, None)
        self.label.pop(n, None)

    @unseen
    def structure(self, T):
        bad = []
        if Counter(T.get_node_list()) != Counter(list(self.parent)):
            bad.append('nodes are %r instead of %r' %
                       (T.get_node_list(), list(self.parent)))
            return bad
        want = [(p, n) for n, p in self.parent.items() if p is not None]
        if Counter(T.get_edge_list()) != Counter(want):
            bad.append('edges are %r instead of %r' %
                       (T.get_edge_list(), want))
        rt = getattr(T.root, 'name', None)
        if rt != self.root:
            bad.append('root is %r instead of %r' % (rt, self.root))
        for n in self.parent:
            if T.get_parent(n) != self.parent[n]:
                bad.append('parent of %r is %r instead of %r' %
                           (n, T.get_parent(n), self.parent[n]))
            if list(T.get_children(n)) != self.children[n]:
                bad.append('children of %r are %r instead of %r' %
                           (n, T.get_children(n), self.children[n]))
            if T.get_node_attr(n, 'level') != self.level(n):
                bad.append('level of %r is %r instead of %r' %
                           (n, T.get_node_attr(n, 'level'), self.level(n)))
            if self.binary:
                for f, s in ((T.get_left_child, 'L'),
                             (T.get_right_child, 'R')):
                    if f(n) != self.child(n, s):
                        bad.append('%s child of %r is %r instead of %r' %
                                   (s, n, f(n), self.child(n, s)))
        return bad


class SetModel(object):
    def __init__(self, optimize):
        self.optimize = optimize
        self.block = {}         # item -> frozenset-like list shared by members

    def add(self, items):
        b = list(items)
        for i in items:
            self.block[i] = b

    def union(self, i, j):
        a, b = self.block[i], self.block[j]
        if a is b:
            return False
        a.extend(b)
        for x in b:
            self.block[x] = a
        return True
