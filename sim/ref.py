'''
Reference algorithms: small, independent of GiMPy, working on plain data.
Graphs are (nodes, arcs) with arcs a dict {(u, v): attributes}.
'''
from fractions import Fraction

INF = 10000


def adjacency(nodes, arcs, directed=True, reverse=False):
    adj = dict((n, []) for n in nodes)
    for (u, v) in arcs:
        if not directed:
            adj[u].append(v)
            if u != v:
                adj[v].append(u)
        elif reverse:
            adj[v].append(u)
        else:
            adj[u].append(v)
    return adj


def hops(adj, s):
    '''Breadth-first distances from s.'''
    dist, queue = {s: 0}, [s]
    for u in queue:
        for v in adj[u]:
            if v not in dist:
                dist[v] = dist[u] + 1
                queue.append(v)
    return dist


def bellman_ford(nodes, wadj, s):
    '''(distances, negative cycle reachable).  wadj[u] = [(v, w)].'''
    dist = {s: 0}
    for _ in range(len(nodes)):
        change = False
        for u in list(dist):
            for v, w in wadj[u]:
                if v not in dist or dist[u] + w < dist[v]:
                    dist[v] = dist[u] + w
                    change = True
        if not change:
            return dist, False
    return dist, True


def weighted(nodes, arcs, directed=True):
    adj = dict((n, []) for n in nodes)
    for (u, v), a in arcs.items():
        adj[u].append((v, a['cost']))
        if not directed and u != v:
            adj[v].append((u, a['cost']))
    return adj


def components(nodes, arcs):
    '''List of sets, edge directions ignored.'''
    adj = adjacency(nodes, arcs, directed=False)
    out, seen = [], set()
    for n in nodes:
        if n not in seen:
            c = set(hops(adj, n))
            seen |= c
            out.append(c)
    return out


def strong_components(nodes, arcs):
    adj, rev = adjacency(nodes, arcs), adjacency(nodes, arcs, reverse=True)
    out, seen = [], set()
    for n in nodes:
        if n not in seen:
            c = set(hops(adj, n)) & set(hops(rev, n))
            seen |= c
            out.append(c)
    return out


def is_dag(nodes, arcs):
    indeg = dict((n, 0) for n in nodes)
    for u, v in arcs:
        indeg[v] += 1
    adj = adjacency(nodes, arcs)
    queue = [n for n in nodes if indeg[n] == 0]
    for u in queue:
        for v in adj[u]:
            indeg[v] -= 1
            if indeg[v] == 0:
                queue.append(v)
    return len(queue) == len(nodes)


class Union(object):
    def __init__(self, items):
        self.p = dict((i, i) for i in items)

    def find(self, x):
        while self.p[x] != x:
            x = self.p[x]
        return x

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a == b:
            return False
        self.p[a] = b
        return True


def mst_cost(nodes, arcs):
    '''Minimum cost of a spanning forest, number of its edges.'''
    uf, cost, k = Union(nodes), 0, 0
    for e in sorted(arcs, key=lambda e: arcs[e]['cost']):
        if uf.union(*e):
            cost += arcs[e]['cost']
            k += 1
    return cost, k


def hamiltonian(nodes, adj, source, dest=None):
    '''Is there a path from source through all nodes (ending in dest)?'''
    nodes = list(nodes)
    idx = dict((n, i) for i, n in enumerate(nodes))
    full = (1 << len(nodes)) - 1
    states = set([(1 << idx[source], idx[source])])
    frontier = list(states)
    for mask, i in frontier:
        if mask == full and (dest is None or nodes[i] == dest):
            return True
        for v in adj[nodes[i]]:
            j = idx[v]
            if not mask >> j & 1:
                s = (mask | 1 << j, j)
                if s not in states:
                    states.add(s)
                    frontier.append(s)
    return False


class Residual(object):
    def __init__(self, nodes):
        self.head = []
        self.cap = []
        self.cost = []
        self.adj = dict((n, []) for n in nodes)

    def add(self, u, v, cap, cost=0):
        self.adj[u].append(len(self.head))
        self.head.append(v)
        self.cap.append(cap)
        self.cost.append(cost)
        self.adj[v].append(len(self.head))
        self.head.append(u)
        self.cap.append(0)
        self.cost.append(-cost)

    def bfs_augment(self, s, t):
        par = {s: None}
        queue = [s]
        for u in queue:
            for k in self.adj[u]:
                v = self.head[k]
                if self.cap[k] > 0 and v not in par:
                    par[v] = k
                    queue.append(v)
        if t not in par:
            return 0
        path, v = [], t
        while par[v] is not None:
            path.append(par[v])
            v = self.head[par[v] ^ 1]
        d = min(self.cap[k] for k in path)
        for k in path:
            self.cap[k] -= d
            self.cap[k ^ 1] += d
        return d


def capacity(a):
    c = a.get('capacity')
    return INF if c is None else c


def max_flow_value(nodes, arcs, s, t):
    r = Residual(nodes)
    for (u, v), a in arcs.items():
        r.add(u, v, capacity(a))
    total = 0
    while True:
        d = r.bfs_augment(s, t)
        if d == 0:
            return total
        total += d


def min_cost_flow(nodes, arcs, demand):
    '''Minimum cost of a feasible flow, or None if there is none.  Costs may
    be negative: saturates negative arcs first, then sends the excess along
    cheapest residual paths (successive shortest paths).'''
    S, T = object(), object()
    r = Residual(list(nodes) + [S, T])
    excess = dict((n, demand[n]) for n in nodes)
    cost = 0
    for (u, v), a in arcs.items():
        c, w = capacity(a), a['cost']
        if w < 0:
            r.add(v, u, c, -w)
            # arc (u, v) is full: its residual is the arc (v, u)
            cost += c * w
            excess[u] -= c
            excess[v] += c
        else:
            r.add(u, v, c, w)
    need = 0
    for n in nodes:
        if excess[n] > 0:
            r.add(S, n, excess[n])
            need += excess[n]
        elif excess[n] < 0:
            r.add(n, T, -excess[n])
    allnodes = list(r.adj)
    while need > 0:
        dist, par = {S: 0}, {}
        queue, inq = [S], set([S])
        while queue:
            u = queue.pop(0)
            inq.discard(u)
            for k in r.adj[u]:
                v = r.head[k]
                if r.cap[k] > 0 and (v not in dist or
                                     dist[u] + r.cost[k] < dist[v]):
                    dist[v] = dist[u] + r.cost[k]
                    par[v] = k
                    if v not in inq:
                        inq.add(v)
                        queue.append(v)
        if T not in dist:
            return None
        path, v = [], T
        while v is not S:
            path.append(par[v])
            v = r.head[par[v] ^ 1]
        d = min(r.cap[k] for k in path)
        d = min(d, need)
        for k in path:
            r.cap[k] -= d
            r.cap[k ^ 1] += d
        cost += d * dist[T]
        need -= d
    return cost


def pagerank_residual(nodes, arcs, rank, damping):
    out = dict((n, 0) for n in nodes)
    for u, v in arcs:
        out[u] += 1
    total = 0
    for n in nodes:
        x = (1.0 - damping) / len(nodes)
        for (u, v) in arcs:
            if v == n:
                x += damping * rank[u] / out[u]
        total += abs(x - rank[n])
    return total
