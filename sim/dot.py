'''
A small strict parser for the DOT language, written from the grammar in the
Graphviz documentation, and the comparison of a parsed frame with the graph it
is meant to show.
'''
import re

TOKEN = re.compile(r'''
    (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
  | (?P<op>->|--|[\[\]{};,=:+])
  | (?P<str>"(?:[^"\\]|\\.)*")
  | (?P<num>-?(?:\.[0-9]+|[0-9]+(?:\.[0-9]*)?))
  | (?P<id>[A-Za-z_\u0080-\U0010ffff][A-Za-z0-9_\u0080-\U0010ffff]*)
  | (?P<html><)
''', re.X | re.S)


class DotError(Exception):
    pass


HTML = 'html:'


def squeeze(s):
    '''How many backslashes stand for one is a matter of escapes inside
    labels, which are Graphviz's business.'''
    return re.sub(r'\\+', r'\\', s)


def unquote(s):
    '''The value of a double-quoted string: only \\" is an escape here.'''
    return squeeze(s[1:-1].replace('\\"', '"').replace('\\\n', ''))


def tokens(text):
    pos, out = 0, []
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if m is None:
            raise DotError('bad character %r at %d' % (text[pos], pos))
        kind = m.lastgroup
        if kind == 'html':
            depth, i = 0, pos
            while i < len(text):
                depth += (text[i] == '<') - (text[i] == '>')
                i += 1
                if depth == 0:
                    break
            if depth:
                raise DotError('unbalanced html string')
            out.append(('id', HTML + text[pos:i], 'html'))
            pos = i
            continue
        pos = m.end()
        if kind == 'ws':
            continue
        v = m.group()
        if kind == 'str':
            out.append(('id', unquote(v), 'str'))
        elif kind == 'num':
            # Graphviz splits 12ab in two ids and warns; we are strict
            if pos < len(text) and re.match(r'[A-Za-z_]', text[pos]):
                raise DotError('badly delimited number %r' % v)
            out.append(('id', v, 'num'))
        elif kind == 'id':
            low = v.lower()
            if low in ('node', 'edge', 'graph', 'digraph', 'subgraph',
                       'strict'):
                out.append(('kw', low, 'kw'))
            else:
                out.append(('id', v, 'id'))
        else:
            out.append(('op', v, 'op'))
    out.append(('eof', '', 'eof'))
    return out


class Parsed(object):
    def __init__(self):
        self.kind = None
        self.name = None
        self.strict = False
        self.attrs = []       # [(name, value)] of the root graph
        self.defaults = []    # node/edge/graph default statements at root
        self.nodes = []       # [(name, [(attr, value)], cluster)]
        self.edges = []       # [(u, v, [(attr, value)], cluster)]
        self.clusters = {}    # name -> {'attrs', 'node', 'edge'}
        self.cluster_list = []


def parse(text):
    t = tokens(text)
    p = [0]
    g = Parsed()

    def peek():
        return t[p[0]]

    def nxt():
        x = t[p[0]]
        p[0] += 1
        return x

    def expect(kind, val=None):
        x = nxt()
        if x[0] != kind or (val is not None and x[1] != val):
            raise DotError('expected %s %s, got %r' % (kind, val, x))
        return x

    def ident():
        v = expect('id')
        s = v[1]
        while v[2] == 'str' and peek()[:2] == ('op', '+'):
            nxt()
            s += expect('id')[1]
        return s

    def attr_list():
        out = []
        while peek()[:2] == ('op', '['):
            nxt()
            while peek()[:2] != ('op', ']'):
                a = ident()
                expect('op', '=')
                out.append((a, ident()))
                if peek()[1] in (',', ';') and peek()[0] == 'op':
                    nxt()
            nxt()
        return out

    def node_id():
        n = ident()
        if peek()[:2] == ('op', ':'):
            nxt()
            n = (n, ident())
            if peek()[:2] == ('op', ':'):
                nxt()
                n = n + (ident(),)
        return n

    def stmt_list(cl):
        while peek()[:2] != ('op', '}'):
            if peek()[0] == 'eof':
                raise DotError('unexpected end of text')
            stmt(cl)
            if peek()[:2] == ('op', ';'):
                nxt()
        nxt()

    def stmt(cl):
        x = peek()
        if x[0] == 'kw' and x[1] in ('graph', 'node', 'edge'):
            nxt()
            if peek()[:2] != ('op', '['):
                raise DotError('attribute list expected after ' + x[1])
            al = attr_list()
            if cl is None:
                g.defaults.append((x[1], al))
            else:
                g.clusters[cl].setdefault(x[1], []).extend(al)
            return
        if x[:2] == ('kw', 'subgraph') or x[:2] == ('op', '{'):
            name = None
            if x[0] == 'kw':
                nxt()
                if peek()[0] == 'id':
                    name = ident()
            expect('op', '{')
            if name in g.clusters:
                raise DotError('subgraph %r appears twice' % (name,))
            g.clusters[name] = {'attrs': [], 'parent': cl}
            g.cluster_list.append(name)
            stmt_list(name)
            return
        n = node_id()
        if peek()[:2] == ('op', '='):
            nxt()
            v = ident()
            if cl is None:
                g.attrs.append((n, v))
            else:
                g.clusters[cl]['attrs'].append((n, v))
            return
        chain = [n]
        edgeop = '->' if g.kind == 'digraph' else '--'
        while peek()[0] == 'op' and peek()[1] in ('->', '--'):
            if nxt()[1] != edgeop:
                raise DotError('wrong edge operator in a ' + g.kind)
            chain.append(node_id())
        al = attr_list()
        if len(chain) == 1:
            g.nodes.append((n, al, cl))
        else:
            for u, v in zip(chain, chain[1:]):
                g.edges.append((u, v, al, cl))

    x = nxt()
    if x[:2] == ('kw', 'strict'):
        g.strict = True
        x = nxt()
    if x[0] != 'kw' or x[1] not in ('graph', 'digraph'):
        raise DotError('graph or digraph expected')
    g.kind = x[1]
    if peek()[0] == 'id':
        g.name = ident()
    expect('op', '{')
    stmt_list(None)
    if peek()[0] != 'eof':
        raise DotError('text after the closing brace')
    return g


def value(v):
    '''What a Python value reads back as.  A text already in double quotes is
    DOT syntax and stands for its content, so does one in balanced angle
    brackets; a newline is written as \\n.'''
    s = str(v)
    if re.match(r'"(?:[^"\\]|\\.)*"\Z', s, re.S):
        return unquote(s)
    if s[:1] == '<' and s[-1:] == '>':
        depth = 0
        for i, c in enumerate(s):
            depth += (c == '<') - (c == '>')
            if depth == 0:
                break
        if depth == 0 and i == len(s) - 1:
            return HTML + s
    return squeeze(s.replace('\n', '\\n').replace('\r', '\\r'))


def compare(g, snap, graph_attributes):
    '''
    Compare parsed frame g with snap, the state of the graph:
    {'kind', 'name', 'nodes': {name: attrs}, 'edges': {(u, v): attrs},
     'clusters': {name: {'node_list', 'attrs', 'node_attrs'}}, 'attr': {}}.
    Returns a list of differences.
    '''
    bad = []
    if g.kind != snap['kind']:
        bad.append('kind %s instead of %s' % (g.kind, snap['kind']))
    if 'name' in snap and g.name != value(snap['name']):
        bad.append('graph is called %r instead of %r' %
                   (g.name, snap['name']))
    if g.strict:
        bad.append('strict graph')
    # nodes
    want = {}
    for n, a in snap['nodes'].items():
        want[value(n)] = (n, sorted((value(k), value(v))
                                    for k, v in a.items()))
    seen = {}
    for n, al, cl in g.nodes:
        seen.setdefault(n, []).append((sorted(al), cl))
    for n in want:
        if n not in seen:
            bad.append('node %r is missing' % n)
        else:
            members = [c for c in snap['clusters']
                       if want[n][0] in snap['clusters'][c]['node_list']]
            if len(seen[n]) != max(1, len(members)):
                bad.append('node %r is listed %d times' % (n, len(seen[n])))
            for al, cl in seen[n]:
                if al != want[n][1]:
                    bad.append('node %r has attributes %r instead of %r' %
                               (n, al, want[n][1]))
            if (sorted(str(c) for _, c in seen[n]) !=
                    sorted(value('cluster_%s' % c) for c in members or [])
                    and (members or seen[n][0][1] is not None)):
                bad.append('node %r is in %r instead of %r' %
                           (n, [c for _, c in seen[n]], members))
    for n in seen:
        if n not in want:
            bad.append('node %r does not exist' % (n,))
    # edges
    want = {}
    for (u, v), a in snap['edges'].items():
        want[(value(u), value(v))] = sorted((value(k), value(x))
                                            for k, x in a.items())
    seen = {}
    for u, v, al, cl in g.edges:
        seen.setdefault((u, v), []).append(sorted(al))
    for e in want:
        if e not in seen:
            bad.append('edge %r is missing' % (e,))
        elif len(seen[e]) != 1:
            bad.append('edge %r is listed %d times' % (e, len(seen[e])))
        elif seen[e][0] != want[e]:
            bad.append('edge %r has attributes %r instead of %r' %
                       (e, seen[e][0], want[e]))
    for e in seen:
        if e not in want:
            bad.append('edge %r does not exist' % (e,))
    # clusters
    want = dict((value('cluster_%s' % c), snap['clusters'][c])
                for c in snap['clusters'])
    for c in want:
        if c not in g.clusters:
            bad.append('cluster %r is missing' % c)
            continue
        have = g.clusters[c]
        for key, src in (('attrs', 'attrs'), ('node', 'node_attrs')):
            w = sorted((value(k), value(v)) for k, v in want[c][src].items())
            if sorted(have.get(key, [])) != w:
                bad.append('cluster %r has %s %r instead of %r' %
                           (c, key, sorted(have.get(key, [])), w))
        if have['parent'] is not None:
            bad.append('cluster %r is nested' % c)
    for c in g.clusters:
        if c not in want:
            bad.append('subgraph %r does not exist' % (c,))
    # graph attributes
    w = sorted((value(k), value(v)) for k, v in snap['attr'].items()
               if k in graph_attributes and v is not None)
    if sorted(g.attrs) != w:
        bad.append('graph attributes are %r instead of %r' %
                   (sorted(g.attrs), w))
    if g.defaults:
        bad.append('unexpected default statements %r' % g.defaults)
    return bad
