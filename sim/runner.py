'''
Executes one scenario: sets the simulated world up, lets the clients perform
their operations under the schedule and the faults, and judges every step.
'''
import copy
import gc
import hashlib
import os

from . import dot as dotlang
from . import world
from .graphattrs import GRAPH_ATTRIBUTES
from .kernel import NEVER, RENDER_BUDGET, Free, Sim, SimDeadlock, SimHang
from .model import dotsnap, snapshot, unseen
from .ops import INF, OPS, Bad, Entry

NONFATAL = set([('spawn', 'missing'), ('spawn', 'eacces'),
                ('wait', 'stderr'), ('wait', 'slow'), ('click', 'mouse'),
                ('click', 'timeout'), ('texwait', 'slow')])
AMBIGUOUS = set([('spawn', 'emfile'), ('spawn', 'enomem'),
                 ('wait', 'garbage'), ('tex', 'error'),
                 ('texspawn', 'missing'), ('texspawn', 'emfile'),
                 ('texwait', 'exit1'), ('texwait', 'signal')])
MODES = ('file', 'PIL', 'matplotlib', 'xdot')
# lines of one call outside renderings; unplanned runs need up to 50000
# (maxflow, mincost), 35000 (sp, reach) or 2000 (the others)
BUDGET = {'mincost': 3000000, 'sp': 600000, 'maxflow': 1500000,
          'reach': 800000}
ANIMATED = ('search', 'prim', 'kruskal', 'bfs', 'components', 'dfs',
            'kosaraju', 'hamiltonian', 'max_flow', 'preflow', 'mincost',
            'traverse', 'print_nodes', 'evaluate', 'infix')
TEXFILES = ('.dot', '.tex', '.dvi', '.aux', '.log', '.pdf', '.ps')
# families of operations in which the user may press Ctrl-C at any line
INTERRUPTED = ('reach', 'sp', 'mst', 'maxflow', 'mincost', 'tree', 'query',
               'misuse')
LIMIT = 12          # violations kept per run


def severity(fired):
    '''0 nothing that could change the outcome, 1 ambiguous, 2 fatal.'''
    worst = 0
    for f in fired:
        if f in NONFATAL:
            continue
        worst = max(worst, 1 if f in AMBIGUOUS else 2)
    return worst


def spoil(x, depth=0):
    '''What a call returned belongs to the caller, who changes it.'''
    if depth > 2:
        return
    if isinstance(x, dict):
        for y in x.values():
            spoil(y, depth + 1)
        x.clear()
        x['spoiled'] = 'spoiled'
    elif isinstance(x, list):
        for y in x:
            spoil(y, depth + 1)
        x[:] = ['spoiled', 'spoiled']
    elif isinstance(x, tuple):
        for y in x:
            spoil(y, depth + 1)


def clean(exc):
    '''Drop everything that keeps frames, and with them files, alive.'''
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        exc.__traceback__ = None
        nxt = exc.__cause__ or exc.__context__
        exc.__cause__ = exc.__context__ = None
        exc = nxt


def plain(x, depth=0):
    '''A result as text that is equal in every process.'''
    if x is None or isinstance(x, (bool, int, float, str, bytes)):
        return repr(x)
    if depth > 6:
        return '...'
    if isinstance(x, dict):
        return '{' + ','.join(sorted(plain(k, depth + 1) + ':' +
                                     plain(v, depth + 1)
                                     for k, v in x.items())) + '}'
    if isinstance(x, (set, frozenset)):
        return 'set(' + ','.join(sorted(plain(y, depth + 1)
                                        for y in x)) + ')'
    if isinstance(x, (list, tuple)):
        return type(x).__name__ + '(' + ','.join(plain(y, depth + 1)
                                                 for y in x) + ')'
    if hasattr(x, 'get_node_list') and hasattr(x, 'edge_attr'):
        return plain(snapshot(x), depth + 1)
    if hasattr(x, 'name') and hasattr(x, 'attr'):
        return 'node(' + plain(x.name) + ')'
    if isinstance(x, BaseException):
        return type(x).__name__
    return type(x).__name__


def digest(*parts):
    return hashlib.sha256('\x00'.join(parts).encode(
        'utf8', 'surrogatepass')).hexdigest()[:20]


@unseen
def order(G):
    '''Nodes, edges and adjacency in the order a user sees them.'''
    nl = list(G.get_node_list())
    return [nl, list(G.get_edge_list()),
            [list(G.get_neighbors(n)) for n in nl],
            [list(G.get_in_neighbors(n)) for n in nl]
            if G.graph_type == 'digraph' else []]


class Outcome(object):
    def __init__(self):
        self.res = self.exc = self.open = None
        self.out = self.rout = ''
        self.frames = []
        self.fired = []
        self.steps = 0
        self.hung = False

    @property
    def kind(self):
        return 'ok' if self.exc is None else type(self.exc).__name__


class Run(object):
    def __init__(self, sc):
        self.sc = sc
        self.prop = sc['prop']
        self.graphs = {}
        self.pending = {}
        self.kept = {}
        self.violations = []
        self.log = []
        self.randoms = {}
        self.count = {}
        self.aborted = 0
        self.plan = {}
        self.mode0 = {}
        self.lib = {}
        self.states = set()
        self.load = 0
        self.hangs = 0
        nc = len(sc['clients'])
        self.single = sum(1 for c in sc['clients'] if c) <= 1
        self.sim = Sim(sc.get('schedule', []), sc.get('faults', []), nc)
        if self.sim.multi:
            self.sim.hot = set(sc.get('hot') or ())
        self.only = sc.get('only')
        self.shared = 'setup' in sc
        # the files the program asks for
        self.asked = set(['graph.png'])
        tex = 'dot2tex' in repr(sc['clients'])
        if tex:
            self.asked.update('graph' + x for x in TEXFILES)
        for ops in sc['clients']:
            for o in ops:
                if o['op'] == 'display' and tex:
                    self.asked.update(o.get('basename', 'graph') + x
                                      for x in TEXFILES)
                if o['op'] == 'display':
                    self.asked.add('%s.%s' % (o.get('basename', 'graph'),
                                              o.get('format', 'png')))
                elif o['op'] == 'write':
                    self.asked.add(o['file'])

    # ------------------------------------------------------------ services
    def client(self):
        return self.sim.cur

    def add(self, name, k=1):
        self.count[name] = self.count.get(name, 0) + k

    def violation(self, c, i, tag, msg):
        if len(self.violations) < LIMIT:
            o = self.ops(c)[i] if c is not None and i >= 0 else {}
            self.violations.append({
                'tag': tag, 'client': c.idx if c is not None else None,
                'op': i, 'name': o.get('op'), 'after': self.aborted > 0,
                'msg': msg[:600]})

    def ops(self, c):
        return self.sc['clients'][c.idx]

    def compare_text(self, G, text):
        if not isinstance(text, str):
            return ['text is %r' % (text,)]
        try:
            g = dotlang.parse(text)
        except dotlang.DotError as e:
            return ['not DOT: %s in %r' % (e, text[:300])]
        return dotlang.compare(g, dotsnap(G), GRAPH_ATTRIBUTES)

    def effective(self, o, c):
        '''Display mode in force for the frames of an operation.'''
        d = o.get('display')
        if d is None:
            d = self.mode0.get(c.idx)
        return d

    def viewable(self, d):
        if d == 'PIL':
            return self.lib['PIL']
        if d == 'matplotlib':
            return self.lib['PIL'] and self.lib['MATPLOTLIB']
        if d == 'xdot':
            return self.lib['XDOT']
        return d == 'file'

    def animated(self, c, T, o):
        d = self.effective(o, c)
        return self.viewable(d) and not c.fired

    # --------------------------------------------------------------- hooks
    def frame_hook(self, c, graph, frame):
        self.add('frames')
        i = c.op
        if c.quiet:
            return
        if frame.get('text') is None:
            self.violation(c, i, 'frame', 'Graphviz got no readable input')
            return
        if frame['bad'] is not None:
            self.violation(c, i, 'frame', 'not DOT: %s in %r' % (
                frame['bad'], frame['text'][:300]))
            return
        with Free():
            bad = dotlang.compare(frame['parsed'], dotsnap(graph),
                                  GRAPH_ATTRIBUTES)
            layout = graph.get_layout()
            for e in self.graphs.values():
                if e.G is graph and e.layout is not None:
                    layout = e.layout
        if bad:
            self.violation(c, i, 'frame', '; '.join(bad[:3]))
        if frame['via'] != 'graphviz':
            return
        p = self.plan.get(c.idx)
        fmt = getattr(p, 'format', 'png')
        layout = getattr(p, 'layout', None) or layout
        if frame['layout'] != layout:
            self.violation(c, i, 'layout', 'layout program %r instead of %r' %
                           (frame['layout'], layout))
        if frame['fmt'] != fmt:
            self.violation(c, i, 'layout', 'output format %r instead of %r' %
                           (frame['fmt'], fmt))

    def display_done(self, c, graph, rec, frames, said, exc, nfired):
        '''A display call is over: was the picture delivered?'''
        if c.quiet or exc is not None:
            return
        i, mode = c.op, rec['mode']
        sev = severity(nfired)
        if sev == 2:
            if not said:
                self.violation(c, i, 'silent', 'display in mode %r survived '
                               '%r without a word' % (mode, nfired))
            return
        if rec['tex'] and mode != 'off':
            self.tex_done(c, i, frames, said, nfired, mode)
            return
        shown = [f for f in frames if f['via'] in ('graphviz', 'xdot',
                                                   'dot2tex')]
        stray = [f for f in frames if f['via'] == 'stray']
        if stray:
            self.violation(c, i, 'deliver', 'a viewer got a picture nobody '
                           'drew')
        if mode == 'off':
            if shown:
                self.violation(c, i, 'modeframes', 'a frame in mode off')
            return
        if not self.viewable(mode):
            if not said:
                self.violation(c, i, 'deliver', 'nothing shown in mode %r '
                               'and nothing said' % (mode,))
            return
        if any(x[0] == 'spawn' for x in nfired):
            if not said:
                self.violation(c, i, 'deliver', 'Graphviz did not start in '
                               'mode %r and nothing was said' % (mode,))
            return
        if not shown:
            self.violation(c, i, 'deliver', 'nothing was drawn in mode %r' %
                           (mode,))
            return
        last = shown[-1]
        if mode == 'file':
            if not self.single:
                return
            p = self.plan.get(c.idx)
            name = '%s.%s' % (getattr(p, 'basename', 'graph'),
                              getattr(p, 'format', 'png'))
            try:
                with world.real.io_open(os.path.join(world.cwd, name),
                                        'rb') as f:
                    data = f.read()
            except OSError:
                self.violation(c, i, 'deliver', 'no file %s' % name)
                return
            if getattr(p, 'format', 'png') == 'dot' and \
                    last['via'] != 'graphviz':
                return
            if data != last['image']:
                self.violation(c, i, 'deliver', 'file %s has %d bytes, not '
                               'the %d Graphviz produced' %
                               (name, len(data), len(last['image'] or b'')))
            return
        got = [x for f in shown for x in f.get('delivered', [])]
        if got != [(mode, True)]:
            self.violation(c, i, 'deliver', 'viewer %s got %r' % (mode, got))

    def tex_done(self, c, i, frames, said, nfired, mode):
        '''The same for the layout dot2tex.'''
        p = self.plan.get(c.idx)
        fmt = getattr(p, 'format', 'png')
        if mode != 'file' and not said:
            self.violation(c, i, 'deliver', 'mode %r became file without a '
                           'word' % (mode,))
        if not self.lib['DOT2TEX']:
            if not said:
                self.violation(c, i, 'deliver', 'nothing shown without '
                               'dot2tex and nothing said')
            return
        if fmt not in ('pdf', 'ps'):
            if not said:
                self.violation(c, i, 'deliver', 'pdf instead of %s without '
                               'a word' % fmt)
            fmt = 'pdf'
        shown = [f for f in frames if f['via'] == 'dot2tex' and f['ok']]
        nfired = [x for x in nfired if x not in NONFATAL]
        if not self.single or said and nfired:
            return
        name = '%s.%s' % (getattr(p, 'basename', 'graph'), fmt)
        try:
            with world.real.io_open(os.path.join(world.cwd, name),
                                    'rb') as f:
                data = f.read()
        except OSError:
            data = None
        if not shown or data != world.texpicture(fmt, shown[-1]['tex']):
            self.violation(c, i, 'deliver', 'file %s is not what dot2tex and '
                           'LaTeX produced' % name)

    def on_switch(self, sim):
        if not self.shared:
            return
        with Free():
            for slot, e in self.graphs.items():
                if cheap(e.G) != self.base[slot]:
                    c = sim.cur
                    self.violation(c, c.op, 'readonly', 'the shared graph '
                                   'changed while queries were running')
                    self.base[slot] = cheap(e.G)

    # ----------------------------------------------------------- operations
    def visible(self, G):
        '''What a Ctrl-C could leave half done: the tables of the graph.'''
        return (order(G), G.attr.get('display'), G.attr.get('layout'),
                [list(x) for k, x in sorted(vars(G).items())
                 if isinstance(x, dict) and k != 'attr'])

    def perform(self, c, plan, nofault=False, e=None):
        '''Run the call of a plan on the real code as the client.'''
        r = Outcome()
        sim = self.sim
        c.frames, c.out, c.rout, c.fired = [], [], [], []
        c.steps = c.rsteps = c.rmax = 0
        c.factor = 8 if self.sc.get('grain') == 'instr' else 1
        c.hung = False
        c.budget = BUDGET.get(plan.family, 400000) * c.factor
        if any(len(e.M.nodes) > 10 for e in self.graphs.values()
               if hasattr(e.M, 'nodes')):
            c.budget *= 10
        if self.sc.get('impatient'):
            c.budget //= 10
        if self.hangs:
            # one call ran for ever: the verdict is known
            c.budget //= 20
        c.quiet = nofault
        c.intr = NEVER
        if e is not None and not nofault and plan.family in INTERRUPTED and \
                not plan.edit:
            for f in sim.faults:
                if f['site'] == 'line' and f['c'] == c.idx and \
                        f['op'] == c.op:
                    with Free():
                        was = self.visible(e.G)
                    c.intr = f['nth']
                    c.intact = lambda: self.visible(e.G) == was
        self.plan[c.idx] = plan
        c.in_op = True
        try:
            r.res = plan.call()
        except BaseException as x:
            c.in_op = False
            r.exc = x
            if self.single:
                with Free():
                    # whoever handles the exception finds everything closed
                    r.open = world.fds()
            clean(x)
        c.in_op = False
        c.quiet = False
        c.render = 0
        c.dstack = []
        r.out, r.rout = ''.join(c.out), ''.join(c.rout)
        r.frames, r.fired = c.frames, list(c.fired)
        r.hung = c.hung
        self.hangs += c.hung
        r.steps = c.steps
        self.add('steps', c.steps)
        if not c.hung:
            x = max(c.steps / c.budget, c.rmax / (RENDER_BUDGET * c.factor))
            self.load = max(self.load, round(x, 4))
        return r

    def do_op(self, c, i, o):
        sim = self.sim
        c.op = i
        e = self.graphs.get(o.get('g'))
        with Free():
            plan = OPS[o['op']](self, e, o)
        if plan is None:
            self.add('skipped')
            return
        self.add('ops')
        self.add('op:' + o['op'])
        G = e.G if e is not None else None
        before = order0 = None
        twin = twin2 = None
        with Free():
            if G is not None:
                mode0 = G.attr.get('display')
                layout0 = G.attr.get('layout')
                self.mode0[c.idx] = mode0
                if plan.query or plan.reject:
                    before = plain(snapshot(G))
                elif plan.family not in ('edit', 'random', 'tree', 'dset'):
                    order0 = order(G)
                if self.prop == 'C08' and plan.family not in (
                        'edit', 'noise', 'random', 'query', 'misuse') and \
                        o['op'] not in ('write', 'create'):
                    twin = self.twin(e, o, 'off')
                if self.prop == 'C14' and plan.family not in (
                        'edit', 'noise', 'random', 'query', 'render',
                        'dset', 'misuse'):
                    if 'display' in o:
                        twin2 = self.twin(e, o, o['display'])
                    elif self.viewable(mode0) and o['op'] in ANIMATED:
                        twin2 = self.twin(e, o, 'off')
                        twin2[1]['display'] = mode0
        r = self.perform(c, plan, e=e)
        sev = severity(r.fired)
        fam = plan.family
        tags = []

        def v(tag, msg):
            tags.append(tag)
            self.violation(c, i, tag, msg)
        with Free():
            if r.hung or isinstance(r.exc, SimDeadlock):
                v('hang:' + fam, '%s does not terminate%s' % (
                    o['op'], ' (deadlock)' if not r.hung else ''))
            elif plan.reject:
                if r.exc is None:
                    v('rejected:' + fam, '%s was accepted' % o['op'])
                elif isinstance(r.exc, (SimHang, SystemExit,
                                        KeyboardInterrupt)):
                    v('rejected:' + fam, '%s ended with %s' %
                      (o['op'], r.kind))
            elif fam == 'misuse' and r.exc is not None and sev == 0:
                self.add('misused')
                self.add('abort:' + o['what'])
            elif r.exc is not None:
                if sev == 0:
                    v('crash:' + fam, '%s raised %s: %s' %
                      (o['op'], r.kind, str(r.exc)[:200]))
                    self.crash_render(c, i, o, r)
                else:
                    self.add('aborts')
                    self.add('abort:' + o['op'])
            elif sev == 2:
                v('swallow', '%s returned normally after %r' %
                  (o['op'], r.fired))
                if not r.rout and not r.out:
                    v('silent', '%s survived %r without a word' %
                      (o['op'], r.fired))
            # the model follows
            if r.exc is None and not plan.reject and not r.hung:
                if plan.apply is not None:
                    plan.apply()
                if plan.check is not None and sev < 2:
                    try:
                        plan.check(r.res)
                    except Bad as b:
                        t = 'answer:' + fam
                        if (o['op'] == 'to_string' or o['op'] == 'write'
                                and o.get('format') == 'dot'):
                            t = 'frame'
                        v(t, '%s: %s' % (o['op'], b))
                    except Exception as x:
                        v('answer:' + fam, '%s left nonsense behind: %r' %
                          (o['op'], x))
            e = self.graphs.get(o.get('g'))
            if e is not None:
                try:
                    self.after(c, i, o, plan, e, r, before, v)
                    if order0 is not None and 'structure' not in tags \
                            and order(e.G) != order0:
                        v('structure', '%s reordered the graph: %s' % (
                            o['op'], where(plain(order0),
                                           plain(order(e.G)))))
                    if G is not None:
                        self.check_mode(c, i, o, plan, G, mode0, layout0, r,
                                        v)
                except Exception as x:
                    v('structure', '%s left nonsense behind: %r' %
                      (o['op'], x))
        if twin is not None and sev < 1 and not r.hung:
            self.compare_twin(c, i, o, e, r, twin)
        if twin2 is not None and sev < 1 and not r.hung:
            self.compare_frames(c, i, o, r, twin2)
        if r.exc is not None and (sev or fam == 'misuse'):
            self.aborted += 1
        with Free():
            if self.single:
                if r.open and not self.leaks_seen:
                    self.violation(c, i, 'leak', 'descriptors are open when '
                                   '%s raises: %r' % (o['op'], r.open))
                self.check_leaks(c, i, o)
            st = ''
            if e is not None and o['op'] != 'noise':
                st = plain(snapshot(e.G))
            if o['op'] == 'random' and r.exc is None:
                key = repr((sorted(o['params'].items(), key=repr), e.kind))
                d = digest(st)
                if self.randoms.setdefault(key, d) != d:
                    v('differs', 'the same parameters and seed gave two '
                      'different graphs')
            res = plain(r.res)
            self.log.append([c.idx, i, o['op'], r.kind, digest(
                res, r.out, st, repr([
                    (f['via'], f.get('layout'), f.get('fmt'), f.get('text'))
                    for f in c.frames]))])
            self.states.add(digest(o['op'], st, r.kind,
                                   repr(r.fired))[:12])
            if r.fired:
                for s, k in r.fired:
                    self.add('fault:%s/%s' % (s, k))
        if fam != 'dset':
            spoil(r.res)
        c.frames = []
        r.exc = r.res = None

    def crash_render(self, c, i, o, r):
        '''Did an operation without fatal fault fail while rendering?'''
        for f in r.frames:
            if f['via'] == 'display' and f.get('exc'):
                self.violation(c, i, 'noraise' if r.fired or not all(
                    self.lib.values()) else 'rendercrash',
                    '%s: rendering raised %s' % (o['op'], f['exc']))
                return

    def after(self, c, i, o, plan, e, r, before, v):
        '''State of the graph after an operation.'''
        G, M = e.G, e.M
        if e.kind in ('graph', 'digraph'):
            M.forget(plan.N, plan.E)
            if plan.capfix:
                for k, a in M.edges.items():
                    if 'capacity' not in a:
                        x = G.edge_attr.get(k, {}).get('capacity')
                        if x is not None:
                            if x == INF:
                                a['capacity'] = x
                            else:
                                v('inputs', 'edge %r got capacity %r' %
                                  (k, x))
            bad = M.structure(G)
            edit = 'edit' if plan.family in ('edit', 'random') else ''
            if any(x.startswith('cluster') for x in bad) and not e.broken:
                v('clusters', 'after %s: %s' % (o['op'], '; '.join(
                    [x for x in bad if x.startswith('cluster')][:3])))
            if bad and not e.broken:
                v(edit + 'structure', 'after %s: %s' % (o['op'],
                                                        '; '.join(bad[:3])))
            if not bad:
                bad = M.inputs(G)
                if any(x.startswith('cluster') for x in bad) and \
                        not e.broken:
                    v('clusters', 'after %s: %s' % (o['op'], '; '.join(
                        [x for x in bad if x.startswith('cluster')][:3])))
                if bad and not e.broken:
                    v(edit + 'inputs', 'after %s: %s' % (o['op'],
                                                         '; '.join(bad[:3])))
            e.broken = bool(bad)
        elif e.kind in ('tree', 'bintree'):
            bad = M.structure(G)
            if bad:
                v('answer:tree', 'after %s: %s' % (o['op'],
                                                   '; '.join(bad[:3])))
        if before is not None:
            now = plain(snapshot(G))
            if now != before:
                v('readonly' if plan.query else 'rejected:' + plan.family,
                  '%s changed the graph: %s' % (o['op'],
                                                where(before, now)))

    def check_mode(self, c, i, o, plan, G, mode0, layout0, r, v):
        mode = G.attr.get('display')
        if o['op'] == 'mode' or o['op'] == 'layout':
            return
        if G.attr.get('layout') != layout0:
            v('inputs', '%s changed the layout to %r' %
              (o['op'], G.attr.get('layout')))
        if mode != mode0:
            if 'display' not in o and mode == 'file' and \
                    layout0 == 'dot2tex' and mode0 != 'off':
                pass
            elif 'display' not in o and mode == 'off' and \
                    mode0 in MODES and not self.viewable(mode0):
                pass
            else:
                v('mode', 'after %s (%s) the display mode is %r instead of '
                  '%r' % (o['op'], r.kind, mode, mode0))
        if r.exc is None and not plan.query and \
                plan.family not in ('edit', 'render'):
            want = self.effective(o, c)
            for f in r.frames:
                # searches inside other algorithms are silent
                if f['via'] != 'display' or f['mode'] in (want, 'off') or \
                        f['tex'] and f['mode'] == 'file':
                    continue
                v('modeframes', '%s displayed a frame in mode %r instead of '
                  '%r' % (o['op'], f['mode'], want))
                break

    def check_leaks(self, c, i, o):
        if world.leftovers(self.asked) or world.fds():
            gc.collect()
            left, fds = world.leftovers(self.asked), world.fds()
            if left and self.leaks_seen != (left, fds):
                self.violation(c, i, 'leak', 'temporary files remain after '
                               '%s: %r' % (o.get('op'), left))
            if fds and self.leaks_seen != (left, fds):
                self.violation(c, i, 'leak', 'descriptors remain open after '
                               '%s: %r' % (o.get('op'), fds))
            self.leaks_seen = (left, fds)

    leaks_seen = None

    # ---------------------------------------------------------------- twins
    def twin(self, e, o, mode):
        '''A copy of the graph with display mode as its own mode.'''
        e2 = Entry(e.kind, copy.deepcopy(e.G), copy.deepcopy(e.M))
        e2.G.set_display_mode(mode)
        o2 = dict((k, x) for k, x in o.items() if k != 'display')
        return e2, o2

    def run_twin(self, c, twin):
        e2, o2 = twin
        saved = self.mode0.get(c.idx)
        with Free():
            plan = OPS[o2['op']](self, e2, o2)
            self.mode0[c.idx] = e2.G.attr.get('display')
        if plan is None:
            return None, None
        fired = c.fired
        r = self.perform(c, plan, nofault=True)
        c.fired = fired
        self.mode0[c.idx] = saved
        return r, e2

    def compare_twin(self, c, i, o, e, r, twin):
        q, e2 = self.run_twin(c, twin)
        if q is None:
            return
        self.add('twins')
        with Free():
            bad = None
            if q.kind != r.kind:
                bad = 'ends with %s instead of %s' % (r.kind, q.kind)
            elif plain(q.res) != plain(r.res):
                bad = 'returns %s instead of %s' % (plain(r.res)[:200],
                                                    plain(q.res)[:200])
            elif q.out != r.out:
                bad = 'prints %r instead of %r' % (r.out[:200], q.out[:200])
            else:
                a, b = snapshot(e.G), snapshot(e2.G)
                for s in (a, b):
                    s['attr'].pop('display', None)
                if o['op'] == 'display' or e.kind in ('tree', 'bintree'):
                    # a node that was highlighted is black afterwards
                    for (n, x), (m, y) in zip(a['nodes'], b['nodes']):
                        if n == m and x.get('color') == 'black' and \
                                o.get('op') != 'mode':
                            x.pop('color')
                            y.pop('color', None)
                a, b = plain(a), plain(b)
                if a != b:
                    bad = 'leaves another state: ' + where(b, a)
            if bad:
                self.violation(c, i, 'differs', '%s in mode %r %s' % (
                    o['op'], self.effective(o, c), bad))

    def compare_frames(self, c, i, o, r, twin):
        q, e2 = self.run_twin(c, twin)
        if q is None:
            return
        self.add('twins')

        def key(fs):
            return [(f['via'], f.get('layout'), f.get('fmt'), f.get('text'),
                     f.get('delivered')) for f in fs
                    if f['via'] in ('graphviz', 'xdot')]
        a, b = key(r.frames), key(q.frames)
        if any(x in NONFATAL and x[0] == 'spawn' for x in r.fired):
            return
        if a != b:
            self.violation(c, i, 'modeframes', '%s with display=%r renders '
                           '%d frames, with %r %d%s' % (
                               o['op'], o.get('display'), len(a),
                               twin[1].get('display'), len(b),
                               '' if len(a) != len(b) else
                               ', but different ones'))

    # ------------------------------------------------------------- the run
    def body(self, c):
        for i, o in enumerate(self.ops(c)):
            self.do_op(c, i, o)

    def execute(self):
        sc = self.sc
        libs = sc.get('libs', {})
        world.set_libs(libs)
        self.lib = world.effective_libs(libs)
        world.frame_hook = self.frame_hook
        world.display_done = self.display_done
        if self.shared:
            # built before the clients start, single-threaded
            Sim.current = self.sim
            self.sim.cur = self.sim.clients[0]
            with Free():
                for o in sc['setup']:
                    plan = OPS[o['op']](self, self.graphs.get(o.get('g')), o)
                    if plan is None or plan.reject:
                        continue
                    res = plan.call()
                    if plan.apply:
                        plan.apply()
                    if plan.check:
                        try:
                            plan.check(res)
                        except Bad:
                            pass
                    e = self.graphs.get(o.get('g'))
                    if e is not None and (plan.N or plan.E):
                        e.M.forget(plan.N, plan.E)
                self.base = dict((s, cheap(e.G))
                                 for s, e in self.graphs.items())
            self.sim.cur = None
            self.sim.on_switch = self.on_switch
        if self.only is not None:
            bodies = [self.body if i == self.only else (lambda c: None)
                      for i in range(len(sc['clients']))]
        else:
            bodies = [self.body] * len(sc['clients'])
        self.sim.start(bodies)
        err = [c.error for c in self.sim.clients if c.error]
        if not self.single:
            self.check_leaks(None, -1, {'op': 'the run'})
        self.add('switches', self.sim.switches)
        self.add('hotswitches', self.sim.hotswitches)
        self.add('seams', self.sim.seams)
        return {'violations': self.violations, 'log': self.log,
                'count': self.count, 'error': err[0] if err else None,
                'now': self.sim.now, 'switches': self.sim.switches,
                'trace': digest(self.sim.trace.hexdigest(),
                                repr(self.log)),
                'sched': self.sim.trace.hexdigest()[:12],
                'states': sorted(self.states), 'load': self.load}


@unseen
def cheap(G):
    '''Everything observable as one text, without deep copies.'''
    return repr((G.graph_type,
                 [(n, G.get_node(n).attr, G.get_neighbors(n))
                  for n in G.get_node_list()], G.edge_attr, G.attr,
                 G.cluster, getattr(G, 'in_neighbors', None)))


def where(a, b):
    '''The place where two texts part.'''
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return '...%s instead of ...%s' % (b[max(0, i - 40):i + 80],
                                       a[max(0, i - 40):i + 80])
