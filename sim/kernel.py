'''
The deterministic kernel: clients, baton scheduler, virtual clock, fault plan.

Exactly one client thread runs at any time; it holds the baton.  The baton
moves only at yield points: every executed line of the code under test (seen
through sys.monitoring), every call through a seam (file, process, window) and
every lock operation.  Where it moves is decided by the scenario's explicit
schedule, so one scenario is one repeatable execution.
'''
import _thread
import sys
import hashlib

TOOL = 4
mon = sys.monitoring


RENDER_BUDGET = 200000


class SimHang(BaseException):
    '''Raised inside code under test that exceeded its step budget.'''


class SimDeadlock(BaseException):
    '''Raised when no client can ever run again.'''


NEVER = 1 << 60


class Client(object):
    def __init__(self, idx):
        self.idx = idx
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.done = False
        self.wake = 0          # virtual microseconds
        self.waiting = None    # SimLock we wait for
        self.in_op = False
        self.op = -1           # index of the current operation
        self.steps = 0         # lines executed by the current operation
        self.rsteps = 0        # lines executed by the current rendering
        self.rmax = 0          # and by the longest one of the operation
        self.budget = 0
        self.factor = 1
        self.intr = NEVER      # line of the operation at which to press ^C
        self.intact = None     # is nothing half done that a ^C would leave?
        self.fallback = False  # dot2tex, the library, has failed
        self.hot = False       # the last line touched shared state
        self.hung = False
        self.render = 0        # depth of display/write/create calls
        self.dstack = []       # graphs being rendered
        self.out = []          # text printed by the current operation
        self.rout = []         # text printed while rendering
        self.quiet = False     # a comparison run: no faults, no verdicts
        self.fired = []        # faults fired in the current operation
        self.frames = []       # frames of the current operation
        self.error = None      # harness error (traceback text)


class Sim(object):
    '''One simulated execution.'''
    current = None   # the Sim being executed in this process

    def __init__(self, schedule, faults, nclients):
        self.clients = [Client(i) for i in range(nclients)]
        self.schedule = [list(s) for s in schedule]
        self.pos = 0
        self.left = 0
        self.now = 0
        self.cur = None
        self.free = 0          # > 0 while the harness itself runs gimpy code
        self.mainlock = _thread.allocate_lock()
        self.mainlock.acquire()
        self.trace = hashlib.sha256()
        self.switches = 0
        self.seams = 0
        self.faults = []
        for f in faults:
            f = dict(f)
            f['count'] = 0
            self.faults.append(f)
        self.fired = []        # (client, op, site, kind)
        self.on_switch = None  # callback, checks invariants between slices
        self.deadlock = False
        self.multi = nclients > 1
        # accesses to shared state at which to switch, by their number
        self.hot = set()
        self.hits = 0
        self.hotswitches = 0
        self.avoid = None

    # ---------------------------------------------------------- scheduling
    def runnable(self, c):
        return (not c.done and c.wake <= self.now and
                (c.waiting is None or not c.waiting.held))

    def pick(self):
        '''Choose the next client according to the schedule.'''
        while True:
            while self.pos < len(self.schedule):
                idx, quantum = self.schedule[self.pos]
                self.pos += 1
                if idx < len(self.clients) and quantum > 0:
                    c = self.clients[idx]
                    if self.runnable(c) and c is not self.avoid:
                        self.left = quantum
                        return c
            self.left = 1 << 60
            ready = [c for c in self.clients if self.runnable(c)]
            if ready:
                # keep the running client if possible: fewest switches
                if self.avoid in ready and len(ready) > 1:
                    ready.remove(self.avoid)
                if self.cur in ready:
                    return self.cur
                return ready[0]
            sleeping = [c for c in self.clients
                        if not c.done and c.wake > self.now]
            if not sleeping:
                return None
            self.now = min(c.wake for c in sleeping)

    def handoff(self, me):
        '''Called by the baton holder; returns when it holds it again.'''
        nxt = self.pick()
        self.avoid = None
        if nxt is None:
            if all(c.done for c in self.clients):
                self.mainlock.release()
                return
            # everybody left waits for a lock: break the deadlock
            self.deadlock = True
            for c in self.clients:
                if not c.done:
                    c.waiting = None
            nxt = [c for c in self.clients if not c.done][0]
        if nxt is me:
            return
        self.switches += 1
        self.trace.update(b'%d>%d@%d;' % (me.idx if me else -1, nxt.idx,
                                         self.now))
        self.cur = nxt
        nxt.baton.release()
        if me is not None and not me.done:
            me.baton.acquire()

    def yield_point(self, cost=1):
        me = self.cur
        self.now += cost
        self.left -= 1
        if self.left <= 0 and self.multi:
            self.switch(me)

    def switch(self, me):
        if self.on_switch is not None:
            self.on_switch(self)
        self.handoff(me)
        if self.deadlock:
            raise SimDeadlock()

    def touch(self, me):
        '''The running client is about to touch, or just touched, state that
        the others can reach.'''
        self.hits += 1
        if self.hits in self.hot:
            self.hotswitches += 1
            self.avoid = me
            self.switch(me)

    def sleep(self, usec):
        '''The running client waits for usec of virtual time.'''
        me = self.cur
        me.wake = self.now + usec
        if self.on_switch is not None and len(self.clients) > 1:
            self.on_switch(self)
        self.handoff(me)
        if self.now < me.wake:
            self.now = me.wake

    def start(self, bodies):
        '''Run the client bodies to completion under the schedule.'''
        Sim.current = self

        def run(c, body):
            c.baton.acquire()
            try:
                body(c)
            except BaseException:
                import traceback
                c.error = traceback.format_exc()
            c.done = True
            self.handoff(c)

        for c, body in zip(self.clients, bodies):
            _thread.start_new_thread(run, (c, body))
        self.handoff(None)
        self.mainlock.acquire()
        Sim.current = None

    # -------------------------------------------------------------- seams
    def interrupt(self, c):
        '''Ctrl-C while the program computes.'''
        with Free():
            try:
                if not c.intact():
                    return
            except Exception:
                # a graph that is being put together
                return
        c.intr = NEVER
        c.fired.append(('line', 'ctrlc'))
        self.fired.append((c.idx, c.op, 'line', 'ctrlc'))
        self.trace.update(b'^C')
        raise KeyboardInterrupt()

    def seam(self, site):
        '''
        A call of the code under test into the outside world.  Returns the
        fault kind to inject, or None.
        '''
        c = self.cur
        self.seams += 1
        self.trace.update(site.encode())
        kind = None
        for f in () if c.quiet else self.faults:
            if f['c'] != c.idx or f['site'] != site or c.op < f['op']:
                continue
            f['count'] += 1
            n = f['count'] - f['nth']
            if 0 <= n < f.get('rep', 1) and kind is None:
                kind = f['kind']
        if kind is not None:
            c.fired.append((site, kind))
            self.fired.append((c.idx, c.op, site, kind))
            self.trace.update(kind.encode())
        self.yield_point(5)
        return kind


def active():
    '''The running client if it is inside an operation under simulation.'''
    sim = Sim.current
    if sim is None or sim.free:
        return None
    c = sim.cur
    if c is None or not c.in_op:
        return None
    return c


class Free(object):
    '''Context in which gimpy code runs for the harness: no faults, no
    preemption, no accounting.'''
    def __enter__(self):
        if Sim.current is not None:
            Sim.current.free += 1

    def __exit__(self, *a):
        if Sim.current is not None:
            Sim.current.free -= 1


class SimLock(object):
    '''Cooperative lock: stands in for threading.Lock and RLock.'''
    def __init__(self, reentrant=False):
        self.owner = None
        self.count = 0
        self.reentrant = reentrant

    @property
    def held(self):
        return self.count > 0

    def acquire(self, blocking=True, timeout=-1):
        sim = Sim.current
        c = active()
        me = c if c is not None else 'harness'
        if self.reentrant and self.count and self.owner is me:
            self.count += 1
            return True
        if c is not None:
            sim.yield_point()
            while self.count:
                if not blocking:
                    return False
                if timeout is not None and timeout >= 0:
                    sim.sleep(int(timeout * 1e6))
                    if self.count:
                        return False
                    break
                c.waiting = self
                sim.handoff(c)
                c.waiting = None
                if sim.deadlock:
                    raise SimDeadlock()
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.count == 0:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None
        if active() is not None:
            Sim.current.yield_point()

    def locked(self):
        return self.count > 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    # what threading.Condition uses
    def _is_owned(self):
        return self.count > 0

    def _release_save(self):
        n, self.count, self.owner = self.count, 0, None
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self.count = n

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0

    def __deepcopy__(self, memo):
        return SimLock(self.reentrant)

    def __reduce__(self):
        return (SimLock, (self.reentrant,))


# ------------------------------------------------------- line monitoring
_src = None
HOT = {}


def on_line(code, line):
    if not code.co_filename.startswith(_src):
        return mon.DISABLE
    sim = Sim.current
    if sim is None or sim.free:
        return
    c = sim.cur
    if c is None or not c.in_op:
        return
    if c.render:
        # a rendering has a budget of its own
        c.rsteps += 1
        if c.rsteps > c.rmax:
            c.rmax = c.rsteps
        if c.rsteps > RENDER_BUDGET * c.factor:
            c.hung = True
            c.rsteps -= 1000
            raise SimHang()
    else:
        c.steps += 1
        if c.steps > c.budget:
            c.hung = True
            c.budget += 1000
            raise SimHang()
        if c.steps >= c.intr:
            sim.interrupt(c)
    sim.now += 1
    sim.left -= 1
    if sim.left <= 0 and sim.multi:
        sim.switch(c)
    elif sim.hot:
        h = line in HOT.get(id(code), ())
        if h or c.hot:
            c.hot = h
            sim.touch(c)


def on_instr(code, offset):
    return on_line(code, -1)


def install_monitor(src, grain='line'):
    global _src
    _src = src
    mon.use_tool_id(TOOL, 'gimpy-sim')
    ev = mon.events
    if grain == 'instr':
        mon.register_callback(TOOL, ev.INSTRUCTION, on_instr)
        mon.set_events(TOOL, ev.INSTRUCTION)
    else:
        mon.register_callback(TOOL, ev.LINE, on_line)
        mon.set_events(TOOL, ev.LINE)
