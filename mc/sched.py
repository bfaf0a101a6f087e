"""Controlled scheduler: a stand-in for multiprocessing under which every interleaving can be explored.

Processes are threads of which exactly one runs at a time; the running one hands over only at visible operations
(queue get/empty, process start/exit/join/is_alive, timed waits).  Queues follow multiprocessing.Queue: put() appends to
a per-process buffer, a feeder (its own transition) pickles the head of the buffer into a bounded pipe, get() reads and
unpickles, and a process can only exit when everything it put has left its buffer (and a message larger than the pipe
has been read).  explore() enumerates all executions depth first, with sleep sets over the independence of operations
on different objects; a bound on delays replaces the sleep sets for big configurations.
"""
import collections
import copy
import pickle
import queue as _queue
import sys
import threading
import types

CAPACITY = 65536


class Abort(BaseException):
    pass


class Hang(BaseException):
    """No transition is possible (or only time passes) and the driver has not finished."""


class Unsupported(Exception):
    pass


class Op(object):
    __slots__ = ('kind', 'obj', 'enabled', 'timed')

    def __init__(self, kind, obj, enabled=None, timed=None):
        self.kind, self.obj, self.enabled, self.timed = kind, obj, enabled, timed


def dependent(a, b):
    """a, b: (tid, kind, obj)"""
    if a[0] == b[0]:
        return True
    ka, kb = a[1], b[1]
    if ka == 'any' or kb == 'any':
        return True
    if a[2] is None or a[2] != b[2]:
        return False
    pair = (ka, kb)
    if pair in (('deliver', 'get'), ('get', 'deliver')):
        return False
    if 'alive' in pair:
        return 'exit' in pair
    return True


class Actor(object):
    def __init__(self, key, name):
        self.key = key
        self.name = name
        self.lock = threading.Lock()
        self.lock.acquire()
        self.op = None
        self.done = False
        self.timed_out = False
        self.aborts = 0


class Sched(object):
    """One execution."""

    def __init__(self, choose, early_timeouts=1, max_steps=200000):
        self.choose = choose
        self.actors = []
        self.queues = []
        self.procs = []
        self.clock = 0.
        self.early = early_timeouts
        self.idle = 0
        self.steps = 0
        self.max_steps = max_steps
        self.dead = False
        self.hang = None
        self.lost = []
        self.crashes = []
        self.trace = []
        self.main = self.add('main')
        self.current = self.main
        self.last = None

    def add(self, name):
        a = Actor(len(self.actors), name)
        self.actors.append(a)
        return a

    # -- transitions available now: {tid: (kind, obj)}
    def enabled(self):
        out = {}
        timed = []
        for a in self.actors:
            op = a.op
            if a.done or op is None:
                continue
            if op.enabled is None or op.enabled():
                out[('p', a.key)] = (op.kind, op.obj)
            elif op.timed is not None:
                timed.append((op.timed + self.clock, a.key))
        for q in self.queues:
            for pk, buf in q.buffers.items():
                if buf and q.room(buf[0]):
                    out[('f', pk, q.key)] = ('deliver', ('q', q.key))
        if timed and (self.early > 0 or not out):
            if out:
                for _, k in timed:
                    out[('t', k)] = ('any', None)
            else:
                out[('t', min(timed)[1])] = ('any', None)
        return out

    def point(self, op):
        """The current actor asks to perform op; returns when it is scheduled. True if it timed out."""
        if self.dead:
            self.raise_abort()
        me = self.current
        me.op = op
        self.switch(me)
        if self.dead:
            self.raise_abort(me)
        t, me.timed_out = me.timed_out, False
        return t

    def raise_abort(self, me=None):
        if threading.current_thread() is self.main_thread:
            if self.hang:
                raise Hang(self.hang)
            raise Abort()
        n = getattr(threading.current_thread(), 'mc_aborts', 0) + 1
        threading.current_thread().mc_aborts = n
        if n > 20:
            threading.Lock().acquire() and threading.Event().wait()
        raise Abort()

    def switch(self, me):
        """Pick and run transitions until some actor's turn; me is the calling actor (its op may be None if it ended)."""
        while True:
            en = self.enabled()
            self.steps += 1
            if not en or self.steps > self.max_steps or self.idle > 400:
                self.hang = 'no process can make progress' if not en else ('only time passes' if self.idle > 400 else 'more than %d steps' % self.max_steps)
                return self.stop(me)
            tid = self.choose(self, en) if len(en) > 1 or self.choose.always else next(iter(en))
            if tid is None:
                self.hang = None
                self.pruned = True
                return self.stop(me)
            self.trace.append(tid)
            if tid[0] == 'f':
                self.queues[tid[2]].deliver(tid[1])
                self.idle = 0
                continue
            a = self.actors[tid[1]]
            if tid[0] == 't':
                others = len(en) > 1
                if others:
                    self.early -= 1
                self.clock += a.op.timed
                a.timed_out = True
                self.idle += 1
            elif a.op.kind not in ('alive', 'poll'):
                self.idle = 0
            a.op = None
            self.current = a
            self.last = a
            if a is me:
                return
            a.lock.release()
            if me.done:
                return
            me.lock.acquire()
            return

    pruned = False

    def stop(self, me):
        self.dead = True
        self.current = self.main
        if me is not self.main:
            self.main.lock.release()
            if not me.done:
                me.lock.acquire()

    # -- run one driver
    def run(self, fn):
        self.main_thread = threading.current_thread()
        global CUR
        CUR = self
        try:
            value = fn()
            return 'ok', value
        except Hang as e:
            return 'hang', str(e)
        except Abort:
            return 'pruned', None
        finally:
            self.dead = True
            self.hang = None
            for a in self.actors[1:]:
                if not a.done:
                    try:
                        a.lock.release()
                    except RuntimeError:
                        pass
            for p in self.procs:
                if p._mc_thread is not None:
                    p._mc_thread.join(.5)
            CUR = None


CUR = None


def cur():
    if CUR is None:
        raise Unsupported('outside a controlled execution')
    return CUR


class Item(object):
    __slots__ = ('data', 'owner', 'big')


class Queue(object):
    def __init__(self, maxsize=0, *a, **k):
        s = cur()
        if maxsize and maxsize > 0:
            raise Unsupported('bounded queue')
        self.key = len(s.queues)
        s.queues.append(self)
        self.buffers = collections.OrderedDict()
        self.pipe = collections.deque()
        self.used = 0
        self.cancelled = set()
        self.bytes = collections.OrderedDict()

    def __getstate__(self):
        return {'key': self.key}

    def __setstate__(self, state):
        self.__dict__ = cur().queues[state['key']].__dict__

    def put(self, obj, block=True, timeout=None):
        s = cur()
        if s.dead:
            s.raise_abort()
        self.buffers.setdefault(s.current.key, collections.deque()).append(obj)

    def put_nowait(self, obj):
        self.put(obj)

    def room(self, obj):
        if not self.pipe:
            return True
        if any(i.big for i in self.pipe):
            return False
        # size known only once pickled: peek
        try:
            return self.used + len(pickle.dumps(obj)) <= CAPACITY
        except Exception:
            return True

    def deliver(self, pk):
        obj = self.buffers[pk].popleft()
        try:
            data = pickle.dumps(obj)
        except Exception as e:
            cur().lost.append('%s: %r' % (type(obj).__name__, e))
            return
        it = Item()
        it.data, it.owner, it.big = data, pk, len(data) > CAPACITY
        self.pipe.append(it)
        self.used += len(data)

    def take(self):
        it = self.pipe.popleft()
        self.used -= len(it.data)
        return pickle.loads(it.data)

    def get(self, block=True, timeout=None):
        s = cur()
        if not block or (timeout is not None and timeout <= 0):
            s.point(Op('poll', ('q', self.key)))
            if not self.pipe:
                raise _queue.Empty
            return self.take()
        if s.point(Op('get', ('q', self.key), lambda: len(self.pipe) > 0, timeout)):
            raise _queue.Empty
        return self.take()

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        cur().point(Op('poll', ('q', self.key)))
        return not self.pipe

    def qsize(self):
        cur().point(Op('poll', ('q', self.key)))
        return len(self.pipe)

    def full(self):
        return False

    def close(self):
        pass

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        self.cancelled.add(cur().current.key)

    def task_done(self):
        pass

    def drained(self, pk):
        if pk in self.cancelled:
            return True
        return not self.buffers.get(pk) and not any(i.big and i.owner == pk for i in self.pipe)


class Popen(object):
    def __init__(self, pid):
        self.pid = pid


class Process(object):
    _mc_thread = None

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        s = cur()
        self._mc_n = len(s.procs)
        s.procs.append(self)
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name = name or 'Process-%d' % (self._mc_n + 1)
        self.daemon = bool(daemon)
        self._popen = None
        self._Popen = Popen
        self._mc_actor = None
        self._mc_alive = False
        self._mc_code = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        s = cur()
        if s.dead:
            s.raise_abort()
        a = s.add(self.name)
        a.op = Op('begin', None)
        self._popen = Popen(10000 + self._mc_n)
        self._mc_actor = a
        self._mc_alive = True
        child = copy.copy(self)
        t = threading.Thread(target=self._mc_main, args=(s, a, child))
        t.daemon = True
        self._mc_thread = t
        t.start()

    def _mc_main(self, s, a, child):
        a.lock.acquire()
        code = 0
        try:
            if s.dead:
                return
            try:
                child.run()
            except Abort:
                return
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except BaseException as e:
                code = 1
                s.crashes.append('%s: %r' % (self.name, e))
            if s.dead:
                return
            try:
                s.point(Op('exit', ('w', self._mc_n), lambda: all(q.drained(a.key) for q in s.queues)))
            except Abort:
                return
            self._mc_code = code
            self._mc_alive = False
            a.done = True
            if not s.dead:
                s.switch(a)
        finally:
            a.done = True

    def is_alive(self):
        if self._mc_actor is None:
            return False
        if self._mc_alive is False:
            return False
        cur().point(Op('alive', ('w', self._mc_n)))
        return self._mc_alive

    def join(self, timeout=None):
        if self._mc_alive or self._mc_actor is None:
            cur().point(Op('join', ('w', self._mc_n), lambda: not self._mc_alive, timeout))

    @property
    def exitcode(self):
        if self._mc_alive:
            cur().point(Op('alive', ('w', self._mc_n)))
        return self._mc_code

    @property
    def pid(self):
        return self._popen.pid if self._popen else None
    ident = pid

    def terminate(self):
        s = cur()
        s.point(Op('any', None))
        a = self._mc_actor
        if self._mc_alive:
            self._mc_alive = False
            self._mc_code = -15
            a.done = True
            for q in s.queues:
                q.buffers.pop(a.key, None)
    kill = terminate

    def close(self):
        pass


def modules(cores=4):
    """Stand-ins for the modules the pool may import."""
    class Mod(types.ModuleType):
        def __getattr__(self, key):
            if key.startswith('__'):
                raise AttributeError(key)
            raise Unsupported('%s.%s' % (self.__name__, key))
    m = Mod('multiprocessing')
    m.Process, m.Queue, m.JoinableQueue, m.SimpleQueue = Process, Queue, Queue, Queue
    m.cpu_count = lambda: cores
    m.freeze_support = lambda: None
    m.get_context = lambda *a: m
    m.get_start_method = lambda *a: 'fork'
    m.set_start_method = lambda *a, **k: None
    m.__path__ = []
    q = Mod('multiprocessing.queues')
    q.Queue, q.Empty, q.Full = Queue, _queue.Empty, _queue.Full
    m.queues = q
    p = Mod('multiprocessing.process')
    p.Process = p.BaseProcess = Process
    m.process = p
    import time as real
    t = types.ModuleType('time')
    t.__dict__.update(real.__dict__)

    def sleep(d):
        cur().point(Op('sleep', None, lambda: False, max(d, 1e-3)))
    t.sleep = sleep
    t.time = t.monotonic = t.perf_counter = lambda: 1e9 + (CUR.clock if CUR else 0)
    th = Mod('threading')
    return {'multiprocessing': m, 'multiprocessing.queues': q, 'multiprocessing.process': p, 'time': t, 'threading': th}


def load(name):
    """Import a fresh copy of module `name` on top of the stand-ins."""
    import importlib
    fake = modules()
    saved = {}
    for k, v in fake.items():
        saved[k] = sys.modules.get(k)
        sys.modules[k] = v
    sys.modules.pop(name, None)
    try:
        return importlib.import_module(name)
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


# ---------------------------------------------------------------------------------------------- exploration

class Node(object):
    __slots__ = ('en', 'sleep', 'done', 'chosen', 'order')


class SleepSets(object):
    """Depth-first enumeration of all executions up to commutation of independent transitions."""
    always = True

    def __init__(self):
        self.stack = []
        self.finished = False

    def begin(self):
        self.pos = 0

    def __call__(self, s, en):
        if self.pos < len(self.stack):
            n = self.stack[self.pos]
        else:
            n = Node()
            n.en = dict(en)
            if self.pos:
                p = self.stack[self.pos - 1]
                c = (p.chosen,) + p.en[p.chosen]
                n.sleep = dict((t, o) for t, o in p.sleep.items() if not dependent((t,) + o, c))
                for t in p.done:
                    if t != p.chosen and not dependent((t,) + p.en[t], c):
                        n.sleep[t] = p.en[t]
            else:
                n.sleep = {}
            n.done = []
            n.order = sorted((t for t in en if t not in n.sleep), key=self.key)
            if not n.order:
                return None
            # a transition nothing can ever depend on is a persistent set of its own
            alone = [t for t in n.order if en[t][0] in ('begin', 'join')]
            if alone:
                n.order = alone[:1]
            n.chosen = n.order[0]
            self.stack.append(n)
        self.pos += 1
        return n.chosen

    @staticmethod
    def key(t):
        return (t[0] == 't', t[0] != 'f', t[1:])

    def next(self):
        """Move to the next unexplored branch; False when everything has been explored."""
        while self.stack:
            n = self.stack[-1]
            n.done.append(n.chosen)
            rest = [t for t in n.order if t not in n.done]
            if rest:
                n.chosen = rest[0]
                return True
            self.stack.pop()
        return False


class Delays(object):
    """All executions that deviate from a fixed scheduler at most `bound` times."""
    always = False

    def __init__(self, bound, policy=0):
        self.bound = bound
        self.policy = policy
        self.stack = []        # (number of alternatives, chosen index)

    def begin(self):
        self.pos = 0
        self.used = 0

    def order(self, s, en):
        last = ('p', s.last.key) if s.last else None
        ts = sorted(en, key=lambda t: (t[0] == 't', t != last if self.policy == 0 else False, t[0] != 'f' if self.policy != 2 else t[0] == 'f', t[1:] if self.policy != 1 else tuple(-x for x in t[1:])))
        return ts

    def __call__(self, s, en):
        ts = self.order(s, en)
        if self.pos < len(self.stack):
            n, i = self.stack[self.pos]
        else:
            n = min(len(ts), 1 + self.bound - self.used)
            i = 0
            self.stack.append([n, 0])
        self.pos += 1
        self.used += i
        return ts[i]

    def next(self):
        while self.stack:
            top = self.stack[-1]
            if top[1] + 1 < top[0]:
                top[1] += 1
                return True
            self.stack.pop()
        return False


def explore(fn, chooser, visit, limit=10 ** 9, early=1):
    """Runs fn() under every schedule; visit(status, value, sched) after each. Returns (executions, pruned, complete)."""
    runs = pruned = 0
    while True:
        chooser.begin()
        s = Sched(chooser, early)
        status, value = s.run(fn)
        if status == 'pruned' or s.pruned:
            pruned += 1
        else:
            runs += 1
            if visit(status, value, s) is False:
                return runs, pruned, False
        if not chooser.next():
            return runs, pruned, True
        if runs + pruned >= limit:
            return runs, pruned, False
