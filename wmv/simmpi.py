"""A deterministic stand-in for mpi4py: the ranks are threads of which one
runs at a time, every communication is a scheduling point, and the schedule
(which rank goes on, which message a receive from any source takes) is
decided by a policy that records its choices."""

import copy
import pickle
import threading


class Deadlock(Exception):
    pass


class Abandon(BaseException):
    """Ends the thread of a rank when the run is over."""


ANY_SOURCE = -1
ANY_TAG = -1


class Status(object):
    def __init__(self):
        self.source = ANY_SOURCE
        self.tag = ANY_TAG

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class Chooser(object):
    """Replays a prefix of choices, then asks a policy. Records all."""

    def __init__(self, prefix=(), rng=None):
        self.prefix = list(prefix)
        self.rng = rng
        self.trace = []             # (choice, number of options)

    def __call__(self, n):
        if n == 1:
            return 0
        k = len(self.trace)
        if k < len(self.prefix):
            c = self.prefix[k]
        elif self.rng is None:
            c = 0
        else:
            c = self.rng.randrange(n)
        self.trace.append((c, n))
        return c


class World(object):
    """size ranks. sync: a send returns only when its message is taken.
    eager: receives from any source wait until no other rank can go on, so
    that every message that could be there is a choice."""

    def __init__(self, size, choose, sync=False, eager=True, limit=100000):
        self.size = size
        self.choose = choose
        self.sync = sync
        self.eager = eager
        self.limit = limit
        self.steps = 0
        self.mail = []              # [source, dest, tag, bytes, taken]
        self.sent = 0
        self.received = 0
        self.choices = 0
        self.local = threading.local()
        self.lock = threading.Condition()
        self.turn = None
        self.waiting = {}           # rank -> predicate, any_source flag
        self.state = {}
        self.errors = {}
        self.results = {}
        self.barriers = {r: 0 for r in range(size)}
        self.colls = {}
        self.collno = {r: 0 for r in range(size)}
        self.over = False
        self.log = []

    # ---- scheduling

    def run(self, fn):
        """Run fn(rank) on all ranks. Returns {rank: result}; raises
        Deadlock."""
        threads = []
        for r in range(self.size):
            self.state[r] = 'ready'
            self.waiting[r] = (lambda: True, False)
            t = threading.Thread(target=self._main, args=(r, fn), daemon=True)
            threads.append(t)
            t.start()
        try:
            while True:
                with self.lock:
                    while self.turn is not None:
                        self.lock.wait()
                    live = [r for r in self.state if self.state[r] != 'done']
                    if not live:
                        break
                    if self.errors:
                        break
                    self.steps += 1
                    if self.steps > self.limit:
                        raise Deadlock('no end after %d steps' % self.steps)
                    can = [r for r in live if self.waiting[r][0]()]
                    if not can:
                        raise Deadlock(
                            'no rank can go on; waiting: %s; undelivered: '
                            '%s' % ({r: self.state[r] for r in live},
                                    [m[:3] for m in self.mail]))
                    if self.eager:
                        first = [r for r in can if not self.waiting[r][1]]
                        # any order of these gives the same messages
                        r = first[0] if first else can[0]
                    else:
                        r = can[self.choose(len(can))]
                    self.turn = r
                    self.lock.notify_all()
        finally:
            with self.lock:
                self.over = True
                self.turn = None
                self.lock.notify_all()
            for t in threads:
                t.join(20)
        return self.results

    def _main(self, r, fn):
        self.local.rank = r
        try:
            self._block('start', lambda: True)
            self.results[r] = fn(r)
        except Abandon:
            return
        except BaseException as e:
            self.errors[r] = e
        with self.lock:
            self.state[r] = 'done'
            if self.turn == r:
                self.turn = None
            self.lock.notify_all()

    def _block(self, what, pred, any_source=False):
        """Give the turn back; go on when scheduled with pred true."""
        r = self.local.rank
        with self.lock:
            self.state[r] = what
            self.waiting[r] = (pred, any_source)
            if self.turn == r:
                self.turn = None
                self.lock.notify_all()
            while self.turn != r:
                if self.over:
                    raise Abandon()
                self.lock.wait()
            self.state[r] = 'running'

    # ---- communication

    def put(self, obj, dest, tag, wait):
        me = self.local.rank
        if not 0 <= dest < self.size:
            raise ValueError('invalid rank %r' % (dest,))
        m = [me, dest, tag, pickle.dumps(obj), False]
        self.mail.append(m)
        self.sent += 1
        self.log.append(('send', me, dest, tag))
        if wait:
            self._block('send to %d' % dest, lambda: m[4])
        else:
            self._block('sent', lambda: True)
        return m

    def match(self, source, tag):
        me = self.local.rank
        return self.match_for(me, source, tag)

    def match_for(self, me, source, tag):
        """The first matching message of every source."""
        out = {}
        for m in self.mail:
            if m[1] == me and not m[4] and \
                    (source == ANY_SOURCE or m[0] == source) and \
                    (tag == ANY_TAG or m[2] == tag):
                out.setdefault(m[0], m)
        return [out[k] for k in sorted(out)]

    def take(self, source, tag, status):
        me = self.local.rank
        self._block('recv from %d tag %d' % (source, tag),
                    lambda: bool(self.match_for(me, source, tag)),
                    source == ANY_SOURCE)
        opts = self.match(source, tag)
        if len(opts) > 1:
            self.choices += 1
        m = opts[self.choose(len(opts))]
        m[4] = True
        self.mail.remove(m)
        self.received += 1
        self.log.append(('recv', me, m[0], m[2]))
        if status is not None:
            status.source, status.tag = m[0], m[2]
        return pickle.loads(m[3])

    def collective(self, kind, value, root=None):
        """All ranks meet; returns the list of their values."""
        me = self.local.rank
        n = self.collno[me]
        self.collno[me] += 1
        c = self.colls.setdefault(n, {})
        c[me] = (kind, root, copy.copy(value))
        if len({v[:2] for v in c.values()}) > 1:
            raise Deadlock('ranks disagree on collective %d: %s' % (
                n, {k: v[:2] for k, v in c.items()}))
        self._block('%s %d' % (kind, n), lambda: len(c) == self.size)
        return [pickle.loads(pickle.dumps(c[r][2])) for r in range(self.size)]


class Request(object):
    def __init__(self, fn, ready):
        self.fn, self.ready = fn, ready

    def wait(self, status=None):
        return self.fn(status)

    def test(self, status=None):
        if self.ready():
            return True, self.fn(status)
        return False, None


class Comm(object):
    """The communicator; its rank is that of the calling thread."""

    def __init__(self, world):
        self.world = world

    @property
    def rank(self):
        return self.world.local.rank

    @property
    def size(self):
        return self.world.size

    @property
    def name(self):
        return 'MPI_COMM_WORLD'

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def send(self, obj, dest, tag=0):
        self.world.put(obj, dest, tag, self.world.sync)

    def ssend(self, obj, dest, tag=0):
        self.world.put(obj, dest, tag, True)

    bsend = send

    def isend(self, obj, dest, tag=0):
        m = self.world.put(obj, dest, tag, False)
        return Request(lambda st: self.world._block(
            'wait for send', lambda: m[4]) if self.world.sync else None,
            lambda: m[4] or not self.world.sync)

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return self.world.take(source, tag, status)

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        w = self.world
        return Request(lambda st: w.take(source, tag, st),
                       lambda: bool(w.match(source, tag)))

    def probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        w, me = self.world, self.rank
        w._block('probe', lambda: bool(w.match_for(me, source, tag)),
                 source == ANY_SOURCE)
        m = w.match(source, tag)[0]
        if status is not None:
            status.source, status.tag = m[0], m[2]
        return True

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        w = self.world
        w._block('iprobe', lambda: True)
        m = w.match(source, tag)
        if m and status is not None:
            status.source, status.tag = m[0][0], m[0][2]
        return bool(m)

    def barrier(self):
        self.world.collective('barrier', None)

    Barrier = barrier

    def bcast(self, obj=None, root=0):
        return self.world.collective('bcast', obj, root)[root]

    def scatter(self, sendobj=None, root=0):
        v = self.world.collective('scatter', sendobj, root)[root]
        if v is None or len(v) != self.size:
            raise ValueError('expecting %d items, got %r' % (
                self.size, None if v is None else len(v)))
        return v[self.rank]

    def gather(self, sendobj, root=0):
        v = self.world.collective('gather', sendobj, root)
        return v if self.rank == root else None

    def allgather(self, sendobj):
        return self.world.collective('allgather', sendobj)

    def Abort(self, code=1):
        raise SystemExit(code)


class MPI(object):
    ANY_SOURCE = ANY_SOURCE
    ANY_TAG = ANY_TAG
    Status = Status

    def __init__(self, world):
        self.COMM_WORLD = Comm(world)

    def Init(self):
        pass

    def Finalize(self):
        pass


def explore(run, limit):
    """Depth-first over all choices: run(chooser) is called once per
    schedule until all are covered or the limit is reached. Returns the
    number of schedules and whether they are all."""
    prefix = []
    n = 0
    while True:
        ch = Chooser(prefix)
        run(ch)
        n += 1
        t = ch.trace
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return n, True
        if n >= limit:
            return n, False
        prefix = [c for c, _ in t[:-1]] + [t[-1][0] + 1]
