"""Decorators and shared objects."""

import sys
import threading
import time

from wmv import gen, tilecalc

RULE = '''Four kinds of cases. Random functions (plain, methods, generators,
recursive, with defaults, keyword and variable arguments) called well and
wrongly with and without print_call and timer: results, identity of the
arguments, exceptions, number of calls, name and documentation must be the
same, and the log must hold the call and its success. Classes with the
Singleton metaclass instantiated by up to 24 threads through random delays.
disable_on_workers on every rank of simulated communicators. The stand-in
communicator without MPI. Non-trivial: threads overlap in the constructor, or
calls fail.'''
MIN_COUNTS = {'calls_compared': 1500, 'raised': 300, 'races': 30,
              'overlaps': 100, 'ranks': 200, 'timed': 500, 'nested': 6}
MIN_NONTRIVIAL = 30


def preload():
    tilecalc.preload()


def cases(rng, tier):
    n = 1 if tier == 'quick' else 30
    for k in range(n):
        for kind, m in (('calls', 30), ('single', 60), ('ranks', 10),
                        ('dummy', 10)):
            for i in range(m):
                yield {'seed': rng.randrange(1 << 30), 'kind': kind}


def run_case(spec, mon):
    r = gen.nprng(spec['seed'])
    globals()[spec['kind']](r, mon)


class Oops(Exception):
    pass


def functions(r, seen):
    """Functions that record how they are called."""
    fail = r.random() < .3
    kind = Oops if r.random() < .5 else KeyboardInterrupt

    def note(*a):
        seen.append(a)
        if fail:
            raise kind('no')
        return [a]

    def plain(a, b):
        """plain doc"""
        return note(a, b)

    def default(a, b=5, c=None):
        """default doc"""
        return note(a, b, c)

    def var(a, *rest, **kw):
        """var doc"""
        return note(a, rest, tuple(sorted(kw.items())))

    def only(a, *, key, other=2):
        """only doc"""
        return note(a, key, other)

    def empty():
        """empty doc"""
        return note()

    def none(a):
        """none doc"""
        note(a)

    def gene(n):
        """gene doc"""
        for k in range(3):
            yield note(n, k)

    def back(a):
        """back doc"""
        note(a)
        return a
    return [plain, default, var, only, empty, none, gene, back]


def outcome(fn, args, kw):
    try:
        v = fn(*args, **kw)
        if hasattr(v, '__next__'):
            v = list(v)
        return 'value', v
    except TypeError as e:
        return 'raised', type(e).__name__
    except (Oops, KeyboardInterrupt) as e:
        return 'raised', (type(e).__name__, e.args)


class Odd(object):
    """Equal only to itself."""
    def __init__(self, n):
        self.n = n

    def __str__(self):
        return 'odd %d' % self.n


def arguments(r):
    pool = [1, 'two', 'long ' * 90, None, [3, 4], (5,), {'k': 6}, Odd(7), 8.5, '',
            0, NotImplemented, Ellipsis]
    args = tuple(pool[int(k)] for k in r.integers(0, len(pool),
                                                 int(r.integers(0, 4))))
    kw = {str(k): pool[int(r.integers(0, len(pool)))] for k in
          r.choice(['a', 'b', 'c', 'key', 'other', 'z'],
                   int(r.integers(0, 3)), replace=False)}
    return args, kw


GOOD = {'plain': (2, 2, []), 'default': (1, 3, []),
        'var': (1, 4, ['z', 'key']), 'only': (1, 1, ['key']),
        'empty': (0, 0, []), 'none': (1, 1, []), 'gene': (1, 1, []),
        'back': (1, 1, [])}


def fitting(r, name):
    """Arguments that the function accepts."""
    lo, hi, kw = GOOD[name]
    a = arguments(r)[0] + arguments(r)[0] + (1, 'x', None)
    n = int(r.integers(lo, hi + 1))
    return a[:n], {k: a[-1 - i] for i, k in enumerate(kw)}


def same(x, y):
    if type(x) is not type(y):
        return False
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    return x is y or x == y


def calls(r, mon):
    import all_multipliers as am
    from utilities.meta import print_call
    for k in range(12):
        state = r.bit_generator.state
        seen0, seen1 = [], []
        f0 = functions(r, seen0)
        r.bit_generator.state = state
        f1 = functions(r, seen1)
        for a, b in zip(f0, f1):
            log = []
            how = str(r.choice(['print', 'timer', 'off', 'both']))
            g = b
            if how in ('timer', 'both'):
                g = am.timer(g)
                mon.count('timed')
            if how in ('print', 'both'):
                g = print_call(log.append)(g)
            if how == 'off':
                g = print_call(None)(g)
                mon.check(g is b, 'print_call without a logger wraps %s',
                          b.__name__)
            mon.check(g.__name__ == b.__name__ and g.__doc__ == b.__doc__ and
                      g.__module__ == b.__module__, '%s turns %s into %s',
                      how, b.__name__, g.__name__)
            for q in range(3):
                args, kw = fitting(r, b.__name__) if r.random() < .6 else \
                    arguments(r)
                del seen0[:], seen1[:], log[:]
                w = outcome(a, args, kw)
                v = outcome(g, args, kw)
                what = '%s(%s, %s) with %s' % (a.__name__, args, kw, how)
                mon.check(v[0] == w[0] and same(v[1], w[1]),
                          '%s gives %s, expected %s', what, v, w)
                mon.check(same(seen0, seen1), '%s: called with %s, expected '
                          '%s', what, seen1, seen0)
                mon.count('calls_compared')
                mon.count('raised', w[0] == 'raised')
                mon.nontrivial |= w[0] == 'raised'
                mon.state(a.__name__, how, w[0], len(args), len(kw))
                if how in ('print', 'both'):
                    called = w[0] == 'value' or bool(seen0)
                    ok = w[0] == 'value' or a.__name__ == 'gene' and seen0
                    n = [2] if ok else [1] if called else [0, 1]
                    mon.check(len(log) in n, '%s logs %d messages: %s', what,
                              len(log), log)
                    if called:
                        mon.check(a.__name__ in log[0], '%s logs %s', what,
                                  log[0])
                        for x in list(args) + list(kw.values()):
                            mon.check(str(x) in log[0] or
                                      repr(x) in log[0], '%s does not log '
                                      'the argument %r: %s', what, x, log[0])
    fact = []

    @print_call(fact.append)
    @am.timer
    def factorial(n):
        return 1 if n < 2 else n * factorial(n - 1)
    n = int(r.integers(1, 12))
    want = 1
    for k in range(2, n + 1):
        want *= k
    mon.check(factorial(n) == want and len(fact) == 2 * n,
              'recursive call gives %s with %d messages', factorial(n),
              len(fact))

    class Thing(object):
        @print_call(fact.append)
        @am.timer
        def me(self, x, y=2):
            return self, x, y
    t = Thing()
    got = mon.code(t.me, 1)
    mon.check(got[0] is t and got[1:] == (1, 2), 'a method gives %s', got)


def single(r, mon):
    from utilities.meta import Singleton
    old = sys.getswitchinterval()
    n = int(r.integers(2, 25))
    lag = float(r.choice([0, 0, .0005, .004]))
    falsy = bool(r.random() < .4)
    fails = int(r.integers(0, 3)) if r.random() < .4 else 0
    made = []
    inside = [0, 0]
    lock = threading.Lock()

    class Base(object, metaclass=Singleton):
        def __init__(self, value=0):
            with lock:
                made.append(type(self).__name__)
                inside[0] += 1
                inside[1] = max(inside[1], inside[0])
                count = len(made)
            if lag:
                time.sleep(lag)
            self.value = value
            with lock:
                inside[0] -= 1
            if count <= fails:
                raise Oops('not yet')

        def __bool__(self):
            return not falsy

        def __len__(self):
            return 0 if falsy else 1

    class Other(Base):
        pass
    sys.setswitchinterval(1e-6)
    got = [None] * n
    failed = [0] * n
    arrived = [0]
    start = threading.Barrier(n)

    def make(k):
        start.wait()
        while got[k] is None:
            with lock:
                arrived[0] += all(g is None for g in got)
            try:
                got[k] = Base(k)
            except Oops:
                failed[k] += 1
    try:
        ths = [threading.Thread(target=make, args=(k,), daemon=True)
               for k in range(n)]
        for t in ths:
            t.start()
        for t in ths:
            t.join(60)
    finally:
        sys.setswitchinterval(old)
    mon.check(not any(t.is_alive() for t in ths), 'threads that make a '
              'single instance hang')
    mon.count('races')
    mon.count('overlaps', max(0, arrived[0] - 1))
    mon.check(all(g is got[0] for g in got), '%d threads got %d different '
              'instances', n, len({id(g) for g in got}))
    mon.check(len(made) == fails + 1, 'the constructor ran %d times, %d of '
              'them failed', len(made), fails)
    mon.check(sum(failed) == fails, '%d calls of %d failed', sum(failed),
              fails)
    mon.check(inside[1] == 1, 'two threads in the constructor at once')
    mon.check(got[0].value in range(n), 'value %s', got[0].value)
    mon.check(Base(99) is got[0] and got[0].value != 99, 'a later call gives '
              'another instance')
    del made[fails + 1:]
    o = mon.code(Other, 5)
    mon.check(type(o) is Other and o is not got[0] and o.value == 5 and
              Other() is o and Base() is got[0], 'a subclass shares the '
              'instance')
    if r.random() < .4:
        # an instance made while another one is being made
        class Outer(object, metaclass=Singleton):
            def __init__(self):
                self.inner = [q() for q in (Base, Other, Third)]

        class Third(object, metaclass=Singleton):
            pass
        res = []
        t = threading.Thread(target=lambda: res.append(Outer()), daemon=True)
        t.start()
        t.join(20)
        mon.check(not t.is_alive(), 'making an instance inside the '
                  'constructor of another class hangs')
        mon.check(len(res) == 1 and res[0].inner == [got[0], o, Third()] and
                  Outer() is res[0], 'nested instances')
        mon.count('nested')
    mon.state(n, lag, falsy, fails, arrived[0])
    mon.nontrivial = arrived[0] > 1


def ranks(r, mon):
    from utilities import parallel
    keep = getattr(parallel, 'MPI', None)

    class Comm(object):
        pass

    class Fake(object):
        COMM_WORLD = Comm()
    try:
        for size in list(range(1, 9)) + [int(r.integers(9, 40))]:
            for rank in range(size):
                seen = []

                @parallel.disable_on_workers
                def f(a, b=2):
                    """doc f"""
                    seen.append((a, b))
                    if a == 'fail':
                        raise Oops()
                    return [a, b]
                Fake.COMM_WORLD.size, Fake.COMM_WORLD.rank = size, rank
                parallel.MPI = Fake
                mon.check(f.__name__ == 'f' and f.__doc__ == 'doc f',
                          'disable_on_workers renames to %s', f.__name__)
                x = int(r.integers(0, 99))
                v = mon.code(f, x, b=3)
                mon.count('ranks')
                if rank == 0:
                    mon.check(v == [x, 3] and seen == [(x, 3)], 'rank 0 of '
                              '%d: result %s, calls %s', size, v, seen)
                    mon.check(outcome(f, ('fail',), {})[1][0] ==
                              'Oops',
                              'rank 0 of %d hides an exception', size)
                else:
                    mon.check(v is None and not seen, 'rank %d of %d calls '
                              'the function', rank, size)
                mon.state(size, rank)
        for k in range(20):
            # any function, called in any way
            state = r.bit_generator.state
            seen0, seen1 = [], []
            f0 = functions(r, seen0)
            r.bit_generator.state = state
            f1 = functions(r, seen1)
            Fake.COMM_WORLD.size = size = int(r.integers(1, 9))
            for a, b in zip(f0, f1):
                Fake.COMM_WORLD.rank = rank = int(r.integers(0, size)) \
                    if r.random() < .3 else 0
                args, kw = fitting(r, b.__name__) if r.random() < .7 else \
                    arguments(r)
                del seen0[:], seen1[:]
                w = outcome(a, args, kw)
                v = outcome(parallel.disable_on_workers(b), args, kw)
                if rank:
                    w, seen0[:] = ('value', None), []
                what = '%s(%s, %s) on rank %d of %d' % (a.__name__, args, kw,
                                                        rank, size)
                mon.check(v[0] == w[0] and same(v[1], w[1]) and
                          same(seen0, seen1), '%s gives %s, expected %s '
                          '(called with %s, expected %s)', what, v, w, seen1,
                          seen0)
                mon.count('calls_by_rank')
    finally:
        parallel.MPI = keep
    mon.nontrivial = True


def dummy(r, mon):
    """Without MPI: one process that does everything."""
    from utilities import parallel
    hide = sys.modules.get('mpi4py', 0)
    sys.modules['mpi4py'] = None
    try:
        m = mon.code(parallel.attempt_parallel)
        comm = m.COMM_WORLD
        mon.check((comm.rank, comm.size, comm.Get_rank(), comm.Get_size()) ==
                  (0, 1, 0, 1), 'the stand-in is rank %s of %s', comm.rank,
                  comm.size)
        for _ in range(30):
            x = [int(v) for v in r.integers(0, 99, int(r.integers(0, 4)))]
            out = mon.code(comm.scatter, [x], root=0)
            mon.check(out is x, 'scatter gives %s of %s', out, [x])
            out = mon.code(comm.gather, x, root=0)
            mon.check(len(out) == 1 and out[0] is x, 'gather gives %s', out)
            mon.code(comm.barrier)
        mon.check(isinstance(comm.name, str) and m.Status is not None and
                  m.ANY_SOURCE is not None, 'the stand-in lacks its name')
        m.Init()
        m.Finalize()
        comm.finalize()
        seen = []
        f = parallel.disable_on_workers(lambda: seen.append(1) or 7)
        mon.check(f() == 7 and seen == [1], 'disable_on_workers disables the '
                  'only process')
    finally:
        if hide == 0:
            del sys.modules['mpi4py']
        else:
            sys.modules['mpi4py'] = hide
        parallel.attempt_parallel()
