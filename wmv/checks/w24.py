"""Log files and facts about files."""

import contextlib
import hashlib
import io
import json
import logging
import os
import re
import tempfile
import threading
import time

import numpy as np

from wmv import clock, gen, pipeline

RULE = '''Five kinds of cases. Logs: fl_start_log in a fresh process with
random levels, moments (of a shifted
clock) and time zones, old contents, folders (absent, impossible), date stamps and a
terminal or none, then random messages from one or several threads; the file
must hold exactly those of the level and above, whole and in order. Facts:
random files (sizes around the chunk size, binary, links, odd names) against
hashlib and stat. Tables: saved and loaded arrays. Runs: the log of command
runs by level. Non-trivial: some messages are of the level and some below,
or the array has several rows.
Names: paths, names and versions that small programs find out about
themselves and their modules.'''
ASSUMPTIONS = ['a process that calls fl_start_log again does so with the '
               'same arguments']
MIN_COUNTS = {'met': 3, 'logs': 60, 'messages': 1500, 'left_out': 500, 'facts': 200,
              'tables': 100, 'refused': 30, 'empty_fields': 100,
              'run_logs': 6, 'names': 60}
MIN_NONTRIVIAL = 40
LEVELS = ['DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL']
LINE = re.compile(r'^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d: (.*)$')
preload = pipeline.preload


def cases(rng, tier):
    n = 1 if tier == 'quick' else 25
    for k in range(n):
        for kind, m in (('log', 90), ('facts', 25), ('table', 40),
                        ('run', 14), ('fatal', 10), ('names', 12)):
            for i in range(m):
                yield {'seed': rng.randrange(1 << 30), 'kind': kind, 'i': i}


def run_case(spec, mon):
    r = gen.nprng(spec['seed'])
    globals()[spec['kind']](r, mon, spec['i'])


class meeting(object):
    """Another process makes the same folder at the same time."""

    def __enter__(self):
        self.real = real = os.makedirs

        def makedirs(name, *a, **k):
            real(name, exist_ok=True)
            return real(name, *a, **k)
        os.makedirs = makedirs

    def __exit__(self, *a):
        os.makedirs = self.real


class Terminal(object):
    """A terminal that remembers what it shows."""

    def __init__(self):
        self.master, self.slave = os.openpty()
        self.seen = []
        self.thread = threading.Thread(target=self.drain)
        self.thread.start()

    def attach(self):
        """In the child."""
        os.close(self.master)
        os.dup2(self.slave, 1)
        os.dup2(self.slave, 2)

    def drain(self):
        while True:
            try:
                b = os.read(self.master, 65536)
            except OSError:
                break
            if not b:
                break
            self.seen.append(b)

    def text(self):
        os.close(self.slave)
        self.thread.join(20)
        os.close(self.master)
        return b''.join(self.seen).decode('utf-8', 'replace')


class alone(object):
    def __enter__(self):
        pass

    def __exit__(self, *a):
        pass


def text(r, k):
    words = ['tile e%d' % r.integers(100, 160), 'done', '100%', 'caf\u00e9',
             '%s of %d', '{0}', 'a:b', 'x' * int(r.integers(1, 300)), ' pad']
    return '#%d %s' % (k, ' '.join(str(w) for w in r.choice(words, 3)))


def log(r, mon, i):
    from utilities import files
    level = str(r.choice(LEVELS + ['NOTSET']))
    place = str(r.choice(['plain', 'deep', 'bare', 'impossible']))
    newlog = bool(r.random() < .6)
    stamp = bool(r.random() < .25)
    threads = 1 if r.random() < .7 else int(r.integers(2, 6))
    tty = bool(r.random() < .4)
    again = int(r.choice([0, 0, 0, 1, 2])) if not stamp else 0
    verbose = bool(r.random() < .6)
    work = mon.tmp + '/work'
    os.mkdir(work)
    name = str(r.choice(['m.log', 'a b.log', 'two.dots.log', 'noext']))
    if place == 'plain':
        path = where = os.path.join(mon.tmp, name)
    elif place == 'deep':
        path = where = os.path.join(mon.tmp, 'x', 'y y', name)
    elif place == 'bare':
        path, where = name, os.path.join(work, name)
    else:
        open(mon.tmp + '/file', 'w').close()
        path = os.path.join(mon.tmp, 'file', 'sub', name)
        where = os.path.join(work, name)
    if stamp:
        b, e = os.path.splitext(where)
        find = re.compile('^' + re.escape(os.path.basename(b)) +
                          r'\.(\d{12})\.' + re.escape(e.lstrip('.')) + '$')
    old = ''
    if r.random() < .5 and not stamp and place != 'deep':
        old = 'an older line\nand another\n'
        with open(where, 'w') as f:
            f.write(old)
    msgs = [[(int(r.integers(0, 5)), text(r, t * 1000 + k))
             for k in range(int(r.integers(5, 40)))]
            for t in range(threads)]
    long = not tty and r.random() < .3
    if long:        # long messages, and a log of some MB
        for ms in msgs:
            for k in range(len(ms)):
                n = int(2 ** r.uniform(9, 17.5))
                ms[k] = (4 if k % 2 else ms[k][0], ms[k][1] + ' ' +
                         'long line ' * (n // 10) + '.')
        mon.count('long')
    how = alone()
    if place == 'deep' and r.random() < .5:
        how = meeting()
        mon.count('met')
    term = Terminal() if tty else None
    zone = os.environ.get('TZ')
    os.environ['TZ'] = str(r.choice(['UTC', 'AEST-10', 'NST3:30']))
    time.tzset()
    ahead = clock.moment(r) if 'WMV_CLOCK' in os.environ else 0
    mon.count('clock_set', bool(ahead))
    t0 = time.time() + ahead

    def child():
        clock.shift(ahead)
        if tty:
            term.attach()
        with how:
            lg = files.fl_start_log(path, level, verbose, datestamp=stamp,
                                    newlog=newlog)
        for _ in range(again):
            lg = files.fl_start_log(path, level, verbose, newlog=newlog)
        assert lg is logging.getLogger(), 'not the root logger'
        others = [logging.getLogger(), logging.getLogger('some.module')]

        def talk(t):
            for k, (lv, m) in enumerate(msgs[t]):
                others[k % 2].log((lv + 1) * 10, '%s', m)
        ths = [threading.Thread(target=talk, args=(t,))
               for t in range(threads)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        logging.shutdown()
    out = mon.tmp + '/out.log'
    try:
        rc = pipeline.forked(mon, child, work, log=out)
        t1 = time.time() + ahead
        # the log is dated in whole seconds of the local time
        stamps = [time.strftime('%Y%m%d%H%M', time.localtime(t))
                  for t in (t0, t1)]
        dates = [time.strftime('%Y-%m-%d %H:%M:%S', time.localtime(t))
                 for t in (t0 - 1, t1 + 1)]
    finally:
        os.environ.pop('TZ')
        if zone is not None:
            os.environ['TZ'] = zone
        time.tzset()
    term = term and term.text()
    mon.check(rc == 0, 'fl_start_log(%r, %s) failed: %s', path, level,
              pipeline.tail(out))
    if stamp:
        d = os.path.dirname(where)
        got = [f for f in os.listdir(d) if find.match(f)]
        mon.check(len(got) == 1, 'no log with a date stamp: %s',
                  os.listdir(d))
        s = find.match(got[0]).group(1)
        mon.check(s in stamps, 'the log is stamped %s at %s', s, stamps)
        where = os.path.join(d, got[0])
    mon.check(os.path.isfile(where), 'the log %s is not at %s', path, where)
    with io.open(where, encoding='utf-8', newline='') as f:
        body = f.read()
    mon.count('logs')
    if not newlog:
        mon.check(body.startswith(old), 'the older log was not kept')
        body = body[len(old):]
    else:
        mon.check(not old or old not in body, 'the older log was kept')
    mon.check(body == '' or body.endswith('\n'), 'the last line is cut off')
    lines = body.split('\n')[:-1]
    plain = []
    for ln in lines:
        m = LINE.match(ln)
        mon.check(m is not None, 'garbled line in the log: %r', ln)
        mon.check(dates[0] <= ln[:19] <= dates[1], 'a line of the log is '
                  'dated %s, it was written between %s and %s', ln[:19],
                  *dates)
        plain.append(m.group(1))
    low = 0 if level == 'NOTSET' else LEVELS.index(level)
    got = [p for p in plain if p.startswith('#')]
    head = [p for p in plain if not p.startswith('#')]
    for t in range(threads):
        want = [m for lv, m in msgs[t] if lv >= low]
        mine = [g for g in got if int(g[1:].split(' ', 1)[0]) // 1000 == t]
        mon.check(mine == want, 'the log at level %s holds %d of the %d '
                  'messages: %s, expected %s', level, len(mine), len(want),
                  mine[:3], want[:3])
        mon.count('messages', len(want))
        mon.count('left_out', len(msgs[t]) - len(want))
    mon.check(len(got) == sum(lv >= low for m in msgs for lv, _ in m),
              'messages in the log that nobody sent')
    if low <= 1:
        mon.check(head and os.path.basename(where) in head[0] and
                  level in head[0], 'the log starts with %s', head[:1])
    else:
        mon.check(not head, 'the log at level %s holds %s', level, head)
    if tty:
        shown = sum(term.count(m.split(' ', 1)[0] + ' ')
                    for ms in msgs for lv, m in ms if lv >= low)
        whole = all(m in term for ms in msgs for lv, m in ms if lv >= low)
        mon.check(whole or not verbose, 'the terminal shows messages cut')
        below = [m for ms in msgs for lv, m in ms if lv < low and m in term]
        total = sum(lv >= low for ms in msgs for lv, _ in ms)
        mon.check(not below, 'the terminal shows messages below %s: %s',
                  level, below[:2])
        mon.check(shown == (total if verbose else 0), 'the terminal shows %d '
                  'of %d messages (verbose %s)', shown, total, verbose)
        mon.count('terminals')
    mon.state(level, place, newlog, stamp, threads > 1, tty, verbose)
    mon.nontrivial = 0 < low and bool(got)


def raises(mon, kinds, fn, *args):
    try:
        v = fn(*args)
    except kinds:
        mon.count('refused')
        return
    except BaseException as e:
        mon.fail('%s%r raised %r' % (fn.__name__, args, e))
    mon.fail('%s%r returned %r' % (fn.__name__, args, v))


def facts(r, mon, i):
    zone = os.environ.get('TZ')
    os.environ['TZ'] = str(r.choice(['UTC', 'AEST-10', 'NST3:30']))
    time.tzset()
    try:
        file_facts(r, mon)
    finally:
        os.environ.pop('TZ')
        if zone is not None:
            os.environ['TZ'] = zone
        time.tzset()


@contextlib.contextmanager
def reader(mon, folder, path, on):
    """As somebody who may only read the file (when run by root)."""
    if not on or os.geteuid() != 0:
        yield
        return
    os.chmod(path, 0o444)
    while folder.startswith(tempfile.gettempdir() + '/'):
        os.chmod(folder, os.stat(folder).st_mode | 0o555)
        folder = os.path.dirname(folder)
    try:
        os.seteuid(65534)
    except OSError:         # not even root may do that here
        pass
    try:
        yield
    finally:
        if os.geteuid() != 0:
            os.seteuid(0)
            mon.count('read_only')


def file_facts(r, mon):
    from utilities import files
    for k in range(10):
        chunk = int(r.choice([1, 7, 256, 4096, 2 ** 16]))
        size = max(0, int(r.choice([0, 1, chunk - 1, chunk, chunk + 1,
                                    3 * chunk, 3 * chunk + 5,
                                    int(r.integers(0, 5000))])))
        body = r.bytes(size)
        if r.random() < .3:
            body = body.replace(b'\n', b'\r\n') + b'\x1a\x00'
        name = str(r.choice(['a.dat', 'b c.x', 'caf\u00e9.nc', '.hidden',
                             'no']))
        d = os.path.join(mon.tmp, 'd%d' % k)
        os.mkdir(d)
        real = path = os.path.join(d, name)
        with open(path, 'wb') as f:
            f.write(body)
        t = int(r.integers(10 ** 8, 2 * 10 ** 9)) + float(r.choice([0, .75]))
        os.utime(path, (t - 1e6, t))
        if r.random() < .3:
            os.symlink(path, d + '/link')
            path = d + '/link'
        if r.random() < .3:
            os.chdir(d)
            path = os.path.basename(path)
        elif r.random() < .3:
            path = os.path.relpath(path)
        with reader(mon, d, real, r.random() < .3):
            out = mon.code(files.fl_get_stat, path, chunk) \
                if r.random() < .7 else mon.code(files.fl_get_stat, path)
        want = os.path.split(path) + (hashlib.md5(body).hexdigest(),
                                      time.ctime(t))
        mon.check(tuple(out) == want, 'fl_get_stat gives %s, expected %s '
                  '(%d bytes, chunks of %d)', out, want, len(body), chunk)
        fmt = str(r.choice(['%Y-%m-%d %H:%M:%S', '%Y-%m-%dT%H:%M:%S', '%j',
                            '%H%M']))
        got = mon.code(files.fl_mod_date, path, fmt)
        mon.check(got == time.strftime(fmt, time.localtime(t)),
                  'fl_mod_date gives %r at %s', got, t)
        got = mon.code(files.fl_mod_date, path)
        mon.check(got == time.strftime('%Y-%m-%d %H:%M:%S',
                                       time.localtime(t)),
                  'fl_mod_date gives %r at %s', got, t)
        got = mon.code(files.fl_size, path)
        mon.check(got == len(body), 'fl_size gives %r of %d bytes', got,
                  len(body))
        with open(real, 'rb') as f:
            mon.check(f.read() == body, 'the file changed')
        mon.check(os.stat(real).st_mtime == t, 'the file was touched')
        mon.count('facts')
        bad = os.path.join(d, 'absent')
        raises(mon, (IOError,), files.fl_get_stat, bad)
        raises(mon, (IOError,), files.fl_size, bad)
        raises(mon, (IOError,), files.fl_mod_date, bad)
        os.chdir(mon.tmp)
        raises(mon, (TypeError, IOError), files.fl_get_stat,
               [None, 3.5, ['a']][int(r.integers(0, 3))])


def table(r, mon, i):
    from utilities import files
    for k in range(5):
        rows, cols = int(r.integers(2, 30)), int(r.integers(2, 8))
        a = r.normal(0, 1, (rows, cols)) * 10. ** r.integers(-30, 30)
        if r.random() < .3:
            a[r.random(a.shape) < .2] = np.nan
        if r.random() < .2:
            a = np.round(a[0])
        delim = str(r.choice([',', ';', '\t', ' ', '|']))
        header = str(r.choice(['', 'a b c', 'x,y,z', 'two\nlines']))
        place = str(r.choice(['here', 'there', 'bare']))
        path = {'here': mon.tmp + '/t%d.csv' % k,
                'there': mon.tmp + '/new%d/sub/t.csv' % k,
                'bare': 't%d.txt' % k}[place]
        kw = {} if delim == ',' and r.random() < .5 else {'delimiter': delim}
        keep = a.copy()
        with meeting() if r.random() < .5 else alone():
            mon.code(files.fl_save_file, path, a, header=header, **kw)
        mon.check(np.array_equal(a, keep, equal_nan=True),
                  'fl_save_file changed its data')
        with open(path) as f:
            first = f.readline()
        if header:
            mon.check(first == '%' + header.split('\n')[0] + '\n' or
                      first == '% ' + header.split('\n')[0] + '\n',
                      'the header reads %r', first)
        skip = int(r.integers(0, 3))
        b = mon.code(files.fl_load_file, path, **kw)
        mon.check(b.shape == a.shape and
                  np.array_equal(a, b, equal_nan=True),
                  'an array of %s comes back as %s, with other values',
                  a.shape, b.shape)
        if not header and a.ndim > 1 and skip < len(a) - 1:
            b = mon.code(files.fl_load_file, path, skiprows=skip, **kw)
            mon.check(np.array_equal(a[skip:], b, equal_nan=True),
                      'skiprows=%d gives other rows', skip)
        mon.count('tables')
    written(r, mon)
    mon.nontrivial = True


def written(r, mon):
    """A table that somebody wrote, with comments and empty fields."""
    from utilities import files
    rows, cols = int(r.integers(2, 12)), int(r.integers(2, 6))
    a = np.round(r.normal(0, 100, (rows, cols)), int(r.integers(0, 6)))
    a[r.random(a.shape) < .3] = np.nan
    a[np.isnan(a).all(1), 0] = 2
    a[0] = 1        # numpy takes the number of columns from the first row
    delim = str(r.choice([',', ';', '|', '\t']))
    mark = str(r.choice(['%', '#', '//']))
    kw = {} if mark == '%' and r.random() < .7 else {'comments': mark}
    if delim != ',' or r.random() < .3:
        kw['delimiter'] = delim
    path = mon.tmp + '/written.csv'
    with open(path, 'w') as f:
        for row in a:
            if r.random() < .3:
                f.write(mark + ' a remark' + delim + '5\n')
            f.write(delim.join('' if np.isnan(v) else repr(float(v))
                               for v in row))
            f.write(mark + ' tail\n' if r.random() < .2 and
                    not np.isnan(row[-1]) else '\n')
    with open(path) as f:
        lines = f.read()
    b = mon.code(files.fl_load_file, path, **kw)
    mon.check(b.shape == a.shape and
              np.array_equal(a, b, equal_nan=True), '%r is read as %s',
              lines, b.tolist())
    mon.count('empty_fields', int(np.isnan(a).sum()))


def fatal(r, mon, i):
    """An error reported by fl_log_fatal_error ends the program as failed and
    stays in the log."""
    from utilities import files
    path = mon.tmp + '/f.log'
    lines = ['Traceback:', '  File "x", line %d' % i, '    oops()',
             'ValueError: %d' % r.integers(0, 99)]
    extra = ['    oops()', '', '    return a - b - ', '- 5 % d of %s %(x)s',
             '  ^^^^', 'caf\u00e9 {0}', '    oops()', '=' * 500, '-----']
    at = int(r.integers(0, len(lines)))
    lines[at:at] = [extra[k] for k in
                    r.integers(0, len(extra), int(r.integers(0, 7)))]

    def child():
        files.fl_start_log(path, str(r.choice(LEVELS)))
        files.fl_log_fatal_error(lines)
    rc = pipeline.forked(mon, child, mon.tmp)
    mon.check(rc != 0, 'a fatal error ends the program with status 0')
    with open(path) as f:
        got = [LINE.match(v.rstrip('\n')).group(1) for v in f]
    want = [v.lstrip() for v in lines]
    mon.check(got[-len(want):] == want, 'the log holds %s, expected %s',
              got, want)
    mon.count('fatal')


PROGRAM = """
import json, sys
%(version)s
from utilities import files
sys.path.insert(0, %(lib)r)
import helper_mod

def deeper(k):
    return helper_mod.ask(files) if k == 0 else deeper(k - 1)

out = dict(deeper(%(depth)d) if %(depth)d >= 0 else helper_mod.ask(files),
           path=files.fl_module_path(),
           name=files.fl_module_name(),
           own=files.fl_program_version(level=1),
           direct=files.fl_program_version())
with open(%(out)r, 'w') as f:
    json.dump(out, f)
"""
HELPER = """
__version__ = 'of the helper'

def ask(files):
    return {'hpath': files.fl_module_path(), 'hname': files.fl_module_name(),
            'above': files.fl_module_path(level=2),
            'aname': files.fl_module_name(level=2),
            'config': files.fl_config_file(%(ext)r, %(pre)r),
            'ini': files.fl_config_file(),
            'version': files.fl_program_version(),
            'hversion': files.fl_program_version(level=1)}
"""


def names(r, mon, i):
    """Names and versions of a program and a module that it calls."""
    base = str(r.choice(['baz', 'my prog', 'two.dots', 'x', 'MyProg']))
    ext = str(r.choice(['.py', '.py', '.PY', '']))
    d = os.path.realpath(os.path.join(mon.tmp, 'foo bar', 'v1.2'))
    lib = os.path.realpath(os.path.join(mon.tmp, 'lib'))
    os.makedirs(d)
    os.makedirs(lib)
    version = str(r.choice(['', '1.2', '$Id: 3 $']))
    conf = {'ext': str(r.choice(['.ini', '.cfg', '.log', ''])),
            'pre': str(r.choice(['', 'pre_', 'a.b-']))}
    with open(lib + '/helper_mod.py', 'w') as f:
        f.write(HELPER % conf)
    path, out = os.path.join(d, base + ext), mon.tmp + '/o.json'
    with open(path, 'w') as f:
        f.write(PROGRAM % {
            'version': version and '__version__ = %r' % version,
            'lib': lib, 'depth': int(r.integers(-2, 4)), 'out': out})
    call, cwd = path, mon.tmp
    u = r.random()
    if u < .3:
        cwd, call = d, base + ext
    elif u < .5:
        call = os.path.relpath(path, cwd)
    elif u < .7:
        os.symlink(path, mon.tmp + '/link.py')
        call = 'link.py'
    rc, text = pipeline.command(mon, [call], cwd)
    mon.check(rc == 0, 'a program that asks for its names fails: %s',
              text[-600:])
    with open(out) as f:
        got = json.load(f)
    base, ext = os.path.splitext(base + ext)
    want = {'path': [d, base, ext], 'name': base, 'own': version,
            'hpath': [lib, 'helper_mod', '.py'], 'hname': 'helper_mod',
            'above': [d, base, ext], 'aname': base,
            'config': '%s/%s%s%s' % (d, conf['pre'], base, conf['ext']),
            'ini': '%s/%s.ini' % (d, base), 'version': version,
            'hversion': 'of the helper', 'direct': version}
    for k in want:
        mon.check(got[k] == want[k], '%s of the program %s: %r, expected %r',
                  k, path, got[k], want[k])
        mon.count('names')
    mon.nontrivial = True


def run(r, mon, i):
    """The log of a run."""
    case = pipeline.small(r, mon.tmp, px=1 / 12., maxtiles=2, empty=False)
    level = LEVELS[[0, 1, 2, 1, 3, 0, 1, 4][i % 8]]
    with open(case.cfg) as f:
        cfg = f.read()
    with open(case.cfg, 'w') as f:
        f.write(cfg.replace('LogLevel = INFO', 'LogLevel = ' + level))
    if r.random() < .5:
        os.makedirs(case.root + '/log')
        with open(case.root + '/log/m.log', 'w') as f:
            f.write('old\n')
    verbose, option = bool(r.random() < .4), bool(r.random() < .3)
    with open(case.cfg) as f:
        cfg = f.read()
    with open(case.cfg, 'w') as f:
        f.write(cfg.replace('Verbose = False', 'Verbose = ' + str(
            r.choice(['True', 'yes', '1'] if verbose else
                     ['False', 'no', '0']))))
    talks = level in ('DEBUG', 'INFO')
    tty = Terminal() if r.random() < (.9 if talks else .3) else None
    pipeline.run(mon, case, ['-v'] if option else [],
                 hook=tty and tty.attach)
    with open(case.root + '/log/m.log') as f:
        body = f.read()
    mon.count('run_logs')
    low = LEVELS.index(level)
    if tty:
        shown = tty.text()
        said = [v[21:] for v in body.split('\n') if len(v) > 30 and
                v[21:].strip()]
        n = sum(v in shown for v in said)
        mon.check(n == (len(said) if verbose or option else 0),
                  'verbose %s (configured) %s (option): the terminal shows '
                  '%d of %d messages', verbose, option, n, len(said))
        mon.count('run_terminals')
    mon.check('old\n' not in body, 'the log of an older run was kept')
    done = ['Successfully completed wind multipliers calculation',
            'Successfully converted to raster image']
    if low <= 1:
        at = [body.find(d) for d in done]
        mon.check(-1 < at[0] < at[1], 'the log of a successful run at level '
                  '%s ends with %s', level, body[-500:])
    else:
        mon.check(not any(d in body for d in done), 'the log at level %s '
                  'holds messages of level INFO', level)
    if low >= 3:
        mon.check(body == '', 'the log of a good run at level %s holds: %s',
                  level, body[:500])
    mon.nontrivial = True


