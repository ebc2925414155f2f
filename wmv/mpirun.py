"""Run a program of /repo as several real processes that talk through a
router in this process."""

import os
import random
import select
import shutil
import signal
import socket
import struct
import subprocess
import time

from wmv.common import HERE, PY, Violation
from wmv.pipeline import env


class Router(object):
    def __init__(self, path, size, seed):
        self.srv = socket.socket(socket.AF_UNIX)
        self.srv.bind(path)
        self.srv.listen(size)
        self.size = size
        self.conn, self.buf, self.rank = {}, {}, {}
        self.early = {}
        self.rng = random.Random(seed)
        self.messages = 0
        self.order = []

    def step(self):
        socks = [self.srv] + list(self.conn.values()) + list(self.rank)
        rd, _, _ = select.select(socks, [], [], 0.02)
        self.rng.shuffle(rd)
        for s in rd:
            if s is self.srv:
                c, _ = s.accept()
                self.rank[c] = None
                continue
            if s in self.rank:      # introduces itself
                b = s.recv(4, socket.MSG_WAITALL)
                del self.rank[s]
                if len(b) == 4:
                    r = struct.unpack('!i', b)[0]
                    self.conn[r] = s
                    for m in self.early.pop(r, []):
                        s.sendall(m)
                continue
            r = [k for k, v in self.conn.items() if v is s]
            if not r:
                continue
            r = r[0]
            try:
                h = s.recv(12, socket.MSG_WAITALL)
            except ConnectionError:
                h = b''
            if len(h) < 12:
                del self.conn[r]
                continue
            d, t, n = struct.unpack('!iii', h)
            b = s.recv(n, socket.MSG_WAITALL) if n else b''
            self.messages += 1
            self.order.append((r, d))
            m = struct.pack('!iii', r, t, n) + b
            if d in self.conn:
                try:
                    self.conn[d].sendall(m)
                except (BrokenPipeError, ConnectionError):
                    pass
            else:
                self.early.setdefault(d, []).append(m)


def mpirun(mon, size, argv, cwd, seed, lag=0.0, timeout=100, slow=0.0,
           hooks=()):
    """hooks: {rank: what it calls at its start}. Returns (statuses, outputs,
    router)."""
    path = os.path.join(mon.tmp, 's%d' % mon.counts.get('mpiruns', 0))
    router = Router(path, size, seed)
    if slow:
        os.mkdir(path + '.sync')
    mon.count('mpiruns')
    procs = []
    logs = []
    try:
        for k in range(size):
            log = open('%s.%d.log' % (path, k), 'wb+')
            logs.append(log)
            e = env(WMV_MPI_SOCK=path, WMV_MPI_RANK=str(k),
                    WMV_MPI_SIZE=str(size), WMV_MPI_SEED=str(seed),
                    WMV_MPI_LAG=str(lag), WMV_SLOW_FILES=str(slow))
            # every process orders its sets and listings in its own way
            e['PYTHONHASHSEED'] = str((seed + 7919 * k) % 99991 + 1)
            e['PYTHONPATH'] += ':' + os.path.join(HERE, 'fakempi')
            procs.append(subprocess.Popen(
                [PY] + argv, cwd=cwd, env=e, stdin=subprocess.DEVNULL,
                stdout=subprocess.DEVNULL if k in hooks else log,
                stderr=subprocess.STDOUT, start_new_session=True,
                preexec_fn=hooks[k] if k in hooks else None))
        end = time.time() + timeout
        idle = 0
        while True:
            before = router.messages
            router.step()
            st = [p.poll() for p in procs]
            if all(s is not None for s in st):
                break
            if any(s not in (None, 0) for s in st):
                # the job would be aborted
                time.sleep(.5)
                break
            idle = idle + 1 if router.messages == before else 0
            if time.time() > end:
                raise Violation('processes still running after %d s: %s'
                                   % (timeout, st))
        st = [p.poll() for p in procs]
    finally:
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        router.srv.close()
        for c in list(router.conn.values()):
            c.close()
        os.remove(path)
        if slow:
            shutil.rmtree(path + '.sync')
    out = []
    for log in logs:
        log.seek(0)
        out.append(log.read().decode('utf-8', 'replace'))
        log.close()
    return st, out, router
