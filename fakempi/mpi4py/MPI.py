"""Point-to-point and collective operations through a router process."""

import os
import pickle
import random
import socket
import struct
import time

if 'WMV_MPI_SOCK' not in os.environ:
    raise ImportError('not started by the harness')

ANY_SOURCE = -1
ANY_TAG = -1
_COLL = 1 << 20


class Status(object):
    def __init__(self):
        self.source = ANY_SOURCE
        self.tag = ANY_TAG

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class _Comm(object):
    def __init__(self):
        self.rank = int(os.environ['WMV_MPI_RANK'])
        self.size = int(os.environ['WMV_MPI_SIZE'])
        self.name = 'MPI_COMM_WORLD'
        self._rng = random.Random(os.environ['WMV_MPI_SEED'] +
                                  str(self.rank))
        self._lag = float(os.environ.get('WMV_MPI_LAG', '0'))
        time.sleep(self._rng.random() * self._lag * 4)
        self._s = socket.socket(socket.AF_UNIX)
        self._s.connect(os.environ['WMV_MPI_SOCK'])
        self._s.sendall(struct.pack('!i', self.rank))
        self._box = []
        self._n = 0

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _pause(self):
        if self._lag:
            time.sleep(self._rng.random() * self._lag)

    def _exact(self, n):
        b = b''
        while len(b) < n:
            c = self._s.recv(n - len(b))
            if not c:
                raise RuntimeError('the communicator is gone')
            b += c
        return b

    def send(self, obj, dest, tag=0):
        self._pause()
        b = pickle.dumps(obj)
        self._s.sendall(struct.pack('!iii', dest, tag, len(b)) + b)

    ssend = bsend = send

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._pause()
        while True:
            for k, (s, t, b) in enumerate(self._box):
                if source in (s, ANY_SOURCE) and (
                        t == tag or (tag == ANY_TAG and t < _COLL)):
                    del self._box[k]
                    if status is not None:
                        status.source, status.tag = s, t
                    return pickle.loads(b)
            s, t, n = struct.unpack('!iii', self._exact(12))
            self._box.append((s, t, self._exact(n)))

    def _collect(self, obj, root=0):
        self._n += 1
        tag = _COLL + self._n
        if self.rank == root:
            return [obj if r == root else self.recv(source=r, tag=tag)
                    for r in range(self.size)]
        self.send(obj, root, tag)
        return None

    def _spread(self, objs, root=0):
        self._n += 1
        tag = _COLL + self._n
        if self.rank == root:
            for r in range(self.size):
                if r != root:
                    self.send(objs[r], r, tag)
            return objs[root]
        return self.recv(source=root, tag=tag)

    def barrier(self):
        self._collect(None)
        self._spread([None] * self.size)

    Barrier = barrier

    def scatter(self, sendobj=None, root=0):
        return self._spread(sendobj, root)

    def gather(self, sendobj, root=0):
        return self._collect(sendobj, root)

    def allgather(self, sendobj):
        v = self._collect(sendobj)
        return self._spread([v] * self.size)

    def bcast(self, obj=None, root=0):
        return self._spread([obj] * self.size, root)

    def Abort(self, code=1):
        os._exit(code)


COMM_WORLD = _Comm()


def Init():
    pass


def Finalize():
    pass


def Is_initialized():
    return True
