"""Schedule perturbation: random pauses at the synchronisation points of the standard library.

Installed in the playbook or adapter process before it starts its own threads, it
widens the windows between one thread's steps (taking or releasing a lock, putting
to or taking from a queue, sending, receiving, waking up) so that orders which need
an unlucky moment come up often.  Only the standard library is touched.
"""
from __future__ import annotations
import functools, queue, random, socket, sys, threading, time

_rnd = random.Random()
_rate = 0.0
_max = 0.0
_real_rlock, _real_lock = threading.RLock, threading.Lock


def nap():
    if _rnd.random() < _rate:
        time.sleep(_rnd.choice((0.0, 0.001, _max / 4, _max)))


def around(f):
    @functools.wraps(f)
    def g(*a, **k):
        nap()
        try:
            return f(*a, **k)
        finally:
            nap()
    return g


class _Lock:
    def __init__(self, real):
        self._l = real()

    def acquire(self, *a, **k):
        nap()
        return self._l.acquire(*a, **k)

    def release(self):
        self._l.release()
        nap()

    def __enter__(self):
        nap()
        return self._l.__enter__()

    def __exit__(self, *a):
        self._l.__exit__(*a)
        nap()

    def __getattr__(self, n):
        return getattr(self._l, n)


def install(seed):
    global _rate, _max
    _rnd.seed(seed)
    sys.setswitchinterval(_rnd.choice((0.005, 0.0005, 0.00002)))
    # many short pauses, or few which others can do a lot in, or none in this process
    _rate, _max = _rnd.choice(((0.12, 0.04), (0.12, 0.04), (0.05, 0.2), (0.0, 0.0)) if seed.endswith("/da") else
                              ((0.12, 0.04), (0.12, 0.04), (0.05, 0.2), (0.08, 0.12)))
    if not _rate:
        return
    for c, names in ((queue.Queue, ("put", "get")), (threading.Condition, ("__enter__", "__exit__", "notify_all", "notify", "wait")),
                     (threading.Event, ("set", "wait")), (threading.Thread, ("start", "join"))):
        for n in names:
            setattr(c, n, around(getattr(c, n)))
    for n in ("sendall", "send", "recv_into", "recv", "shutdown", "close", "connect", "accept"):
        if hasattr(socket.socket, n):
            setattr(socket.socket, n, around(getattr(socket.socket, n)))
    threading.RLock = lambda: _Lock(_real_rlock)
