"""Simulated blocking primitives and the global patches that install them.

The patches are applied once in the worker, before it forks incarnations.  They
fall through to the real thing while no simulation is running.
"""
import _io
import _queue
import _thread
import builtins
import io
import multiprocessing
import multiprocessing.connection
import multiprocessing.pool
import os
import queue
import random
import select
import signal
import sys
import tempfile
import threading
import datetime
import time
import types

from . import core

_real_start = _thread.start_new_thread
_real_alloc = _thread.allocate_lock
_real_set_sentinel = _thread._set_sentinel
_real_time = time.time
_real_mono = time.monotonic
_real_perf = time.perf_counter
_real_sleep = time.sleep
_real_getpid = os.getpid
_real_urandom = os.urandom
_real_mp_wait = multiprocessing.connection.wait


class SimLock:
    __slots__ = ('_locked', '__weakref__')

    def __init__(self):
        self._locked = False

    def acquire(self, blocking=True, timeout=-1):
        sim = core.CURRENT
        if sim is None or sim.cur is None:
            if self._locked:
                if not blocking:
                    return False
                raise RuntimeError("SimLock contended outside a simulation")
            self._locked = True
            return True
        if blocking:
            sim.yield_point()
        if not self._locked:
            self._locked = True
            return True
        if not blocking:
            return False
        ok = sim.block(lambda: not self._locked, None if timeout is None or timeout < 0 else timeout)
        if not ok:
            return False
        self._locked = True
        return True

    acquire_lock = acquire

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False

    release_lock = release

    def locked(self):
        return self._locked

    def _at_fork_reinit(self):
        self._locked = False

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def __repr__(self):
        return f"<SimLock {'locked' if self._locked else 'unlocked'}>"


def sim_allocate_lock():
    return SimLock()


def sim_rlock(*a, **k):
    return threading._PyRLock()


def sim_set_sentinel():
    sim = core.CURRENT
    if sim is None or sim.cur is None:
        return _real_set_sentinel()
    lock = SimLock()
    sim.cur.sentinel = lock
    return lock


def sim_start_new_thread(fn, args, kwargs={}):
    sim = core.CURRENT
    if sim is None or sim.cur is None:
        return _real_start(fn, args, kwargs)
    return sim.start_thread(fn, args, kwargs, _real_start)


def sim_time():
    sim = core.CURRENT
    return sim.time() if sim is not None else _real_time()


def sim_time_ns():
    return int(sim_time() * 1e9)


def sim_mono():
    sim = core.CURRENT
    return sim.now if sim is not None else _real_mono()


def sim_mono_ns():
    return int(sim_mono() * 1e9)


def sim_sleep(s):
    sim = core.CURRENT
    if sim is None or sim.cur is None:
        return _real_sleep(s)
    sim.sleep(s)


def sim_getpid():
    sim = core.CURRENT
    if sim is None or sim.cur is None:
        return _real_getpid()
    return sim.pid_of(sim.cur.group)


def sim_urandom(n):
    sim = core.CURRENT
    if sim is None:
        return _real_urandom(n)
    return sim.entropy.randbytes(n)


def sim_mp_wait(object_list, timeout=None):
    sim = core.CURRENT
    if sim is None or sim.cur is None:
        return _real_mp_wait(object_list, timeout)
    objs = list(object_list)

    def poll():
        p = select.poll()
        byfd = {}
        for o in objs:
            fd = o if isinstance(o, int) else o.fileno()
            byfd[fd] = o
            p.register(fd, select.POLLIN)
        return [byfd[fd] for fd, _ in p.poll(0)]
    if timeout == 0:
        return poll()
    sim.block(lambda: bool(poll()), timeout)
    return poll()


_real_localtime = time.localtime
_real_gmtime = time.gmtime


def sim_localtime(t=None):
    return _real_localtime(sim_time() if t is None else t)


def sim_gmtime(t=None):
    return _real_gmtime(sim_time() if t is None else t)


_real_datetime = datetime.datetime
_real_date = datetime.date


class _DateTimeMeta(type(_real_datetime)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _real_datetime if cls is SimDateTime else _real_date)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _real_datetime if cls is SimDateTime else _real_date)


class SimDateTime(_real_datetime, metaclass=_DateTimeMeta):
    """datetime.datetime reading the simulated clock; values are plain datetimes"""

    def __new__(cls, *a, **k):
        return _real_datetime(*a, **k)

    @classmethod
    def now(cls, tz=None):
        return _real_datetime.fromtimestamp(sim_time(), tz)

    @classmethod
    def today(cls):
        return _real_datetime.fromtimestamp(sim_time())

    @classmethod
    def utcnow(cls):
        return _real_datetime.fromtimestamp(sim_time(), datetime.timezone.utc).replace(tzinfo=None)

    fromtimestamp = _real_datetime.fromtimestamp
    utcfromtimestamp = _real_datetime.utcfromtimestamp
    combine = _real_datetime.combine
    strptime = _real_datetime.strptime
    fromisoformat = _real_datetime.fromisoformat
    fromordinal = _real_datetime.fromordinal


class SimDate(_real_date, metaclass=_DateTimeMeta):
    def __new__(cls, *a, **k):
        return _real_date(*a, **k)

    @classmethod
    def today(cls):
        return _real_date.fromtimestamp(sim_time())

    fromtimestamp = _real_date.fromtimestamp
    fromisoformat = _real_date.fromisoformat
    fromordinal = _real_date.fromordinal


def sim_strftime(fmt, t=None):
    return _real_strftime(fmt, sim_localtime() if t is None else t)


def sim_ctime(t=None):
    return _real_ctime(sim_time() if t is None else t)


_real_strftime, _real_ctime = time.strftime, time.ctime


class _DetRandomNames:
    """Deterministic names for tempfile"""
    characters = "abcdefghijklmnopqrstuvwxyz0123456789_"

    def __iter__(self):
        return self

    def __next__(self):
        sim = core.CURRENT
        r = sim.entropy if sim is not None else random.Random(_real_urandom(8))
        return ''.join(r.choices(self.characters, k=8))


OWN = None      # module name prefix of the simulator, never patched


def replace_everywhere(mapping, skip_prefixes=('sim.', 'worlds', 'props', '__main__')):
    """Rebind every module-level reference to a key object of `mapping`"""
    byid = {id(k): v for k, v in mapping.items()}
    for name, mod in list(sys.modules.items()):
        if mod is None or name == 'sim' or name.startswith(skip_prefixes):
            continue
        d = getattr(mod, '__dict__', None)
        if not isinstance(d, dict):
            continue
        for k, v in list(d.items()):
            r = byid.get(id(v))
            if r is not None:
                try:
                    setattr(mod, k, r)
                except (AttributeError, TypeError):
                    pass


def replace_lock_instances():
    """Module-level lock objects created before the patches"""
    lock_t, rlock_t = _thread.LockType, _thread.RLock
    for name, mod in list(sys.modules.items()):
        if mod is None or name == 'sim' or name.startswith(('sim.', '_frozen', 'importlib', '_thread')):
            continue
        d = getattr(mod, '__dict__', None)
        if not isinstance(d, dict):
            continue
        for k, v in list(d.items()):
            if type(v) is lock_t:
                d[k] = SimLock()
            elif type(v) is rlock_t:
                d[k] = threading._PyRLock()


def install():
    mapping = {
        _thread.allocate_lock: sim_allocate_lock,
        _thread.start_new_thread: sim_start_new_thread,
        _thread._set_sentinel: sim_set_sentinel,
        time.time: sim_time,
        time.time_ns: sim_time_ns,
        time.monotonic: sim_mono,
        time.monotonic_ns: sim_mono_ns,
        time.perf_counter: sim_mono,
        time.perf_counter_ns: sim_mono_ns,
        time.sleep: sim_sleep,
        time.localtime: sim_localtime,
        time.gmtime: sim_gmtime,
        time.strftime: sim_strftime,
        time.ctime: sim_ctime,
        _real_datetime: SimDateTime,
        _real_date: SimDate,
        os.getpid: sim_getpid,
        os.urandom: sim_urandom,
        multiprocessing.connection.wait: sim_mp_wait,
        _queue.SimpleQueue: queue._PySimpleQueue,
        threading.RLock: sim_rlock,
        _thread.RLock: sim_rlock,
    }
    # _thread.start_new is an alias
    replace_everywhere(mapping)
    threading.Lock = sim_allocate_lock
    threading._allocate_lock = sim_allocate_lock
    threading._CRLock = None
    threading._start_new_thread = sim_start_new_thread
    threading._set_sentinel = sim_set_sentinel
    threading.RLock = sim_rlock
    replace_lock_instances()
    tempfile._name_sequence = _DetRandomNames()
    import logging
    for ref in list(logging._handlerList):
        h = ref()
        if h is not None:
            h.createLock()
