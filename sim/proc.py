"""Runs simulated incarnations: one forked child per incarnation"""
import gc
import io
import os
import pickle
import random
import re
import resource
import signal
import sys
import threading
import time
import traceback

from . import core, fsim, netsim, prims

_real_exit = os._exit
_fork = os.fork
_pipe = os.pipe
_waitpid = os.waitpid
_read = os.read
_write = os.write
_close = os.close
_chdir = os.chdir

_installed = False


class HarnessError(Exception):
    """The simulator itself failed; never a verdict about the code under test"""


def install():
    global _installed
    if _installed:
        return
    _installed = True
    signal.signal(signal.SIGINT, signal.default_int_handler)
    prims.install()
    fsim.install()
    netsim.install()


class GroupStream(io.TextIOBase):
    """stdout/stderr of simulated processes, captured per group"""

    def __init__(self, sim, name):
        self.sim, self._name = sim, name

    @property
    def encoding(self):
        return 'utf-8'

    def writable(self):
        return True

    def isatty(self):
        return bool(self.sim.cfg.get('tty'))

    def write(self, s):
        cur = self.sim.cur
        g = cur.group if cur is not None else 0
        buf = self.sim.out.setdefault((g, self._name), [])
        if len(buf) < 5000:
            buf.append(s)
        return len(s)

    def flush(self):
        pass

    def fileno(self):
        return 1 if self._name == 'out' else 2


class Result:
    """What the parent learns from an incarnation"""
    __slots__ = ('groups', 'nev', 'nyield', 'fired', 'sites', 'trace', 'digest', 'il', 'requests', 'escapes', 'out',
                 'choices', 'end', 'now', 'wall', 'sim_s', 'probe', 'switches', 'unfired', 'wall_off')

    def ok(self, g=0):
        return self.groups[g]['status'] == 'ok'

    def stdout(self, g=0):
        return ''.join(self.out.get((g, 'out'), ()))

    def stderr(self, g=0):
        return ''.join(self.out.get((g, 'err'), ()))

    def value(self, g=0):
        return self.groups[g].get('value')

    def status(self, g=0):
        return self.groups[g]['status']

    def describe(self, g=0):
        o = self.groups[g]
        s = o['status']
        if o.get('error'):
            s += f" ({o['error']})"
        return s


def _describe_exc(e):
    # addresses of objects differ between executions
    return re.sub(r"\b0x[0-9a-f]{8,16}\b", "0x..", f"{type(e).__name__}: {e}")[:400]


def _tb_sites(e, depth=6):
    res = []
    tb = e.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if '/cdtb/' in fn:
            res.append(f"{os.path.basename(fn)}:{tb.tb_frame.f_code.co_name}")
        tb = tb.tb_next
    return res[-depth:]


def run_main(fn):
    """Run the main function of a simulated process and classify its ending"""
    try:
        value = fn()
        return {'status': 'ok', 'value': value}
    except SystemExit as e:
        if e.code in (None, 0):
            return {'status': 'ok', 'value': None}
        return {'status': 'exit', 'error': f"SystemExit({e.code!r})"}
    except KeyboardInterrupt as e:
        return {'status': 'interrupted', 'error': _describe_exc(e), 'tb': _tb_sites(e)}
    except Exception as e:
        if isinstance(e, HarnessError):
            return {'status': 'harness', 'error': traceback.format_exc()[-3000:]}
        return {'status': 'error', 'error': _describe_exc(e), 'tb': _tb_sites(e), 'etype': type(e).__name__,
                'errno': getattr(e, 'errno', None), 'full': traceback.format_exc()[-3000:]}
    except BaseException as e:
        return {'status': 'error', 'error': _describe_exc(e), 'tb': _tb_sites(e), 'etype': type(e).__name__,
                'full': traceback.format_exc()[-3000:]}


CPU_LIMIT = int(os.environ.get("SIM_CPU", "40"))


def run(cfg, root, mains, server=None, pids=None):
    """Run one incarnation

    cfg -- simulation configuration (see core.Sim)
    root -- scratch root, the only place where modifications are possible
    mains -- functions run as the main threads of simulated processes
    server -- function (method, url, headers) -> (status, headers, body)
    """
    rfd, wfd = _pipe()
    pid = _fork()
    if pid == 0:
        try:
            _close(rfd)
            _child(cfg, root, mains, server, wfd)
        except BaseException:
            try:
                _send(wfd, {'harness': traceback.format_exc()})
            finally:
                _real_exit(3)
        _real_exit(4)
    _close(wfd)
    chunks = []
    while True:
        try:
            b = _read(rfd, 1 << 20)
        except InterruptedError:
            continue
        if not b:
            break
        chunks.append(b)
    _close(rfd)
    _, st = _waitpid(pid, 0)
    data = b''.join(chunks)
    if not data:
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGXCPU:
            raise Hang(f"simulated process used more than {CPU_LIMIT} s of processor time")
        raise HarnessError(f"incarnation died without a result (wait status {st})")
    d = pickle.loads(data)
    if 'harness' in d:
        raise HarnessError(d['harness'])
    r = Result()
    for k, v in d.items():
        setattr(r, k, v)
    for g, o in r.groups.items():
        if o['status'] == 'harness':
            raise HarnessError(o['error'])
    return r


class Hang(Exception):
    """The code under test did not stop"""


def _send(fd, obj):
    data = memoryview(pickle.dumps(obj, protocol=5))
    while data:
        n = _write(fd, data)
        data = data[n:]


def _child(cfg, root, mains, server, wfd):
    gc.disable()
    try:
        resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except (ValueError, OSError):
        pass
    _chdir(root)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    sim = core.Sim(cfg, root)
    sim.cwd = root
    sim.server = server or (lambda m, u, h: (404, {}, b''))
    sim.net_seq = {}
    sim.net_down = None
    sim.entropy = random.Random(f"entropy-{cfg.get('io_seed', 0)}-{cfg.get('incarnation', 0)}")
    # processes of different containers may have the same PID
    sim.pid_of = lambda g: cfg.get('pid', 4000) + (0 if cfg.get('same_pid') else g)
    sim.dir_key = str(cfg.get('dir_seed', 0)).encode()
    sim.bufsize = int(cfg.get('bufsize', 8192))
    sim.short_reads = bool(cfg.get('short_reads', False))
    sim.real_main_ident = prims._thread.get_ident()
    random.seed(f"global-{cfg.get('io_seed', 0)}")
    for k, v in cfg.get('env', {}).items():
        if v is None:
            os.environ.pop(k, None)
        else:
            os.environ[k] = v
    time.tzset()

    def finish(why):
        groups = {g: sim.outcome.get(g, {'status': why or 'unfinished'}) for g in range(len(mains))}
        unfired = [f.to_json() for fs in sim.faults.values() for f in fs if not f.fired]
        _send(wfd, dict(groups=groups, nev=sim.nev, nyield=sim.nyield, fired=sim.fired, sites=sim.sites,
                        trace=sim.trace, digest=sim.digest.hexdigest(), il=sim.il_digest.hexdigest(),
                        requests=sim.requests, escapes=sim.escapes, out={k: v for k, v in sim.out.items()},
                        choices=sim.choices, end=why, now=sim.now, wall=sim.time(), sim_s=sim.now - sim.now0,
                        probe=sim.probe, switches=sim.switches, unfired=unfired, wall_off=sim.wall_off))
    sim.finish_cb = finish
    sys.stdout = GroupStream(sim, 'out')
    sys.stderr = GroupStream(sim, 'err')

    for g in range(len(mains)):
        sim.add_task(g, main=True)

    nondaemon_before = set(threading.enumerate())

    def shutdown():
        # what the interpreter does at exit: threading atexit callbacks, then join non-daemon threads
        for cb in reversed(list(getattr(threading, '_threading_atexits', ()))):
            cb()
        for t in list(threading.enumerate()):
            if t in nondaemon_before or t.daemon or t is threading.current_thread():
                continue
            t.join()

    def has_nondaemon():
        return any(not t.daemon and t not in nondaemon_before and t is not threading.current_thread()
                   for t in threading.enumerate())

    def body(g):
        sim_out = run_main(mains[g])
        if has_nondaemon():
            sim_out['_nondaemon'] = shutdown
        sim.group_done(g, sim_out)

    core.CURRENT = sim
    for g in range(1, len(mains)):
        t = sim.tasks[g]

        def boot(t=t, g=g):
            t.baton.acquire()
            body(g)
        prims._real_start(boot, ())
    sim.cur = sim.tasks[0]
    body(0)
