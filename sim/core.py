"""Deterministic simulation core.

One `Sim` drives one incarnation: the forked child of a worker in which one or
several simulated processes ("groups") run the real CDTB code.  It owns the
thread schedule, both clocks, the fault points and the event trace.  Everything
it decides is a function of its configuration, so the same configuration and
code give the same execution.

Nothing here knows about CDTB.
"""
import _thread
import hashlib
import os
import random
import re
import signal
import sys

_alloc = _thread.allocate_lock
_real_exit = os._exit
_real_raise_signal = signal.raise_signal

_UUID = re.compile(r'(?<![0-9a-f])[0-9a-f]{32}(?![0-9a-f])')
_TS = re.compile(r'(?<![0-9a-fA-F])\d{9,11}(?![0-9a-fA-F])')

CURRENT = None      # the running Sim, None when code runs outside a simulation


class SimKilled(BaseException):
    """Never raised into code under test; used for bookkeeping only"""


class Task:
    __slots__ = ('id', 'group', 'baton', 'state', 'ready', 'wake_at', 'main',
                 'sentinel', 'daemon_cut', 'prio', 'sig', 'depth')

    def __init__(self, tid, group, main=False):
        self.id = tid
        self.group = group
        self.baton = _alloc()
        self.baton.acquire()
        self.state = 'run'      # run | blocked | done | dead
        self.ready = None
        self.wake_at = None
        self.main = main
        self.sentinel = None
        self.prio = 0.0
        self.sig = 0            # pending simulated SIGINTs
        self.depth = 0          # >0: no preemption (sim internals)


class Fault:
    """A planned fault, addressed by the occ-th event (kind, path) of a group"""
    __slots__ = ('group', 'kind', 'path', 'occ', 'action', 'arg', 'fired')

    def __init__(self, group, kind, path, occ, action, arg=None):
        self.group, self.kind, self.path, self.occ = group, kind, path, occ
        self.action, self.arg = action, arg
        self.fired = False

    def to_json(self):
        return {'group': self.group, 'kind': self.kind, 'path': self.path,
                'occ': self.occ, 'action': self.action, 'arg': self.arg}

    @classmethod
    def from_json(cls, d):
        return cls(d['group'], d['kind'], d['path'], d['occ'], d['action'], d.get('arg'))


class Sim:
    MAX_EVENTS = 60000
    MAX_YIELDS = 600000

    def __init__(self, cfg, root):
        self.cfg = cfg
        self.root = root                    # scratch root, absolute and real
        self.rng = random.Random(f"sched-{cfg.get('sched_seed', 0)}")
        self.iorng = random.Random(f"io-{cfg.get('io_seed', 0)}")
        self.tasks = []
        self.cur = None
        self.now0 = float(cfg.get('mono', 1000.0))
        self.now = self.now0                # monotonic simulated seconds
        self.wall_off = float(cfg.get('wall', 1_700_000_000.0)) - self.now0
        self.tick = float(cfg.get('tick', 0.001))
        self.latency = float(cfg.get('latency', 0.05))
        self.nev = 0
        self.nyield = 0
        self.occ = {}
        self.trace = [] if cfg.get('record') else None
        self.sites = []                     # recorded fault sites
        self.digest = hashlib.blake2b(digest_size=12)
        self.il_digest = hashlib.blake2b(digest_size=12)   # interleaving only
        self.faults = {}
        for d in cfg.get('faults', ()):
            f = Fault.from_json(d) if isinstance(d, dict) else d
            self.faults.setdefault((f.group, f.kind, f.path, f.occ), []).append(f)
        self.fired = []
        self.disk_full = {}                 # group -> remaining failing writes (-1: forever)
        self.outcome = {}                   # group -> dict
        self.dead_groups = set()
        self.choices = {}                   # yield index -> task id, non-default choices taken
        self.forced = {int(k): v for k, v in cfg['choices'].items()} if cfg.get('choices') is not None else None
        pol = cfg.get('policy', {'name': 'default'})
        self.policy = pol['name'] if self.forced is None else 'forced'
        self.p_switch = pol.get('p', 0.2)
        self.pct_points = set(pol.get('points', ()))
        self.requests = []
        self.escapes = []
        self.out = {}
        self.finish_cb = None
        self.probe = {}
        self.starve = pol.get('starve')     # task id with least priority
        self.tails = {}                     # group -> (main task, nev deadline) once its main ended
        self.switches = 0

    # ---- bookkeeping -------------------------------------------------

    def in_sim(self):
        return self.cur is not None

    def hit(self, name, n=1):
        self.probe[name] = self.probe.get(name, 0) + n

    def time(self):
        return max(0.0, self.now + self.wall_off)

    def rel(self, path):
        """Path label, relative to the scratch root"""
        if path.startswith(self.root):
            return path[len(self.root) + 1:] or '.'
        return path

    def norm(self, path):
        """Path as used to address faults: independent of time, process numbers and random names"""
        path = _UUID.sub('UUID', _TS.sub('TS', path))
        pid = str(self.pid_of(self.cur.group))
        if pid in path:
            path = path.replace(pid, 'PID')
        return path

    def note(self, text):
        self.digest.update(text.encode('utf-8', 'surrogateescape'))
        self.digest.update(b'\n')
        if self.trace is not None and len(self.trace) < 20000:
            self.trace.append(text)

    # ---- tasks and scheduling ----------------------------------------

    def add_task(self, group, main=False):
        t = Task(len(self.tasks), group, main)
        t.prio = self.rng.random()
        self.tasks.append(t)
        return t

    def _runnable(self):
        res = []
        for t in self.tasks:
            s = t.state
            if s == 'run':
                res.append(t)
            elif s == 'blocked':
                if t.sig or (t.wake_at is not None and t.wake_at <= self.now) or (t.ready is not None and t.ready()):
                    res.append(t)
        return res

    def _pick(self, cands, me_ok):
        """Choose the next task among `cands` (non-empty, ordered by id)"""
        self.nyield += 1
        if self.nyield > self.MAX_YIELDS:
            self.abort('step-cap')
        cur = self.cur
        if me_ok:
            default = cur
        else:
            default = cands[0]
        if len(cands) == 1:
            return cands[0]
        idx = self.nyield
        if self.policy == 'forced':
            tid = self.forced.get(idx)
            choice = default
            if tid is not None:
                for t in cands:
                    if t.id == tid:
                        choice = t
        elif self.policy == 'default':
            choice = default
        elif self.policy == 'random':
            if not me_ok or self.rng.random() < self.p_switch:
                choice = cands[self.rng.randrange(len(cands))]
            else:
                choice = default
        elif self.policy == 'pct':
            if idx in self.pct_points and me_ok:
                cur.prio = -self.rng.random() - len(self.pct_points)
            choice = max(cands, key=lambda t: (t.prio, -t.id))
        elif self.policy == 'rr':
            later = [t for t in cands if t.id > cur.id]
            choice = later[0] if later else cands[0]
        elif self.policy == 'starve':
            others = [t for t in cands if t.id != self.starve]
            if not others:
                choice = cands[0]
            elif not me_ok or cur not in others or self.rng.random() < self.p_switch:
                choice = others[self.rng.randrange(len(others))]
            else:
                choice = default
        else:
            raise AssertionError(self.policy)
        if choice is not default:
            self.choices[idx] = choice.id
        return choice

    def _switch_to(self, nxt, park=True):
        me = self.cur
        if nxt is me:
            return
        self.switches += 1
        self.il_digest.update(b"%d>%d@%d;" % (me.id, nxt.id, self.nev))
        self.cur = nxt
        nxt.baton.release()
        if park:
            me.baton.acquire()

    def yield_point(self):
        """Preemption point of a running task"""
        me = self.cur
        if me.depth:
            return
        tail = self.tails.get(me.group) if self.tails else None
        if tail is not None and self.nev >= tail[1] and me is not tail[0]:
            self._switch_to(tail[0])
        if len(self.tasks) > 1:
            cands = self._runnable()
            self._switch_to(self._pick(cands, True))
        if me.sig:
            self._deliver(me)

    def block(self, ready, timeout=None):
        """Block the current task until `ready()` or timeout; return ready()"""
        me = self.cur
        wake_at = None if timeout is None else self.now + max(0.0, timeout)
        while True:
            if ready is not None and ready():
                return True
            if wake_at is not None and self.now >= wake_at:
                return False
            me.state = 'blocked'
            me.ready = ready
            me.wake_at = wake_at
            self._resched(park=True)
            me.state = 'run'
            me.ready = None
            me.wake_at = None
            if me.sig:
                self._deliver(me)

    def _resched(self, park):
        """Give the baton to some runnable task (current one blocked or done)"""
        while True:
            cands = self._runnable()
            if cands:
                break
            wakes = [t.wake_at for t in self.tasks if t.state == 'blocked' and t.wake_at is not None]
            if not wakes:
                self.abort('deadlock')
            self.now = max(self.now, min(wakes))
        me = self.cur
        me_ok = me in cands and me.state == 'run'
        self._switch_to(self._pick(cands, me_ok), park=park)

    def sleep(self, seconds):
        if seconds <= 0:
            self.yield_point()
        else:
            self.block(None, seconds)

    def _deliver(self, me):
        """Run the SIGINT handler in the (simulated) main thread"""
        me.sig -= 1
        self.note(f"sigint g{me.group}")
        if _thread.get_ident() == self.real_main_ident:
            _real_raise_signal(signal.SIGINT)
        else:
            raise KeyboardInterrupt()

    def interrupt(self, group):
        for t in self.tasks:
            if t.group == group and t.main and t.state in ('run', 'blocked'):
                t.sig += 1
                return True
        return False

    def start_thread(self, fn, args, kwargs, real_start):
        t = self.add_task(self.cur.group)

        def boot():
            t.baton.acquire()
            try:
                fn(*args, **kwargs)
            except SystemExit:
                pass
            except BaseException:
                self.hit('thread-exception')
            finally:
                self._task_done(t)
        self.hit('threads')
        real_start(boot, ())
        return 100000 + t.id

    def _task_done(self, t):
        t.state = 'done'
        if t.sentinel is not None:
            t.sentinel._locked = False
        self._resched(park=False)

    # ---- events and faults -------------------------------------------

    def event(self, kind, path, faultable=True, info=''):
        """A simulated system call. Yields, then returns the fault to apply, if any"""
        self.nev += 1
        if self.nev > self.MAX_EVENTS:
            self.abort('step-cap')
        self.now += self.tick
        self.yield_point()
        g = self.cur.group
        if not faultable:
            return None
        key = (g, kind, npath := self.norm(path))
        n = self.occ[key] = self.occ.get(key, 0) + 1
        self.note(f"g{g} t{self.cur.id} {kind} {path} #{n}{info}")
        if self.trace is not None:
            self.sites.append((g, kind, npath, n))
        fs = self.faults.get((g, kind, npath, n))
        if not fs:
            return None
        res = None
        for f in fs:
            f.fired = True
            self.fired.append(f"{f.action}")
            self.note(f"fault {f.action} {f.arg}")
            if f.action == 'kill':
                self.kill(g)
            elif f.action == 'sigint':
                self.interrupt(g)
                if self.cur.main and self.cur.sig:
                    self._deliver(self.cur)
            elif f.action == 'clock':
                self.wall_off += f.arg
            elif f.action == 'stop':       # long stall of the calling thread
                self.sleep(f.arg)
            else:
                res = f
        return res

    def kill(self, group):
        """SIGKILL of a simulated process: never returns in a task of that group"""
        self.outcome[group] = {'status': 'killed'}
        self.dead_groups.add(group)
        me = self.cur
        live = False
        for t in self.tasks:
            if t.group == group:
                t.state = 'dead'
            elif t.state not in ('done', 'dead'):
                live = True
        if not live:
            self.finish()
        if me.group == group:
            self._resched(park=True)    # parked forever
            self.finish('unreachable')

    # ---- end of the incarnation --------------------------------------

    def abort(self, why):
        for t in self.tasks:
            if t.main and t.group not in self.outcome:
                self.outcome[t.group] = {'status': why}
        self.finish(why)

    def finish(self, why=None):
        self.finish_cb(why)
        _real_exit(0)

    def group_done(self, group, outcome):
        """Main of a group ended; let its other threads run a bounded tail, then cut"""
        self.outcome[group] = outcome
        me = self.cur
        tail = int(self.cfg.get('tail', 40))
        non_daemon = outcome.pop('_nondaemon', None)
        if non_daemon:
            # interpreter shutdown joins them
            try:
                non_daemon()
            except BaseException as e:  # second interrupt during shutdown
                outcome['shutdown_error'] = repr(e)
        if tail:
            deadline = self.nev + tail
            self.tails[group] = (me, deadline)
            for _ in range(10 * tail):
                cands = self._runnable()
                others = [t for t in cands if t is not me and t.group == group]
                if not others or self.nev >= deadline:
                    break
                self.now += self.tick
                nxt = self._pick(cands, True)
                self._switch_to(nxt if nxt is not me else others[0])
                me.sig = 0
            del self.tails[group]
        for t in self.tasks:
            if t.group == group and t.state not in ('done',):
                t.state = 'dead'
        live = [t for t in self.tasks if t.state not in ('done', 'dead')]
        if not live:
            self.finish()
        self._resched(park=True)
        self.finish('unreachable')
