"""Plans, execution of plans and fault placement, common to all worlds"""
import contextlib
import hashlib
import json
import os
import random
import re
import shutil
import sys
import tempfile

from sim import core, proc

SCRATCH_BASE = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()

_scratch = None


def scratch():
    """Scratch directory of this worker process"""
    global _scratch
    if _scratch is None or not os.path.isdir(_scratch):
        n = 0
        while True:
            # same length for every worker: paths must not change what the code does
            d = os.path.join(os.path.realpath(SCRATCH_BASE), f'cdtb-dst-{os.getpid():08d}-{n:04d}')
            try:
                os.mkdir(d, 0o755)
                break
            except FileExistsError:
                n += 1
        _scratch = d
    return _scratch


def cleanup_scratch():
    global _scratch
    if _scratch is not None:
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch = None


class Violation(Exception):
    """The code under test broke a property"""

    def __init__(self, cls, msg, prop=None):
        super().__init__(f"{cls}: {msg}")
        self.cls, self.msg, self.prop = cls, msg, prop


def rng_for(*parts):
    return random.Random('/'.join(str(p) for p in parts))


class Stats:
    def __init__(self):
        self.incarnations = 0
        self.events = 0
        self.sim_s = 0.0
        self.fired = {}
        self.digests = set()
        self.ils = set()
        self.probe = {}
        self.statuses = {}
        self.switches = 0
        self.requests = 0
        self.unfired = 0
        self.sites = set()

    def add(self, r):
        self.incarnations += 1
        self.events += r.nev
        self.sim_s += r.sim_s
        for a in r.fired:
            self.fired[a] = self.fired.get(a, 0) + 1
        self.digests.add(r.digest)
        if r.switches:
            self.ils.add(r.il)
        for k, v in r.probe.items():
            self.probe[k] = self.probe.get(k, 0) + v
        for o in r.groups.values():
            self.statuses[o['status']] = self.statuses.get(o['status'], 0) + 1
        self.switches += r.switches
        self.requests += len(r.requests)
        self.unfired += len(r.unfired)

    def hit(self, name, n=1):
        self.probe[name] = self.probe.get(name, 0) + n

    def merge(self, o):
        self.incarnations += o.incarnations
        self.events += o.events
        self.sim_s += o.sim_s
        self.switches += o.switches
        self.requests += o.requests
        self.unfired += o.unfired
        for name in ('fired', 'probe', 'statuses'):
            d = getattr(self, name)
            for k, v in getattr(o, name).items():
                d[k] = d.get(k, 0) + v
        self.digests |= o.digests
        self.ils |= o.ils
        self.sites |= o.sites


class World:
    """One execution of a plan: subclass implements setup(), op_<name>() and final()"""

    name = None

    @staticmethod
    def veto(fault):
        """Return True for faults the world cannot tell from a legitimate answer"""
        return False

    def __init__(self, plan, stats, record=False):
        self.plan = plan
        self.prop = plan['prop']
        self.params = plan['params']
        self.seed = plan['seed']
        self.stats = stats
        self.record = record
        self.recorded = []      # per op: Result of recorded incarnations
        self.violations = []
        self.wall = float(plan['params'].get('wall', 1_700_000_000))
        self.mono = 1000.0
        self.incarnation = 0
        self.op_index = -1
        self.log = []
        self.digest = hashlib.blake2b(digest_size=12)
        self.root = os.path.join(scratch(), 'w')
        if os.path.lexists(self.root):
            shutil.rmtree(self.root)
        os.makedirs(self.root)
        os.makedirs(os.path.join(self.root, 'home'))

    # -- to implement
    def setup(self):
        pass

    def final(self):
        pass

    # -- helpers
    def path(self, *p):
        return os.path.join(self.root, *p)

    def violation(self, prop, cls, msg):
        self.violations.append({'prop': prop, 'cls': cls, 'msg': msg, 'op': self.op_index})
        self.say(f"VIOLATES {prop} {cls}: {msg}")

    def say(self, text):
        self.log.append(text)

    def env(self):
        return {'HOME': self.path('home'), 'CDTB_STORAGE': None, 'CDTB_EXPORT': None, 'TZ': self.params.get('tz', 'UTC0')}

    def run(self, mains, op=None, server=None, **over):
        """Run one incarnation with the settings of `op`"""
        op = op or {}
        p = self.params
        self.incarnation += 1
        cfg = {
            'mono': self.mono,
            'wall': self.wall,
            'tick': p.get('tick', 0.001),
            'latency': p.get('latency', 0.02),
            'sched_seed': f"{self.seed}-{self.op_index}-{op.get('sseed', 0)}",
            'io_seed': f"{self.seed}-{self.op_index}",
            'dir_seed': p.get('dir_seed', 0),
            'incarnation': self.incarnation,
            'pid': 4242 if p.get('same_pid') else 4000 + 10 * self.incarnation,
            'same_pid': p.get('same_pid', False),
            'bufsize': p.get('bufsize', 8192),
            'short_reads': p.get('short_reads', False),
            'p_chunked': p.get('p_chunked', 0.3),
            'p_gzip': p.get('p_gzip', 0.0),
            'policy': op.get('policy', {'name': 'default'}),
            'choices': op.get('choices'),
            'faults': op.get('faults', []),
            'tail': op.get('tail', 0),
            'record': self.record and not over.get('observer'),
            'env': self.env(),
            'tty': p.get('tty', False),
        }
        over.pop('observer', None)
        cfg.update(over)
        os.umask(0o022)
        r = proc.run(cfg, self.root, mains, server)
        self.mono = r.now
        self.wall = r.wall
        self.stats.add(r)
        self.digest.update(r.digest.encode() + r.il.encode())
        for g, o in sorted(r.groups.items()):
            self.digest.update(f"{g} {o['status']} {o.get('error')}".encode('utf-8', 'replace'))
        if r.escapes:
            self.violation(self.prop, 'escape', f"modification outside of the working directories: {r.escapes[:3]}")
        return r

    def observe(self, fn, server=None, **over):
        """Run `fn` fault-free in a fresh process and return its value; errors are returned as exceptions"""
        r = self.run([fn], server=server, observer=True, record=False, **over)
        return r

    def execute(self):
        self.setup()
        for i, op in enumerate(self.plan['ops']):
            self.op_index = i
            try:
                getattr(self, 'op_' + op['op'])(op)
            except proc.Hang as e:
                self.violation(self.prop, 'hang', f"{op.get('cmd', op['op'])}: {e}")
                return self
            # a violation of another property doesn't end the run: this one may break later
            if any(v['prop'] == self.prop for v in self.violations):
                return self
        self.op_index = len(self.plan['ops'])
        self.final()
        return self


_TEMPORARY = re.compile(r'^\.|~$|tmp|temp|cdtb-|(?:^|[._-])(?:part|partial|new|old|bak|backup|swp|incomplete|download|downloading|lock|writing|[0-9a-f]{32})(?:[._-]|$)')


def looks_temporary(name):
    """Names a killed process may leave behind: working files, whatever the code calls them"""
    return any(_TEMPORARY.search(x) for x in name.split('/'))


# ---- fault placement ---------------------------------------------------

_GEN = [
    (re.compile(r'^https?://[^/]+'), lambda m: m.group(0)),
    (re.compile(r'[0-9A-F]{16}'), 'X16'),
    (re.compile(r'[0-9a-f]{40}'), 'h40'),
    (re.compile(r'[0-9a-f]{16}'), 'h16'),
    (re.compile(r'cdtb-tmp[^/]*'), 'TMP'),
    (re.compile(r'\d+'), 'N'),
]


def generalize(kind, path):
    """Class of a fault site: which place of the code it stems from, roughly"""
    p = path
    for rx, sub in _GEN[1:]:
        p = rx.sub(sub, p)
    parts = p.split('/')
    if len(parts) > 6:
        parts = parts[:5] + ['..'] + parts[-1:]
    base, ext = os.path.splitext(parts[-1])
    if kind not in ('http', 'connect') and len(parts) > 2 and base and base not in ('latest', 'release', 'patch_version'):
        parts[-1] = '*' + ext
    return kind + ' ' + '/'.join(parts)


MUT = ('open-w', 'write', 'close', 'mkdir', 'rename', 'remove', 'rmdir', 'symlink', 'utime', 'chmod', 'fsync')
NET = ('http', 'connect')
RD = ('open-r', 'read', 'listdir')

ACTIONS = {
    'kill': {
        'open-w': [('kill', None)],
        'write': [('kill', None), ('torn', 0.3), ('torn', 0.7), ('torn-full', None)],
        'close': [('kill', None)], 'mkdir': [('kill', None)], 'rename': [('kill', None)],
        'remove': [('kill', None)], 'rmdir': [('kill', None)], 'symlink': [('kill', None)],
        'utime': [('kill', None)], 'chmod': [('kill', None)], 'fsync': [('kill', None)],
        'http': [('kill', None)],
    },
    'sigint': {k: [('sigint', None)] for k in MUT + ('http', 'read', 'open-r')},
    'disk': {
        'open-w': [('ENOSPC', None), ('EIO', None), ('EACCES', None), ('diskfull', -1), ('diskfull', -1)],
        'write': [('ENOSPC', None), ('EIO', None), ('diskfull', -1), ('diskfull', -1), ('diskfull', 2)],
        'close': [('EIO', None), ('ENOSPC', None)],
        'mkdir': [('ENOSPC', None), ('EACCES', None), ('diskfull', -1)],
        'rename': [('EIO', None), ('ENOSPC', None)],
        'symlink': [('ENOSPC', None), ('EIO', None), ('diskfull', -1)],
    },
    'rmdisk': {'remove': [('EIO', None), ('EACCES', None)], 'rmdir': [('EIO', None)], 'utime': [('EIO', None)]},
    'short': {'write': [('short', 0.3), ('short', 0.8), ('short', 0.0)]},
    'read': {'open-r': [('EIO', None), ('EMFILE', None)], 'read': [('EIO', None)], 'listdir': [('EIO', None)]},
    'net': {
        'connect': [('refuse', None), ('ctimeout', None), ('dns', None)],
        'http': [('reset', None), ('rtimeout', None), ('eof', None), ('status', 404), ('status', 403), ('status', 500),
                 ('status', 503), ('status', 429), ('trunc', 0.0), ('trunc', 0.6), ('trunc', 0.99), ('reset-mid', 0.5), ('timeout-mid', 0.5),
                 ('down', 'refuse'), ('down', 'status')],
    },
    'missing': {'http': [('status', 404), ('status', 404), ('status', 410)]},
    'status': {'http': [('status', 403), ('status', 500), ('status', 503), ('status', 429)]},
    'clock': {k: [('clock', -3600.0), ('clock', -5.0), ('clock', 86400.0), ('clock', -90000.0)] for k in ('http', 'open-w', 'rename', 'mkdir')},
    'stop': {k: [('stop', 5.0), ('stop', 600.0)] for k in ('http', 'open-w', 'write', 'rename', 'symlink')},
}


def place_faults(rng, sites, families, n=1, only=None, prefer=None, veto=None):
    """Choose `n` faults among the recorded sites of an incarnation

    families -- {family: weight}
    Sites are drawn by class first, so that rare places get their share.
    """
    byclass = {}
    for g, kind, path, occ in sites:
        if only is not None and not only(g, kind, path):
            continue
        byclass.setdefault(generalize(kind, path), []).append((g, kind, path, occ))
    if not byclass:
        return []
    fams = sorted(families)
    res = []
    used = set()
    for _ in range(20 * n):
        if len(res) >= n:
            break
        fam = rng.choices(fams, [families[f] for f in fams])[0]
        table = ACTIONS[fam]
        classes = sorted(c for c in byclass if c.split(' ', 1)[0] in table)
        if not classes:
            continue
        if prefer:
            pref = [c for c in classes if prefer(c)]
            if pref and rng.random() < 0.5:
                classes = pref
        c = rng.choice(classes)
        lst = byclass[c]
        g, kind, path, occ = lst[rng.randrange(len(lst))]
        # other faults are placed on a different site
        if (g, kind, path, occ) in used:
            continue
        used.add((g, kind, path, occ))
        action, arg = rng.choice(table[kind])
        if action in ('torn', 'short') and rng.random() < 0.5:
            arg = round(rng.random(), 3)
        f = {'group': g, 'kind': kind, 'path': path, 'occ': occ, 'action': action, 'arg': arg}
        if veto is None or not veto(f):
            res.append(f)
    return res


def gen_policy(rng, threads=True):
    """Scheduling policy of one command (swarm: drawn per run)"""
    if not threads:
        return {'name': 'default'}
    k = rng.random()
    if k < 0.15:
        return {'name': 'default'}
    if k < 0.55:
        return {'name': 'random', 'p': rng.choice([0.03, 0.1, 0.3, 0.7])}
    if k < 0.75:
        return {'name': 'pct', 'points': sorted(rng.randrange(1, 4000) for _ in range(rng.choice([1, 2, 3, 6])))}
    if k < 0.85:
        return {'name': 'rr'}
    return {'name': 'starve', 'starve': rng.randrange(0, 12), 'p': rng.choice([0.05, 0.3])}


def gen_knobs(rng):
    """Tuning knobs and environment variations common to all worlds"""
    return {
        'bufsize': rng.choice([16, 64, 300, 8192]),
        'short_reads': rng.random() < 0.4,
        'p_chunked': rng.choice([0.0, 0.3, 1.0]),
        'p_gzip': rng.choice([0.0, 0.0, 0.5]),
        'dir_seed': rng.randrange(1 << 30),
        'tick': rng.choice([0.00001, 0.001, 0.05]),
        'latency': rng.choice([0.0001, 0.02, 0.4]),
        'wall': 1_600_000_000 + rng.randrange(150_000_000) + rng.random(),
        'tz': rng.choice(['UTC0', 'UTC0', 'EST5EDT,M3.2.0,M11.1.0', 'IST-5:30', 'NZST-12NZDT,M9.5.0,M4.1.0/3', 'CET-1CEST,M3.5.0,M10.5.0/3']),
        'tty': rng.random() < 0.2,
        'same_pid': rng.random() < 0.2,
    }


def read_bytes(path):
    with open(path, 'rb') as f:
        return f.read()


def walk_files(base):
    """All non-directory entries below base: {relpath: fullpath}; symlinked directories are not followed"""
    res = {}
    for d, dirs, files in os.walk(base):
        for n in files:
            p = os.path.join(d, n)
            res[os.path.relpath(p, base)] = p
        for n in dirs:
            p = os.path.join(d, n)
            if os.path.islink(p):
                res[os.path.relpath(p, base)] = p
    return res
