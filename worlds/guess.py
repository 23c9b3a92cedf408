"""World of hash guessing: interrupts at any instant of a long computation, then a list to save"""
import gc
import os
import re
import signal
import sys
import types

from sim import core
from . import cdn, rman, wadfmt
from .base import World, gen_knobs, read_bytes, rng_for, walk_files

import cdtb.__main__ as cli
import cdtb.hashes as chashes
import cdtb.tools as ctools
import cdtb.wad as cwad

TOOL = 3
PROGRESS = re.compile(r'^ +\d+\.\d%  ')
FOUND = re.compile(r'^([0-9a-f]{16}) (.*)$')
METHODS = ['grep', 'numbers', 'basenames', 'words', 'ext', 'regionlang', 'plugin', 'skin-num', 'character', 'prefixes']
LIMIT = 0.5         # seconds between the two interrupts of an abort


def code_objects(*modules):
    """All code objects of modules, including nested functions and generator expressions"""
    res = set()

    def walk(c):
        if c in res:
            return
        res.add(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                walk(k)

    def visit(o, mod):
        if isinstance(o, (staticmethod, classmethod)):
            o = o.__func__
        if isinstance(o, property):
            o = o.fget
        while hasattr(o, '__wrapped__'):
            o = o.__wrapped__
        if isinstance(o, types.FunctionType) and o.__module__ == mod:
            walk(o.__code__)
        elif isinstance(o, type) and o.__module__ == mod:
            for v in vars(o).values():
                visit(v, mod)
    for m in modules:
        for o in list(vars(m).values()):
            visit(o, m.__name__)
    return res


class Interrupter:
    """Delivers SIGINT at the points where the interpreter runs signal handlers

    These are (3.12) the start and resumption of a function, backward jumps, and the return
    of a call to native code.
    """

    def __init__(self, codes, at=(), collect=False, default=None):
        self.codes = codes
        self.at = {}        # position -> [(dt, jump)]
        for pos, dt, jump in at:
            self.at.setdefault(pos, []).append((dt, jump))
        self.n = 0
        self.busy = False
        self.collect = collect
        self.sites = {}         # (function, kind) -> positions
        self.edges = []         # positions where the interrupt handler changes
        self.handled = False
        self.delivered = []     # (position, handled?, monotonic time, function)
        self.default = default if default is not None else signal.default_int_handler
        self.hook = None
        self.handlers = []      # kept alive, so that they are distinct objects

    def hit(self, code, kind):
        if self.busy:
            return
        self.busy = True
        try:
            n = self.n
            self.n = n + 1
            if self.collect:
                l = self.sites.setdefault((code.co_name, kind), [])
                # keep a sample of the positions
                if len(l) < 200 or n % (len(l) // 100 + 1) == 0:
                    l.append(n)
                h = signal.getsignal(signal.SIGINT) is not self.default
                if h != self.handled:
                    self.handled = h
                    self.edges.append(n)
            todo = self.at.get(n)
            if todo:
                for dt, jump in todo:
                    self.deliver(n, dt, jump, code)
        finally:
            self.busy = False

    def deliver(self, n, dt, jump, code):
        sim = core.CURRENT
        last = self.delivered[-1][2] if self.delivered else None
        if last is not None:
            sim.now = max(sim.now, last + dt)
        else:
            sim.now += dt
        sim.wall_off += jump
        h = signal.getsignal(signal.SIGINT)
        handled = h is not self.default
        if not any(h is x for x in self.handlers):
            self.handlers.append(h)
        self.delivered.append((n, handled, sim.now, code.co_name, next(i for i, x in enumerate(self.handlers) if x is h)))
        sim.note(f"interrupt at {n} {code.co_name}")
        sim.fired.append('interrupt' if handled else 'interrupt-unhandled')
        if jump:
            sim.fired.append('clock-jump')
        if self.hook:
            self.hook()
        signal.raise_signal(signal.SIGINT)

    def start(self):
        m = sys.monitoring
        m.use_tool_id(TOOL, 'cdtb-dst')
        e = m.events
        m.register_callback(TOOL, e.PY_START, lambda code, off: self.hit(code, 's'))
        m.register_callback(TOOL, e.PY_RESUME, lambda code, off: self.hit(code, 'r'))
        m.register_callback(TOOL, e.JUMP, lambda code, off, dest: self.hit(code, 'j') if dest < off else None)
        m.register_callback(TOOL, e.C_RETURN, lambda code, off, f, a: self.hit(code, 'c'))
        for c in self.codes:
            m.set_local_events(TOOL, c, e.PY_START | e.PY_RESUME | e.JUMP | e.CALL)

    def stop(self):
        m = sys.monitoring
        for c in self.codes:
            m.set_local_events(TOOL, c, 0)
        m.free_tool_id(TOOL)


CODES = code_objects(chashes, ctools, cli, cwad)


def interruptible(fn, intr, previous):
    """Run `fn` under an Interrupter, with `previous` as the interrupt handler; return what happened"""
    def main():
        signal.signal(signal.SIGINT, previous)
        intr.start()
        res = {'end': 'ok', 'error': None, 'value': None}
        try:
            try:
                res['value'] = fn()
            finally:
                intr.stop()
        except KeyboardInterrupt:
            res['end'] = 'interrupted'
        except SystemExit as e:
            res['end'] = 'ok' if e.code in (None, 0) else f"exit {e.code}"
        except Exception as e:
            res['end'] = 'error'
            res['error'] = f"{type(e).__name__}: {e}"[:300]
        gc.collect()
        res['restored'] = signal.getsignal(signal.SIGINT) is previous
        signal.signal(signal.SIGINT, signal.default_int_handler)
        res['n'] = intr.n
        res['sites'] = {k: v for k, v in intr.sites.items()}
        res['edges'] = intr.edges
        res['delivered'] = intr.delivered
        return res
    return main


def stops(delivered):
    """Whether the delivered interrupts must stop the computation, and whether they may

    Two interrupts in quick succession must stop an iteration; when each one arrives in another iteration, they may.
    """
    must = may = False
    last = {}
    for n, handled, t, where, h in delivered:
        if not handled:
            must = may = True
        if h in last and t - last[h] < LIMIT - 1e-6:
            must = True
        if last and t - max(last.values()) < LIMIT + 1e-6:
            may = True
        last[h] = t
    return must, must or may


class GuessWorld(World):
    name = 'guess'

    def setup(self):
        p = self.params
        rng = rng_for('guess', self.seed, p.get('content', 0))
        os.makedirs(self.path('home', 'hashes'), exist_ok=True)
        self.hashes_of = {}
        self.wads = []
        files = {'lcu': [], 'game': []}
        for kind in ('lcu', 'game'):
            known, unknown = self.paths(rng, kind)
            with open(self.list_path(kind), 'w') as f:
                f.write(wadfmt.hash_list(known))
            n = p.get(f'n{kind}', 1)
            groups = [[] for _ in range(n)]
            for path in known + unknown:
                for g in (groups[rng.randrange(n)],) if n else ():
                    data, ext = self.content(rng, kind, path, unknown)
                    g.append(wadfmt.Entry(path, data, rng.choice([0, 1, 3]), known=path in known, ext=ext))
            self.hashes_of[kind] = set()
            for i, g in enumerate(groups):
                if not g:
                    continue
                name = f"{kind}{i}.wad" + ('.client' if kind == 'game' else '')
                with open(self.path(name), 'wb') as f:
                    f.write(wadfmt.encode(g, tuple(p['version']), rng))
                self.wads.append(name)
                with open(self.path(name), 'rb') as f:
                    files[kind].append(rman.File(f"{'Plugins' if kind == 'lcu' else 'DATA'}/{name}", [rman.Chunk(f.read())]))
                self.hashes_of[kind] |= {e.hash for e in g}
        self.initial = self.lists()
        self.server = None
        if p.get('components'):
            # WADs of a patch, designated by its components
            c = cdn.Cdn(rng_for('guess-cdn', self.seed, p.get('content', 0)), {'no_wads': True, 'small': True, 'nfiles': 1,
                                                                             'extra_files': {'client': files['lcu'], 'game': files['game']}})
            c.publish('live', '14.1')
            self.server = c.handle
            self.run([lambda: cli.main(['download', '-s', 'cdn', 'patch='])], server=self.server, observer=True, record=False)
            for w in self.wads:
                os.remove(self.path(w))
            self.wads = p['components']
            for kind, elem in (('lcu', 'client'), ('game', 'game')):
                if not any(x.startswith((elem, 'patch')) for x in self.wads):
                    self.hashes_of[kind] = set()

    def list_path(self, kind):
        return self.path('home', 'hashes', f'hashes.{kind}.txt')

    def lists(self):
        return {k: read_bytes(self.list_path(k)) if os.path.exists(self.list_path(k)) else None for k in ('lcu', 'game')}

    def paths(self, rng, kind):
        known, unknown = [], []

        def add(path):
            (known if rng.random() < 0.5 else unknown).append(path)
        for _ in range(self.params.get('nfiles', 4)):
            k = rng.randrange(4)
            if kind == 'lcu':
                plugin = rng.choice(['rcp-fe-lol-loot', 'rcp-be-lol-game-data', 'rcp-fe-a'])
                base = f"plugins/{plugin}/{rng.choice(['global', 'euw', 'na'])}/{rng.choice(['default', 'fr_fr'])}"
                add(f"{base}/{rng.choice(['icon', 'a-b', 'v1/x_y'])}{rng.choice(['', '-1', '12', '345'])}.{rng.choice(['png', 'json', 'js'])}")
            elif k == 0:
                add(f"assets/characters/{rng.choice(['ann', 'bob', 'cy'])}/skins/{rng.choice(['base', 'skin1', 'skin02'])}/x{rng.choice(['', '_cm'])}.{rng.choice(['dds', 'skn'])}")
            elif k == 1:
                add(f"data/{rng.choice(['x', 'y'])}/{rng.choice(['', '2x_', '4x_'])}f{rng.randrange(4)}.{rng.choice(['bin', 'dds', 'lua'])}")
            else:
                add(f"assets/{rng.choice(['a', 'b'])}/{rng.choice(['one', 'two'])}_{rng.choice(['red', 'blue', '1', '22'])}.{rng.choice(['tex', 'dds', 'bin'])}")
        known = sorted(set(known))
        unknown = sorted(set(unknown) - set(known))
        if not known:
            known.append('data/known0.bin')
        return known, unknown

    def content(self, rng, kind, path, unknown):
        """Data of an entry, which may mention unknown paths"""
        if rng.random() < 0.5 and unknown:
            u = rng.choice(unknown)
            if kind == 'lcu':
                if 'game-data' in u:
                    u = '/lol-game-data/assets/' + u.split('/', 4)[-1]
                elif '/rcp-fe-' in u:
                    u = '/fe/' + u.split('rcp-fe-')[1].split('/')[0] + '/' + u.split('/', 4)[-1]
                return ('{"p": "%s", "q": "x.png"}' % u).encode(), 'json'
            u = u.replace('assets/', 'ASSETS/').replace('data/', 'DATA/').encode()
            if rng.random() < 0.5:
                return b'PROP' + len(u).to_bytes(2, 'little') + u, 'bin'
            return b'\x00\x01\x02\0\0' + u, None
        return wadfmt.make_data(rng, rng.choice([0, 5, 40]))

    # -- operations

    def argv(self, op):
        argv = ['hashes-guess']
        if op.get('methods') is not None:
            argv += ['-m', ','.join(op['methods'])]
        if op.get('dry'):
            argv.append('-n')
        if self.params.get('components'):
            argv += ['-s', 'cdn']
        return argv + self.wads

    def resolve(self, op, base):
        """Positions of the interrupts of a command, from what an undisturbed run does"""
        res = []
        n = max(1, base['n'])
        for s in op.get('signals', ()):
            mode, u, v = s['mode'], s['u'], s['v']
            if mode == 'site' and base['sites']:
                keys = sorted(base['sites'])
                l = base['sites'][keys[int(u * len(keys)) % len(keys)]]
                pos = l[int(v * len(l)) % len(l)]
            elif mode == 'edge' and base['edges']:
                pos = base['edges'][int(u * len(base['edges'])) % len(base['edges'])] + int(v * 9) - 4
            elif mode == 'after' and res:
                pos = res[-1][0] + int(v * 40 * u)
            elif mode == 'handled' and len(base['edges']) >= 2:
                # while candidates are tried
                e = base['edges']
                k = int(u * (len(e) // 2))
                a, b = e[2 * k], e[2 * k + 1] if 2 * k + 1 < len(e) else n
                pos = a + int(v * max(1, b - a))
            else:
                pos = int(u * n)
            res.append((max(0, pos), s['dt'], s.get('jump', 0.0)))
        return res

    def op_cmd(self, op):
        if op['cmd'] == 'iterate':
            return self.cmd_iterate(op)
        before = self.lists()
        argv = self.argv(op)
        # what an undisturbed run does
        fn = lambda: cli.main(argv)
        r0 = self.observe(interruptible(fn, Interrupter(CODES, collect=True), signal.default_int_handler), server=self.server, io_seed=f"{self.seed}-{self.op_index}")
        if r0.status() != 'ok':
            self.violation('C16', 'fails-without-fault', f"{' '.join(argv)}: {r0.describe()} without any fault")
            return
        b = r0.value()
        if b['end'] != 'ok':
            self.violation('C16', 'fails-without-fault', f"{' '.join(argv)}: {b['end']} {b['error']} without any fault")
            return
        full = self.lists()
        if not b['restored']:
            self.violation('C16', 'handler', f"{' '.join(argv)}: the interrupt handler is not restored")
            return
        found0 = self.found(r0)
        for kind in full:
            err = self.check_result(kind, before[kind], full[kind], found0, op)
            if err:
                self.violation('C16', 'result', f"{' '.join(argv)}: {err}")
                return
        for kind in before:
            if before[kind] is None:
                if os.path.exists(self.list_path(kind)):
                    os.remove(self.list_path(kind))
            else:
                with open(self.list_path(kind), 'wb') as f:
                    f.write(before[kind])
        at = self.resolve(op, b)
        r = self.run([interruptible(fn, Interrupter(CODES, at), signal.default_int_handler)], op=op, server=self.server)
        self.recorded.append(r)
        after = self.lists()
        status = r.status()
        v = r.value() if status == 'ok' else None
        end = v['end'] if v else status
        delivered = v['delivered'] if v else []
        self.say(f"op {self.op_index} {' '.join(argv)} tty={self.params.get('tty')} {b['n']} points, interrupts {[(d[0], d[1], round(d[2], 2), d[3]) for d in delivered]} -> {end} {v and v['error'] or ''} fired={r.fired}")
        if status in ('deadlock', 'step-cap'):
            self.violation('C16', 'hang', f"{status}")
            return
        for kind in after:
            if after[kind] not in (before[kind], full[kind]):
                for prop in ('C14', 'C16'):
                    self.violation(prop, 'lost-list', f"{kind} list after {end}: {self.size(after[kind])}, neither the old one ({self.size(before[kind])}) nor the new one ({self.size(full[kind])}); fired {r.fired}, interrupts {delivered}")
                return
        if v is None:
            return      # killed
        if not v['restored']:
            self.violation('C16', 'handler', f"the interrupt handler is not restored after {end} (interrupts {delivered})")
            return
        faults = [f for f in r.fired if f not in ('interrupt', 'interrupt-unhandled', 'clock-jump')]
        must, may = stops(delivered)
        if end == 'interrupted':
            if not may and 'sigint' not in faults:
                self.violation('C16', 'aborted', f"guessing is stopped by interrupts that only display progress: {self.gaps(delivered)}")
                return
        elif end == 'ok':
            if must:
                self.violation('C16', 'not-stopped', f"guessing goes on after interrupts that stop it: {self.gaps(delivered)}")
                return
            if not op.get('dry') and any(after[k] != full[k] for k in after):
                for prop in ('C14', 'C16') if faults else ('C16',):
                    self.violation(prop, 'lost-result', f"guessing succeeds with another result than without interrupts {self.gaps(delivered)} (fired {faults})")
                return
            if self.found(r) != found0:
                self.violation('C16', 'lost-result', f"guessing finds {len(self.found(r))} paths instead of {len(found0)} after interrupts {self.gaps(delivered)}")
                return
        elif not faults:
            self.violation('C16', 'fails-without-fault', f"guessing fails: {end} {v['error']} (interrupts {self.gaps(delivered)})")
            return
        lines = [x for x in r.stdout().split('\n') if PROGRESS.match(x)]
        if len(lines) > len([d for d in delivered if d[1]]) + len([f for f in faults if f == 'sigint']):
            self.violation('C16', 'progress', f"{len(lines)} progress lines for {len(delivered)} interrupts")

    @staticmethod
    def gaps(delivered):
        res = []
        last = None
        for n, handled, t, where, h in delivered:
            res.append(f"{'progress' if handled else 'default'} in {where}" + (f" after {t - last:.2f} s" if last is not None else ''))
            last = t
        return res

    @staticmethod
    def size(b):
        return 'none' if b is None else f"{len(b)} bytes"

    @staticmethod
    def found(r):
        return sorted(m.group(0) for m in map(FOUND.match, r.stdout().split('\n')) if m)

    def check_result(self, kind, old, new, found, op):
        def parse(b):
            return {int(l[:16], 16): l[17:] for l in b.decode().split('\n') if l}
        o, n = parse(old), parse(new)
        if op.get('dry'):
            return None if old == new else f"the {kind} list is modified by a dry run"
        for h, p in o.items():
            if n.get(h) != p:
                return f"{p} is lost from the {kind} list"
        for h, p in n.items():
            if h in o:
                continue
            if wadfmt.path_hash(p) != h or h not in self.hashes_of[kind]:
                return f"{p} is added to the {kind} list but is not the path of an entry"
            if f"{h:016x} {p}" not in found:
                return f"{p} is added to the {kind} list but not displayed"
        if old != new and [l[17:] for l in new.decode().split('\n')[:-1]] != sorted(n.values()):
            return f"the {kind} list is not sorted"
        allkeys = set(o) | set(n)
        for x in found:
            h = int(x[:16], 16)
            if h in self.hashes_of[kind] and h not in allkeys and not any(h in self.hashes_of[k] for k in self.hashes_of if k != kind):
                return f"{x} is displayed but not added to the {kind} list"
        return None

    def cmd_iterate(self, op):
        """progress_iterator() alone: what its body observes"""
        items = op['n']
        stop_at, fail_at, inner = op.get('break_at'), op.get('fail_at'), op.get('inner', 0)
        seqs = {'list': list, 'range': lambda r: r, 'dict': lambda r: {i: str(i) for i in r}.items(), 'str': lambda r: 'x' * len(r)}
        state = {'k': 0, 'log': [], 'inner': []}

        def body(k):
            # a few points at which signals are handled
            for i in range(3):
                abs(i)
            if inner and k == inner:
                handler = signal.getsignal(signal.SIGINT)
                for w in chashes.progress_iterator(list(range(3))):
                    abs(w)
                state['inner'].append(signal.getsignal(signal.SIGINT) is handler)
            if fail_at == k:
                raise LookupError('body')

        fmt = {None: None, 'str': lambda v: f"<{v}>", 'bad': lambda v: v.nothing}[op.get('fmt')]

        def main():
            state['k'] = 0
            seq = seqs[op['seq']](range(items))
            seen = []
            for v in chashes.progress_iterator(seq, fmt) if fmt else chashes.progress_iterator(seq):
                state['k'] += 1
                seen.append(v if not isinstance(v, tuple) else v[0])
                body(state['k'])
                if stop_at == state['k']:
                    break
            return {'seen': seen, 'inner': state['inner']}
        codes = CODES | {main.__code__, body.__code__}
        prev = self.previous if op.get('custom') else signal.default_int_handler
        r0 = self.observe(interruptible(main, Interrupter(codes, collect=True, default=prev), prev))
        b = r0.value()
        at = self.resolve(op, b)
        intr = Interrupter(codes, at, default=prev)
        marks = []
        intr.hook = lambda: marks.append(state['k'])
        m = interruptible(main, intr, prev)
        r = self.run([lambda: dict(m(), k=state['k'], marks=list(marks), inner=list(state['inner']))], op=op)
        self.recorded.append(r)
        v = r.value()
        delivered = v['delivered']
        self.say(f"op {self.op_index} iterate {({k: x for k, x in op.items() if k not in ('signals', 'op', 'cmd', 'policy')})} {b['n']} points, interrupts {[(d[0], d[1], round(d[2], 2), d[3]) for d in delivered]} -> {v['end']} {v['error'] or ''}")
        if not b['restored'] or not v['restored']:
            self.violation('C16', 'handler', f"the interrupt handler is not restored after {v['end'] if b['restored'] else b['end']} ({self.gaps(delivered)})")
            return
        if not all(v['inner']):
            self.violation('C16', 'handler', "an inner iteration doesn't restore the handler of the outer one")
            return
        must, may = stops(delivered)
        lines = [x for x in r.stdout().split('\n') if PROGRESS.match(x)]
        expected_end = 'error' if fail_at and fail_at <= items and not (stop_at and stop_at < fail_at) else 'ok'
        if op.get('custom') and any(not d[1] for d in delivered):
            # the previous handler ignores interrupts
            delivered = [d for d in delivered if d[1]]
            must, may = stops(delivered)
        if v['end'] == 'interrupted':
            if not may:
                self.violation('C16', 'aborted', f"iteration is stopped by interrupts that only display progress: {self.gaps(delivered)}")
            return
        if must:
            self.violation('C16', 'not-stopped', f"iteration goes on after interrupts that stop it: {self.gaps(delivered)}")
            return
        if op.get('fmt') == 'bad':
            return
        if v['end'] != expected_end:
            self.violation('C16', 'fails-without-fault', f"iteration ends with {v['end']} {v['error']}, expected {expected_end} ({self.gaps(delivered)})")
            return
        if v['end'] == 'ok' and v['value']['seen'] != b['value']['seen']:
            self.violation('C16', 'lost-result', f"iteration yields {v['value']['seen']} instead of {b['value']['seen']}")
            return
        total = v['k']
        due = [k for k, d in zip(v['marks'], v['delivered']) if d[1] and k + 2 <= total]
        if due and not lines and not inner:
            self.violation('C16', 'progress', f"nothing is displayed after an interrupt at item {due[0]} of {total}")
            return
        if len(lines) > len(delivered):
            self.violation('C16', 'progress', f"{len(lines)} progress lines for {len(delivered)} interrupts")

    @staticmethod
    def previous(signum, frame):
        """Interrupt handler of an embedding application"""


def gen_signals(rng, prop):
    n = rng.choice([0, 1, 1, 2, 2, 2, 3, 5]) if prop == 'C16' else rng.choice([0, 0, 1, 2])
    res = []
    for i in range(n):
        s = {'mode': rng.choice(['uniform', 'site', 'site', 'edge', 'handled', 'handled', 'handled']), 'u': round(rng.random(), 4), 'v': round(rng.random(), 4),
             'dt': rng.choice([0.001, 0.1, 0.4, 0.6, 0.6, 3.0, 3.0, 300.0])}
        if i and rng.random() < 0.4:
            s['mode'] = 'after'
        if rng.random() < 0.25:
            s['jump'] = rng.choice([-3600.0, -2.0, -290.0, 3600.0, 2.0])
        res.append(s)
    return res


def gen(rng, prop):
    params = gen_knobs(rng)
    params['content'] = rng.randrange(1 << 30)
    params['version'] = rng.choice([[1, 0], [2, 0], [3, 1], [3, 4]])
    params['nfiles'] = rng.choice([3, 6, 12])
    params['nlcu'] = rng.choice([0, 1, 1, 2])
    params['ngame'] = rng.choice([0, 1, 1]) if params['nlcu'] else 1
    params['tty'] = rng.random() < 0.85
    params['short_reads'] = False
    if rng.random() < 0.15:
        params['components'] = rng.choice([['patch='], ['patch=14.1'], ['client='], ['game='], ['game=', 'client='], ['client=14.1']])
    ops = []
    for _ in range(rng.choice([1, 1, 2])):
        if prop == 'C16' and rng.random() < 0.4:
            op = {'op': 'cmd', 'cmd': 'iterate', 'n': rng.choice([0, 1, 2, 3, 10, 30]), 'seq': rng.choice(['list', 'list', 'range', 'dict', 'str']),
                  'fmt': rng.choice([None, None, 'str', 'bad']), 'custom': rng.random() < 0.3}
            if rng.random() < 0.25:
                op['break_at'] = rng.randrange(1, 12)
            if rng.random() < 0.25:
                op['fail_at'] = rng.randrange(1, 12)
            if rng.random() < 0.15:
                op['inner'] = rng.randrange(1, 4)
        else:
            ms = rng.sample(METHODS, rng.choice([1, 2, 3, 5]))
            if 'numbers' in ms and rng.random() < 0.6:
                ms.remove('numbers')
            op = {'op': 'cmd', 'cmd': 'guess', 'methods': ms or ['ext'], 'dry': rng.random() < 0.1}
            if rng.random() < 0.08:
                op['methods'] = None
            op['target'] = True
        op['signals'] = gen_signals(rng, prop)
        op['policy'] = {'name': 'default'}
        ops.append(op)
    return {'world': 'guess', 'params': params, 'ops': ops}
