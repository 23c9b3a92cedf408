"""World of hash lists: updates from the server, local changes, readers, clocks that disagree"""
import datetime
import os

from .base import World, gen_knobs, gen_policy, looks_temporary, read_bytes, rng_for, walk_files

import cdtb.__main__ as cli
import cdtb.hashes as chashes

NAMES = ['hashes.binentries.txt', 'hashes.binfields.txt', 'hashes.binhashes.txt', 'hashes.bintypes.txt', 'hashes.game.txt',
         'hashes.lcu.txt', 'hashes.rst.txt', 'hashes.rst.xxh64.txt', 'hashes.rst.xxh3.txt']
BASE = 'https://raw.communitydragon.org/data/hashes/lol/'
HDIR = ('home', 'hashes')
WORDS = ['assets', 'data', 'characters', 'a b', 'é', 'x-y', 'plugins', 'skin01', 'c  d', ' e']


def http_date(t):
    return datetime.datetime.fromtimestamp(t, datetime.timezone.utc).strftime('%a, %d %b %Y %H:%M:%S GMT')


def encode_list(d, size):
    return ''.join(f"{h:0{size}x} {p}\n" for h, p in sorted(d.items(), key=lambda kv: (kv[1], kv[0]))).encode()


def decode_list(b):
    return {int(l.split(' ', 1)[0], 16): l.split(' ', 1)[1] for l in b.decode().split('\n') if l}


class HashesWorld(World):
    name = 'hashes'

    def setup(self):
        p = self.params
        self.skew = p.get('skew', 0.0)              # client clock minus server clock
        self.names = list(NAMES)
        self.versions = {n: [] for n in self.names}     # name -> [(server time, content)]
        self.salt = 0
        for n in self.names:
            self.new_version(n, self.server_now() - p.get('age', 1000))
        if p.get('dir'):
            os.makedirs(self.path(*HDIR))
        self.local = {}         # name -> 'update' or 'save': who wrote the current content
        self.mtime_ok = {}      # name -> installed by a command that could finish with that list
        self.local_time = {}    # name -> server times between which the user changed the list
        self.sane = {}          # name -> the clock of the client was right at that time

    def server_now(self):
        return self.wall - self.skew

    def new_version(self, name, t):
        rng = rng_for('list', self.seed, name, self.salt, self.params.get('content', 0))
        self.salt += 1
        size = 16 if 'game' in name or 'lcu' in name or 'rst' in name else 8
        d = {}
        for _ in range(rng.choice([0, 1, 3, 40, self.params.get('nlines', 60)])):
            d[rng.getrandbits(4 * size)] = '/'.join(rng.choice(WORDS) for _ in range(rng.choice([1, 2, 4]))) + f"{rng.randrange(1000)}.bin" + rng.choice(['', '', '', '', '', ' '])
        if self.versions[name]:
            # times of the server only move forward, with the resolution of HTTP dates
            t = max(t, self.versions[name][-1][0] + 1)
            if rng.random() < 0.3 and d:
                # same size as the previous version, other content
                b = bytearray(self.versions[name][-1][1])
                if len(b) > 4:
                    b[-3] = ord(rng.choice('abcdefgh'))
                    if bytes(b) not in [v[1] for v in self.versions[name]]:
                        self.versions[name].append((int(t), bytes(b)))
                        return
        while encode_list(d, size) in [v[1] for v in self.versions[name]]:
            d[rng.getrandbits(4 * size)] = 'other.bin'
        self.versions[name].append((int(t), encode_list(d, size)))

    # -- server

    def handler(self, change=None):
        """Server of one command; `change` = (number of the request before which a list changes, its name)"""
        state = {'n': 0, 'extra': {}}

        def handle(method, url, headers):
            state['n'] += 1
            if not url.startswith(BASE):
                return 404, {}, b''
            name = url[len(BASE):]
            if name not in self.versions:
                return 404, {}, b''
            if change and state['n'] > change['at'] and len(self.versions[change['name']]) > change['base']:
                v = self.versions[name][-1]
            elif change and name == change['name']:
                v = self.versions[name][change['base'] - 1]
            else:
                v = self.versions[name][-1]
            h = {'Last-Modified': http_date(v[0]), 'Content-Type': 'text/plain', 'X-Sim-Gzip-Ok': '1', 'Server': 'cloudflare',
                 'Date': http_date(self.server_now())}
            return 200, h, v[1]
        return handle

    # -- operations

    def op_publish(self, op):
        for n in op['names']:
            self.new_version(n, self.server_now())

    def op_wait(self, op):
        self.wall += op['s']
        self.mono += op['s']

    def op_skew(self, op):
        """The clock of the client is set"""
        self.wall += op['s'] - self.skew
        self.skew = op['s']

    def disk(self):
        return {n: read_bytes(p) for n, p in walk_files(self.path(*HDIR)).items()} if os.path.isdir(self.path(*HDIR)) else {}

    def main_for(self, c):
        if c['cmd'] == 'fetch-hashes':
            return lambda: cli.main(['fetch-hashes'])
        if c['cmd'] == 'update':
            return lambda: chashes.update_default_hashfile(c['name'])
        if c['cmd'] == 'load':
            def load():
                res = []
                for n in c['names']:
                    try:
                        res.append((n, dict(chashes.HashFile(chashes.default_hash_dir / n).load())))
                    except FileNotFoundError:
                        res.append((n, None))
                return res
            return load
        if c['cmd'] == 'save':
            def save():
                hf = chashes.HashFile(self.list_path(c['name']), c['size']) if c.get('size') else chashes.HashFile(self.list_path(c['name']))
                if c.get('fresh'):
                    hf.hashes = {}
                else:
                    hf.load()
                hf.hashes.update({int(h): s for h, s in c['add'].items()})
                for h in c.get('remove', ()):
                    if len(hf.hashes) > h:
                        del hf.hashes[sorted(hf.hashes)[h]]
                hf.save()
            return save
        raise AssertionError(c)

    @staticmethod
    def list_path(name):
        if '/' in name:
            return name
        return chashes.default_hash_dir / name

    def saved(self, c, before):
        """Content written by a 'save' command, None if it can't be saved"""
        old = before.get(c['name'])
        if c.get('fresh'):
            d = {}
        elif old is None:
            return None
        else:
            d = decode_list(old)
        d.update({int(h): s for h, s in c['add'].items()})
        for h in c.get('remove', ()):
            if len(d) > h:
                del d[sorted(d)[h]]
        return d

    def op_cmd(self, op):
        self.op_concurrent(dict(op, cmds=[op]))

    def op_concurrent(self, op):
        cmds = op['cmds']
        before = self.disk()
        self.had_dir = os.path.isdir(self.path(*HDIR))
        change = op.get('change')
        old_count = {n: len(v) for n, v in self.versions.items()}
        if change:
            change = dict(change, base=old_count[change['name']])
            self.new_version(change['name'], self.server_now() + 1)
        t0 = self.server_now()
        wall0, mono0 = self.wall, self.mono
        r = self.run([self.main_for(c) for c in cmds], op=op, server=self.handler(change))
        # the clock of the server doesn't jump with the one of the client
        self.skew += (self.wall - wall0) - (self.mono - mono0)
        self.recorded.append(r)
        self.say(f"op {self.op_index} {[c['cmd'] + ' ' + str(c.get('name', '')) for c in cmds]} skew={self.skew:.0f} change={change} -> {[r.describe(g) for g in range(len(cmds))]} fired={r.fired}")
        nreq = len([q for q in r.requests if q['status'] == 200])
        t1 = self.server_now()
        if change and nreq <= change['at']:
            # the change came after the command
            change = None
        after = self.disk()
        # contents each list may have now
        offered = {}
        for n in self.names:
            k = old_count[n] if not change else len(self.versions[n])
            offered[n] = [v[1] for v in self.versions[n][max(0, old_count[n] - 1):k]]
        updated = set()
        saves = {}
        for c in cmds:
            if c['cmd'] == 'fetch-hashes':
                updated |= set(self.names)
            elif c['cmd'] == 'update':
                updated.add(c['name'])
            elif c['cmd'] == 'save':
                saves.setdefault(c['name'], []).append(c)
        names = sorted(set(self.names) | set(before) | set(after))
        for n in names:
            if n not in before and self.is_tmp(n):
                continue
            allowed = [before.get(n)]
            if n in updated:
                allowed += offered[n]
            if n in after and after[n] in allowed or n not in after and None in allowed:
                continue
            # a saved list
            ok = False
            for base in [before.get(n)] + (offered[n] if n in updated else []):
                for c in saves.get(n, ()):
                    d = self.saved(c, {n: base} if base is not None else {})
                    if d is not None and n in after and self.same_list(after[n], d, c.get('size') or 16):
                        ok = True
            if len(saves.get(n, ())) > 1 and not ok:
                # one saved what the other did
                a, b = saves[n]
                for x, y in ((a, b), (b, a)):
                    d1 = self.saved(x, before)
                    d2 = self.saved(y, {n: encode_list(d1, 16)}) if d1 is not None else None
                    if d2 is not None and n in after and self.same_list(after[n], d2, y.get('size') or 16):
                        ok = True
            if not ok:
                got = after.get(n)
                what = 'is lost' if got is None else f"has {len(got)} bytes: neither the old list ({self.size(before.get(n))}) nor the new one ({[len(x) for x in offered.get(n, [])]})"
                self.violation('C14', 'lost-list', f"after {[r.describe(g) for g in range(len(cmds))]} (fired {r.fired}): {n} {what}")
                return
        for g, c in enumerate(cmds):
            self.after_command(op, c, g, r, before, after, offered, saves, updated, change, old_count)
        for n in after:
            if after[n] != before.get(n) or n in saves or any(c['cmd'] == 'fetch-hashes' and r.status(g) == 'ok' for g, c in enumerate(cmds)):
                if self.local.get(n) == 'save' and after[n] == before.get(n) and n not in saves:
                    continue        # the user's list, kept: it may be newer than the same list on the server
                if n in updated and after[n] in offered[n] and n not in saves:
                    self.local[n] = 'update'
                    done = any(r.status(g) in ('ok', 'error') for g, c in enumerate(cmds)) and 'killed' not in [r.status(g) for g in range(len(cmds))]
                    self.mtime_ok[n] = done
                elif after[n] != before.get(n) or n in saves:
                    self.local[n] = 'save'
                    self.local_time[n] = (t0, t1)
                    # a save that did not end well may not have replaced the list
                    undone = n in saves and after[n] == before.get(n) and any(c['cmd'] == 'save' and c['name'] == n and r.status(g) != 'ok' for g, c in enumerate(cmds))
                    self.sane[n] = abs(self.skew) < 0.5 and 'clock' not in r.fired and not undone

    @staticmethod
    def size(b):
        return 'none' if b is None else f"{len(b)} bytes"

    @staticmethod
    def is_tmp(n):
        return looks_temporary(os.path.basename(n))

    @staticmethod
    def same_list(b, d, size):
        """Content of a saved list: exact format, sorted by path"""
        try:
            if decode_list(b) != d:
                return False
        except (ValueError, UnicodeDecodeError, IndexError):
            return False
        lines = b.decode().split('\n')
        if lines.pop() != '':
            return False
        paths = [l.split(' ', 1)[1] for l in lines]
        return paths == sorted(paths) and len(lines) == len(d) and all(len(l.split(' ', 1)[0]) >= size and l[:1] != ' ' for l in lines) and b'\r' not in b

    def after_command(self, op, c, g, r, before, after, offered, saves, updated, change, old_count):
        status = r.status(g)
        alone = len(op['cmds']) == 1
        if status in ('deadlock', 'step-cap'):
            for prop in sorted({'C14', self.prop}):
                self.violation(prop, 'hang', f"{c['cmd']}: {status}")
            return
        if status not in ('ok', 'killed', 'interrupted') and not r.fired:
            if c['cmd'] == 'save' and before.get(c['name']) is None and not (c.get('fresh') and self.had_dir):
                return      # there is no list, or no directory
            for prop in (['C15'] if c['cmd'] in ('fetch-hashes', 'update') else ['C14']) + (['C04'] if op.get('rerun') or op.get('after_fault') else []):
                self.violation(prop, 'fails-without-fault', f"{c['cmd']} {c.get('name', '')} fails without any fault: {r.describe(g)} at {r.groups[g].get('tb')}")
            return
        if c['cmd'] == 'load' and status == 'ok':
            for n, d in r.value(g):
                allowed = [before.get(n)]
                if n in updated:
                    allowed += offered[n]
                dicts = [None if b is None else decode_list(b) for b in allowed]
                dicts += [self.saved(x, {n: b} if b is not None else {}) for x in saves.get(n, ()) for b in allowed]
                if d not in dicts:
                    self.violation('C14', 'partial-read', f"a process reading {n} meanwhile gets {'nothing' if d is None else len(d)} entries, instead of {[None if x is None else len(x) for x in dicts]}")
                    return
        if c['cmd'] == 'save' and status == 'ok' and alone:
            d = self.saved(c, before)
            if d is not None and not self.same_list(after.get(c['name'], b''), d, c.get('size') or 16):
                for prop in ['C14'] + (['C03'] if r.fired else []):
                    self.violation(prop, 'lost-list', f"{c['name']} is saved but has not the new content (fired {r.fired})")
                return
        if c['cmd'] in ('fetch-hashes', 'update') and status == 'ok':
            for n in (self.names if c['cmd'] == 'fetch-hashes' else [c['name']]):
                if n in saves:
                    continue
                if after.get(n) in offered[n]:
                    continue
                if self.local.get(n) == 'save':
                    # changed by the user: compared by time
                    if before.get(n) == after.get(n) and not self.versions[n][old_count[n] - 1][0] > self.local_time[n][1] + 1.5:
                        continue
                    if not self.sane.get(n):
                        continue
                for prop in ['C15'] + (['C03'] if r.fired else []) + (['C04'] if op.get('rerun') or op.get('after_fault') else []):
                    self.violation(prop, 'stale-list', f"{c['cmd']} succeeds but {n} is not the list offered by the server (client clock {self.skew:+.0f} s, fired {r.fired})")
                return
            # a list changed by the user after the version of the server was published is kept
            for n in (self.names if c['cmd'] == 'fetch-hashes' else [c['name']]):
                if self.local.get(n) == 'save' and n not in saves and n in before and after.get(n) != before[n] and self.sane.get(n) \
                        and self.versions[n][-1][0] < self.local_time[n][0] - 1.5:
                    self.violation('C15', 'local-changes', f"{n} was changed after the version of the server was published, but is overwritten")
                    return
        # lists that are current are not downloaded
        if c['cmd'] in ('fetch-hashes', 'update') and alone:
            for n in self.names:
                if self.local.get(n) == 'update' and self.mtime_ok.get(n) and before.get(n) == self.versions[n][-1][1] and not (op.get('change') and op['change']['name'] == n):
                    gets = [q for q in r.requests if q['url'] == BASE + n and q['method'] == 'GET']
                    if gets:
                        self.violation('C15', 'redownload', f"{n} is current but downloaded again (client clock {self.skew:+.0f} s)")
                        return


def gen(rng, prop):
    params = gen_knobs(rng)
    params['content'] = rng.randrange(1 << 30)
    params['skew'] = rng.choice([0.0, 0.0, 0.0, 5.0, 86400.0, -86400.0, -3.0, 400 * 86400.0, -4000.0])
    params['age'] = rng.choice([1, 1000, 86400])
    params['dir'] = rng.random() < 0.5
    params['nlines'] = rng.choice([5, 60, 400])
    ops = []

    def some():
        return rng.sample(NAMES, rng.choice([1, 1, 2, len(NAMES)]))

    def save_cmd():
        c = {'cmd': 'save', 'name': rng.choice(['hashes.lcu.txt', 'hashes.game.txt', 'hashes.game.txt', 'hashes.binentries.txt'])}
        c['size'] = 8 if 'bin' in c['name'] else rng.choice([None, 16])
        c['add'] = {str(rng.getrandbits(32)): f"new/{rng.choice(WORDS)}{rng.randrange(100)}.x{rng.choice(['', '', '', ' '])}" for _ in range(rng.choice([0, 1, 3, 50]))}
        if rng.random() < 0.2:
            c['fresh'] = True
        if rng.random() < 0.2:
            c['remove'] = [0]
        return c

    def fetch_cmd():
        if rng.random() < 0.25:
            return {'cmd': 'update', 'name': rng.choice(NAMES)} if params['dir'] else {'cmd': 'fetch-hashes'}
        return {'cmd': 'fetch-hashes'}

    for step in range(rng.choice([1, 2, 3, 4])):
        k = rng.random()
        if step and k < 0.75:
            ops.append({'op': 'wait', 's': rng.choice([0.5, 3.0, 3600.0, 86400.0])})
        if step and rng.random() < 0.6:
            ops.append({'op': 'publish', 'names': some()})
            if rng.random() < 0.6:
                ops.append({'op': 'wait', 's': rng.choice([0.5, 30.0])})
        if step and rng.random() < 0.3:
            ops.append({'op': 'skew', 's': rng.choice([0.0, 0.0, 7200.0, -7200.0, -30 * 86400.0])})
        k = rng.random()
        if k < (0.3 if prop == 'C14' else 0.15):
            ops.append(dict(save_cmd(), op='cmd', target=True, policy={'name': 'default'}))
        elif k < (0.45 if prop == 'C14' else 0.2):
            cmds = [fetch_cmd(), rng.choice([fetch_cmd(), {'cmd': 'load', 'names': some()}, {'cmd': 'load', 'names': some()}, save_cmd()])]
            if rng.random() < 0.3:
                cmds[0] = save_cmd()
            ops.append({'op': 'concurrent', 'cmds': cmds, 'target': True,
                        'policy': rng.choice([{'name': 'random', 'p': rng.choice([0.1, 0.3, 0.6])}, {'name': 'rr'},
                                              {'name': 'pct', 'points': sorted(rng.randrange(1, 400) for _ in range(rng.choice([2, 4])))}])})
        else:
            c = dict(fetch_cmd(), op='cmd', target=True, policy={'name': 'default'})
            if rng.random() < 0.2:
                c['change'] = {'at': rng.randrange(0, 14), 'name': rng.choice(NAMES)}
            ops.append(c)
            if rng.random() < 0.8:
                ops.append({'op': 'cmd', 'cmd': 'fetch-hashes', 'rerun': True, 'policy': {'name': 'default'}})
    return {'world': 'hashes', 'params': params, 'ops': ops}
