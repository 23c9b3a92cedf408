"""World of WAD archives: extraction by the command line tool, with damaged archives and faults"""
import fnmatch
import os

from . import wadfmt
from .base import World, gen_knobs, looks_temporary, read_bytes, rng_for, walk_files

import cdtb.__main__ as cli

NAME_MAX = 255


class WadsWorld(World):
    name = 'wads'

    def setup(self):
        p = self.params
        rng = rng_for('wad', self.seed, p.get('content', 0))
        self.wads = {}
        home = self.path('home', 'hashes')
        os.makedirs(home, exist_ok=True)
        lists = {'lcu': [], 'game': [], 'custom': []}
        for i in range(p.get('nwads', 1)):
            name, entries, data = self.make_wad(rng, i)
            self.wads[i] = {'name': name, 'entries': entries, 'data': data, 'damage': None}
            with open(self.path(name), 'wb') as f:
                f.write(data)
            which = 'game' if name.endswith('.client') else 'lcu'
            known = [e.path for e in entries if e.known]
            lists[which] += known
            lists['custom'] += known
        for n in ('lcu', 'game'):
            with open(os.path.join(home, f'hashes.{n}.txt'), 'w') as f:
                f.write(wadfmt.hash_list(lists[n] if not p.get('custom_hashes') else ['other/file.txt']))
        with open(self.path('custom.txt'), 'w') as f:
            f.write(wadfmt.hash_list(lists['custom']))
        self.disk = {}      # output -> {relpath: content set by an earlier command or put there}
        self.maybe = {}     # output -> {relpath: set of contents that may be there}
        self.complete = {}

    def make_wad(self, rng, i):
        p = self.params
        version = tuple(p['version'])
        entries = []
        used = set()

        def add(path, kind, **kw):
            if path in used or any(u.startswith(path + '/') or path.startswith(u + '/') for u in used):
                return
            used.add(path)
            if kind == 4:
                parts = [wadfmt.make_data(rng)[0] for _ in range(rng.choice([1, 2, 3, 5]))]
                first, ext = wadfmt.make_data(rng, rng.choice([3, 40, 900]))
                parts[0] = first
                if ext == 'json':
                    ext = 'json' if len(parts) == 1 else None
                data = b''.join(parts)
                if ext is None:
                    data, parts[0] = b'\xfe\xfd\xfc\xfb' + data, b'\xfe\xfd\xfc\xfb' + parts[0]
                chunks = [(d, rng.random() < 0.7) for d in parts]
                entries.append(wadfmt.Entry(path, data, 4, ext=ext, chunks=chunks, **kw))
            elif kind == 2:
                e = wadfmt.Entry(path, b'', 2, **kw)
                e.target = rng.choice(['other/file.bin', 'x', ''])
                entries.append(e)
            else:
                data, ext = wadfmt.make_data(rng)
                entries.append(wadfmt.Entry(path, data, kind, ext=ext, checksum=rng.random() < 0.7, **kw))
        kinds = {1: [0, 1], 2: [0, 1, 3, 2]}.get(version[0], [0, 0, 1, 3, 3, 4, 4, 2])
        for _ in range(rng.randrange(1, 1 + p.get('nfiles', 6))):
            d = '/'.join(rng.choice(['assets', 'data', 'plugins', 'skins', 'a b', 'x.y', 'é']) for _ in range(rng.randrange(0, 3)))
            base = f"{rng.choice(['f', 'skin', 'x_', '.h'])}{rng.randrange(100)}"
            k = rng.random()
            if k < 0.08:
                base += 'n' * rng.choice([230, 245, 260])
            base += rng.choice(['.png', '.dds', '.bin', '.json', '.tar.gz', '', '.x'])
            if 0.08 < k < 0.1:
                d += '/' + 'd' * 300
            path = (d + '/' if d else '') + base
            if p.get('ascii'):
                path = path.replace('é', 'e')
            add(path.lstrip('/'), rng.choice(kinds), known=rng.random() < 0.7)
        filler = 0
        if any(e.kind == 4 for e in entries) and rng.random() < 0.85:
            if version[0] == 3 and version[1] >= 4 and rng.random() < 0.12:
                filler = rng.choice([65530, 65534, 65536, 70000])
            entries.insert(rng.randrange(len(entries) + 1),
                           wadfmt.Entry(f'data/w{i}.wad.subchunktoc', b'', rng.choice([0, 3]), known=rng.random() < 0.85))
        name = f"{'xy'[i]}w" + rng.choice(['.wad', '.wad.client'])
        return name, entries, wadfmt.encode(entries, version, rng, filler, gap=rng.random() < 0.3)

    # -- operations

    def op_damage(self, op):
        """Cut or alter the archive (only alterations the format allows to detect)"""
        w = self.wads[op['wad']]
        data = w['data']
        rng = rng_for('damage', self.seed, op.get('salt', 0))
        w['bad'] = set()
        if op['how'] == 'restore':
            w['damage'] = None
        elif op['how'] == 'cut':
            start = min(e.offset for e in w['entries'])
            n = rng.randrange(start, len(data)) if len(data) > start else len(data)
            # cut at places of interest, too: in the middle or at the edges of an entry
            if rng.random() < 0.5:
                e = rng.choice(w['entries'])
                n = e.offset + rng.choice([0, e.size_stored // 2, max(0, e.size_stored - 1)])
            n = max(n, start)
            data = data[:n]
            w['damage'] = f"cut at {n}"
            w['bad'] = {e.hash for e in w['entries'] if e.offset + e.size_stored > n and e.size_stored}
        else:
            cand = [e for e in w['entries'] if e.size_stored and (e.kind == 1 or e.kind == 3 and e.checksum or e.kind == 4 and self.toc_known(w))]
            cand = [e for e in cand if e.kind == 4 or len(e.data) > 8]
            if cand:
                e = rng.choice(cand)
                # not in the optional fields of the gzip header
                lo = 10 if e.kind == 1 else (9 if e.kind == 3 else 0)
                if e.size_stored - lo > 8:
                    k = e.offset + rng.randrange(lo, e.size_stored - (0 if e.kind == 4 else 5))
                    b = bytearray(data)
                    b[k] ^= 1 << rng.randrange(8)
                    data = bytes(b)
                    w['damage'] = f"byte {k} of entry {e.path}"
                    w['bad'] = {e.hash}
        with open(self.path(w['name']), 'wb') as f:
            f.write(data)

    @staticmethod
    def toc_entry(w):
        return next((e for e in w['entries'] if e.path.endswith('.subchunktoc')), None)

    def toc_known(self, w):
        toc = self.toc_entry(w)
        return toc is not None and toc.known

    def op_put(self, op):
        """Files left in the output by something else"""
        w = self.wads[op['wad']]
        out = self.out(op)
        rng = rng_for('put', self.seed, op.get('salt', 0))
        for e in w['entries']:
            if e.kind == 2 or rng.random() < 0.6 or len(e.final_path().split('/')[0]) > NAME_MAX:
                continue
            self.put(out, e.final_path(), rng.choice([b'old content', e.data + b'x', b'']))
        self.put(out, 'foreign/file.txt', b'foreign')

    def put(self, out, rel, content):
        if any(len(x) > NAME_MAX for x in rel.split('/')):
            return
        p = self.path(out, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(content)
        os.utime(p, (1_000_000_000, 1_000_000_000))
        self.disk.setdefault(out, {})[rel] = content

    def argv(self, c):
        w = self.wads[c['wad']]
        argv = ['wad-extract']
        if c.get('out'):
            argv += ['-o', c['out']]
        if self.params.get('custom_hashes'):
            argv += ['-H', 'custom.txt']
        for pat in c.get('patterns', ()):
            argv += ['-p', pat]
        if c.get('unknown'):
            argv += ['-u', c['unknown']]
        if c.get('lazy'):
            argv.append('--lazy')
        return argv + [w['name']]

    def out(self, c):
        if c.get('out'):
            return c['out']
        # default output directory
        return os.path.splitext(self.wads[c['wad']]['name'])[0]

    def selected(self, c):
        w = self.wads[c['wad']]
        for e in w['entries']:
            u = c.get('unknown') or 'yes'
            if u == 'only' and e.known or u == 'no' and not e.known:
                continue
            if c.get('patterns') and not (e.known and any(fnmatch.fnmatchcase(e.path, p) for p in c['patterns'])):
                continue
            yield e

    def op_cmd(self, op):
        if op['cmd'] == 'wad-list':
            return self.cmd_list(op)
        w = self.wads[op['wad']]
        out = self.out(op)
        before = self.tree(out)
        stat_before = self.stats_of(out, before)
        r = self.run([lambda: cli.main(self.argv(op))], op=op)
        self.recorded.append(r)
        self.say(f"op {self.op_index} {' '.join(self.argv(op))} [{w['damage'] or 'intact'}] -> {r.describe()} fired={r.fired}")
        status = r.status()
        props = ['C13']
        if op.get('rerun'):
            props += ['C04']
        if op.get('lazy'):
            props += ['C12']
        if r.fired:
            props += ['C03']

        def violate(cls, msg):
            for prop in props:
                self.violation(prop, cls, msg)
        if status in ('deadlock', 'step-cap'):
            violate('hang', f"extraction does not end: {status}")
            return
        bad = w.get('bad') or set()
        toc = self.toc_entry(w)
        if toc is not None and toc.known and toc.hash in bad:
            bad = {e.hash for e in w['entries'] if e.kind == 4} | bad
        if status != 'ok' and not r.fired and not bad:
            violate('fails-without-fault', f"extraction of an intact archive fails: {r.describe()} at {r.groups[0].get('tb')}")
            return
        after = self.tree(out)
        # whatever the ending: every entry has its old content, its exact content, or is absent
        errors = []
        sel = {}
        for e in self.selected(op):
            if e.kind == 2:
                continue
            names = {e.final_path()}
            if e.hash in bad and e.ext:
                # the extension of unreadable data is not known
                ext, e.ext = e.ext, None
                names.add(e.final_path())
                e.ext = ext
            for n in names:
                sel[n] = e
        for n, e in sel.items():
            if n in after and after[n] != e.data and after[n] != before.get(n):
                errors.append(f"{n}: {self.what(after[n], e.data)}")
        if errors:
            violate('corrupt-entry', f"after {status} (fired {r.fired}, archive {w['damage'] or 'intact'}): {errors[:3]}")
            return
        if status == 'ok':
            for n, e in sel.items():
                if any(len(x.encode()) > NAME_MAX for x in n.split('/')):
                    continue        # documented: such files are ignored
                if e.hash in bad:
                    continue
                if e.kind == 4 and not self.toc_known(w):
                    # without table, only entirely compressed entries can be read
                    if not all(comp for _, comp in self.stored_compressed(e)):
                        continue
                if op.get('lazy') and n in before:
                    if after.get(n) != before[n] or self.stats_of(out, [n])[n] != stat_before[n]:
                        violate('lazy-rewrites', f"{n} existed and was modified by a lazy extraction")
                        return
                    continue
                if n not in after:
                    violate('missing-entry', f"success but {n} is missing (fired {r.fired})")
                    return
                if after[n] != e.data:
                    violate('stale-entry', f"success but {n}: {self.what(after[n], e.data)} (fired {r.fired})")
                    return
        if not r.fired:
            extra = sorted(n for n in after if n not in sel and n not in before)
            if extra:
                violate('extra-file', f"files that are no selected entry of the archive: {extra[:3]}")
                return
            lost = sorted(n for n in before if n not in after and n not in sel and not self.is_tmp(n))
            changed = sorted(n for n in before if n not in sel and n in after and after[n] != before[n])
            if lost or changed:
                violate('foreign-file', f"files which are not entries: lost {lost[:3]}, changed {changed[:3]}")

    @staticmethod
    def stored_compressed(e):
        for d, comp in e.chunks:
            c = wadfmt.zstd(d, e.checksum) if comp else d
            yield d, comp and len(c) != len(d)

    @staticmethod
    def is_tmp(n):
        return looks_temporary(n)

    @staticmethod
    def what(got, want):
        return f"{len(got)} bytes instead of {len(want)}" if len(got) != len(want) else f"other content ({len(got)} bytes)"

    def tree(self, out):
        return {n: read_bytes(p) for n, p in walk_files(self.path(out)).items()}

    def stats_of(self, out, names):
        res = {}
        for n in names:
            st = os.lstat(self.path(out, n))
            res[n] = (st.st_ino, st.st_mtime_ns)
        return res

    def cmd_list(self, op):
        w = self.wads[op['wad']]
        argv = ['wad-list'] + (['-H', 'custom.txt'] if self.params.get('custom_hashes') else []) + [w['name']]
        r = self.run([lambda: cli.main(argv)], op=op)
        self.recorded.append(r)
        if r.fired or w['damage']:
            return
        self.say(f"op {self.op_index} {' '.join(argv)} -> {r.describe()}")
        want = sorted(f"{e.hash:016x} {e.path if e.known else '?'}" for e in w['entries'])
        if not r.ok() or sorted(x for x in r.stdout().split('\n') if x) != want:
            self.violation('C13', 'wad-list', f"wad-list: {r.describe()}, {sorted(set(want) ^ set(r.stdout().splitlines()))[:4]}")


def gen(rng, prop):
    params = gen_knobs(rng)
    params['content'] = rng.randrange(1 << 30)
    params['version'] = rng.choice([[1, 0], [2, 0], [3, 0], [3, 1], [3, 3], [3, 4], [3, 4], [3, 4]])
    params['nfiles'] = rng.choice([1, 4, 8, 14])
    params['nwads'] = rng.choice([1, 1, 2])
    params['custom_hashes'] = rng.random() < 0.3
    params['bufsize'] = rng.choice([16, 64, 300, 8192])
    ops = []
    wad = rng.randrange(params['nwads'])
    outs = ['out', 'deep/er/out']
    outs.append(None)
    out = rng.choice(outs)

    def cmd(**kw):
        c = {'op': 'cmd', 'cmd': 'wad-extract', 'wad': wad, 'out': out, 'policy': {'name': 'default'}}
        c.update(sel)
        c.update(kw)
        return c
    sel = {}
    if rng.random() < 0.25:
        sel['patterns'] = rng.sample(['*.png', 'assets/*', '*skin*', '*.bin', 'data/[!x]*', '*'], rng.choice([1, 2]))
    if rng.random() < 0.3:
        sel['unknown'] = rng.choice(['yes', 'only', 'no'])
    if rng.random() < 0.35:
        ops.append({'op': 'put', 'wad': wad, 'out': out, 'salt': rng.randrange(1000)})
    lazy = rng.random() < (0.35 if prop != 'C12' else 0.6)
    damaged = rng.random() < 0.4
    if damaged:
        ops.append({'op': 'damage', 'wad': wad, 'how': rng.choice(['cut', 'flip', 'flip']), 'salt': rng.randrange(1000)})
    ops.append(cmd(target=True, **({'lazy': True} if lazy else {})))
    if damaged:
        ops.append({'op': 'damage', 'wad': wad, 'how': 'restore'})
    if rng.random() < 0.8 or prop != 'C13':
        ops.append(cmd(rerun=True, **({'lazy': True} if lazy or rng.random() < 0.4 else {})))
    if rng.random() < 0.2:
        ops.append({'op': 'cmd', 'cmd': 'wad-list', 'wad': wad})
    if params['nwads'] == 2 and rng.random() < 0.5:
        ops.append(cmd(wad=1 - wad, target=True))
    return {'world': 'wads', 'params': params, 'ops': ops}

