"""World of the patcher storage: one storage directory, Riot's servers, any number
of commands run one after the other or at the same time, with faults"""
import itertools
import json
import os
import random
import shutil

from sim import proc
from . import cdn
from .base import World, rng_for, gen_policy, gen_knobs, place_faults, walk_files, read_bytes

import cdtb.__main__ as cli
from cdtb.storage import Storage


def lang_args(langs):
    if langs is True:
        return []
    if langs is False:
        return ['--no-lang']
    return ['--lang'] + ([langs] if isinstance(langs, str) else list(langs))


class PatcherWorld(World):
    name = 'patcher'
    STORE = 'cdn'
    CONFIG_URL = 'http://mirror.example/clientconfig.json'

    def setup(self):
        p = self.params
        self.cdn = cdn.Cdn(rng_for('content', self.seed, p.get('content', 0)), p.get('cdn', {}))
        self.hist = {'live': [], 'pbe': []}     # [release, certain]
        self.extracted = {}                     # (pl) -> last successful (release, langs)
        self.faulted = False
        os.environ.pop('CDTB_STORAGE', None)
        if p.get('arg_style') == 4:
            os.environ['CDTB_STORAGE'] = self.STORE
        if p.get('clientconfig'):
            self.cdn.config_url = self.CONFIG_URL
        if p.get('arg_style') == 5:
            os.makedirs(self.path(self.STORE))
            with open(self.path(self.STORE, 'cdtb.storage.conf'), 'w') as f:
                json.dump(dict(self.conf(None), path='.'), f)
        elif p.get('arg_style') == 6:
            os.makedirs(self.path('conf'))
            for pl in ('live', 'pbe'):
                with open(self.path('conf', f'{pl}.json'), 'w') as f:
                    json.dump(dict(self.conf(pl), path='../' + self.STORE), f)

    # -- operations

    def op_publish(self, op):
        self.cdn.publish(op['pl'], op['version'], tuple(op.get('change', ('client', 'game'))), op.get('again'))
        if self.params.get('clientconfig') == 'file':
            with open(self.path('clientconfig.json'), 'w') as f:
                json.dump(self.cdn.client_config(), f)

    def op_prune(self, op):
        """Bundles are removed to save space, once files are extracted"""
        shutil.rmtree(self.path(self.STORE, 'channels', 'public', 'bundles'), ignore_errors=True)

    def op_wait(self, op):
        self.mono += op['s']
        self.wall += op['s']

    def op_clock(self, op):
        # 'to': a machine without battery boots in 1970, or gets the right time again
        self.wall = float(op['to']) if 'to' in op else max(0.0, self.wall + op['s'])

    def conf(self, pl):
        """Storage configuration with the options of this world"""
        conf = {'type': 'patcher', 'path': self.STORE}
        if pl is not None:
            conf['patchline'] = pl
        if self.params.get('no_symlinks'):
            conf['use_extract_symlinks'] = False
        if self.params.get('clientconfig'):
            conf['clientconfig_data'] = {'file': 'clientconfig.json', 'url': self.CONFIG_URL}[self.params['clientconfig']]
        return conf

    def storage_args(self, pl):
        return {
            0: ['-s', self.STORE, '--patchline', pl],
            1: ['-s', 'patcher:' + self.STORE, '--patchline', pl],
            2: ['-s', self.path(self.STORE), '--patchline', pl],
            3: ['--patchline', pl],         # default directory
            4: ['--patchline', pl],         # $CDTB_STORAGE
            5: ['-s', self.STORE, '--patchline', pl],
            6: ['-s', f'conf/{pl}.json'],
        }[self.params.get('arg_style', 0)]

    def storage(self, pl):
        return Storage.from_conf(self.conf(pl))

    def main_for(self, c):
        """Main function of a simulated process"""
        kind = c['cmd']
        pl = c['pl']
        if kind == 'download':
            langs = c.get('langs', True)
            if c.get('api'):
                def main():
                    st = self.storage(pl)
                    patch = st.patch(c.get('version'))
                    if patch is None:
                        raise SystemExit(2)
                    patch.download(langs=langs)
                return main
            argv = ['download'] + self.storage_args(pl) + [f"{c.get('comp', 'patch')}={c.get('version') or ''}"] + lang_args(langs)
        elif kind == 'versions':
            argv = ['versions'] + self.storage_args(pl) + (['-a'] if c.get('all') else []) + [c.get('type', 'patch')]
        elif kind == 'files':
            argv = ['files'] + self.storage_args(pl) + (['-r'] if c.get('relative') else []) + [f"{c.get('comp', 'patch')}={c.get('version') or ''}"] + lang_args(c.get('langs', True))
        else:
            raise AssertionError(kind)
        return lambda: cli.main(argv)

    def op_cmd(self, op):
        self.op_concurrent(dict(op, cmds=[op]))

    def op_concurrent(self, op):
        cmds = op['cmds']
        before = self.mirror_state()
        ext_before = self.extracted_state()
        r = self.run([self.main_for(c) for c in cmds], op=op, server=self.cdn.handle)
        self.recorded.append(r)
        faults_fired = bool(r.fired)
        self.say(f"op {self.op_index} {[c['cmd'] + ' ' + c['pl'] for c in cmds]} -> {[r.describe(g) for g in range(len(cmds))]} fired={r.fired}")
        for g, c in enumerate(cmds):
            self.after_command(op, c, g, r, faults_fired, before, ext_before, alone=len(cmds) == 1)
        self.check_durable_state(op, r)
        if self.params.get('list_each'):
            for c in cmds:
                self.check_listing(c['pl'])

    # -- expectations

    def after_command(self, op, c, g, r, faults_fired, before, ext_before, alone):
        pl = c['pl']
        status = r.status(g)
        fetches = c['cmd'] == 'download' and not (c.get('comp', 'patch') != 'patch' and c.get('version')) or c['cmd'] == 'versions' and c.get('all') or c['cmd'] == 'files'
        cur = self.cdn.releases[pl][-1] if self.cdn.releases[pl] else None
        if fetches and cur is not None:
            self.note_release(pl, cur, status == 'ok')
        if status in ('deadlock', 'step-cap'):
            for prop in sorted({'C04', 'C01', self.prop}):
                self.violation(prop, 'hang', f"{c['cmd']} {pl}: {status} (fired {r.fired})")
            return
        if status not in ('ok', 'killed', 'interrupted') and not faults_fired and cur is not None and self.target_known(c, cur):
            what = f"{c['cmd']} of {pl} fails without any fault: {r.describe(g)} at {r.groups[g].get('tb')}"
            cls = 'fails-without-fault'
            if op.get('rerun'):
                self.violation('C04', 'no-recovery', what)
            if not alone:
                self.violation('C07', cls, what)
            else:
                self.violation('C01', cls, what)
            if c['cmd'] == 'versions':
                self.violation('C05', cls, what)
            return
        if status in ('error', 'exit') and faults_fired and not alone:
            # only the process that met the fault may fail
            groups = {f['group'] for f in op.get('faults', ())}
            if g not in groups and not any(f['action'] in ('down', 'diskfull') for f in op.get('faults', ())):
                self.violation('C07', 'innocent-fails', f"{c['cmd']} {pl} fails although only the other command was hit by {r.fired}: {r.describe(g)} at {r.groups[g].get('tb')}")
        if status != 'ok':
            return
        if c['cmd'] == 'download' and cur is not None:
            self.check_download(op, c, g, r, alone, faults_fired)
            self.check_economy(op, c, g, r, before, ext_before, alone, faults_fired)
        if c['cmd'] == 'versions' and not c.get('all') and alone:
            lines = r.stdout(g).split()
            allowed = self.expected_listings(pl)
            if c.get('type', 'patch') == 'patch' and not any([v for v, _ in a] == lines for a in allowed):
                self.violation('C05', 'versions-output', f"versions prints {lines}, expected one of {[[v for v, _ in a] for a in allowed]}")
        if c['cmd'] == 'files' and cur is not None and alone and not c.get('version'):
            self.check_files(op, c, g, r, cur)

    def note_release(self, pl, rel, certain):
        h = self.hist[pl]
        if h and h[-1][0] is rel:
            h[-1][1] = h[-1][1] or certain
        else:
            h.append([rel, certain])

    def target_known(self, c, cur):
        """Return True if the release a command asks for can be resolved for sure

        A version which is no longer current and whose download was stopped before
        anything was recorded cannot be found anymore, whatever the tool does.
        """
        v = c.get('version')
        return (v is None or c['pl'] == 'pbe' or v.rstrip('.') in cur.versions()
                or any(v.rstrip('.') in x.versions() and certain for x, certain in self.hist[c['pl']]))

    @staticmethod
    def group(pl, rels):
        """Patches of a list of releases, latest first: [(version, {elem: Release})]

        Elements of the same version in successive releases make a single patch, with the latest of them.
        """
        res = []
        for rel in rels:
            for n in ('game', 'client'):
                v = 'main' if pl == 'pbe' else rel.elem(n).version
                if not res or res[-1][0] != v:
                    res.append((v, {}))
                res[-1][1].setdefault(n, rel)
        return res

    def blame(self, op, alone):
        """Properties that a wrong content after success violates, given what happened before"""
        res = ['C01']
        if op.get('rerun') or op.get('after_fault'):
            res += ['C02', 'C04']
        if op.get('faults'):
            res.append('C03')
        if not alone:
            res.append('C07')
        return res

    def target_release(self, c):
        """Releases of the components a download selects: {elem: Release}"""
        pl = c['pl']
        v = c.get('version')
        comp = c.get('comp', 'patch')
        # an interrupted command may have not recorded its release
        known = [rel for rel, certain in reversed(self.hist[pl]) if certain or self.recorded_release(pl, rel)]
        if v is None or pl == 'pbe':
            if not known or known[0] is not self.cdn.releases[pl][-1]:
                known.insert(0, self.cdn.releases[pl][-1])
            v = None
        for version, elems in self.group(pl, known):
            if v is not None and version != v.rstrip('.'):
                continue
            if comp == 'patch':
                return elems
            if comp in elems:
                return {comp: elems[comp]}
        return {}

    def observe_paths(self, pl, langs):
        def obs():
            res = []
            st = self.storage(pl)
            for p in st.patches(stored=True):
                for e in p.elements:
                    res.append((str(p.version), e.name, list(e.paths(langs=langs)), list(e.relpaths(langs=langs)), list(e.fspaths(langs=langs))))
            return res
        return self.observe(obs, server=self.cdn.handle)

    def check_download(self, op, c, g, r, alone, faults_fired):
        langs = c.get('langs', True)
        targets = self.target_release(c)
        if not alone and any(x is not c and x['pl'] == c['pl'] and (x['cmd'] != 'versions' or x.get('all')) for x in op['cmds']):
            # both may record the same new release: the files are in one of the two copies, until the next run
            for name, rel in targets.items():
                dirs = self.recorded_dirs(c['pl'], rel)
                errs = [[e for f in rel.elem(name).selected(langs) if (e := self.content_error(os.path.join(d, 'files', f.name), f.content))] for d in dirs]
                if not any(not e for e in errs):
                    for prop in self.blame(op, alone):
                        self.violation(prop, 'wrong-content', f"download of {c['pl']} {name} reports success but its files are complete in none of {len(dirs)} recorded releases: {[e[:2] for e in errs]}")
            return
        o = self.observe_paths(c['pl'], langs)
        if not o.ok():
            for prop in self.blame(op, alone):
                self.violation(prop, 'unreadable-after-success', f"storage cannot be listed after a successful download: {o.describe()} at {o.groups[0].get('tb')}")
            return
        obs = o.value()
        for name, rel in targets.items():
            man = rel.elem(name)
            expected = {f.name.lower(): f for f in man.selected(langs)}
            marker = f"marker/{name}-{man.mid}.txt"
            match = [x for x in obs if x[1] == name and (marker in x[3] or langs not in (True, False) and set(expected) <= set(x[3]))]
            want_version = 'main' if c['pl'] == 'pbe' else man.version
            match = [x for x in match if x[0] == want_version]
            if not match:
                for prop in self.blame(op, alone):
                    self.violation(prop, 'not-listed', f"after a successful download, {name} of release {rel.idx} ({want_version}) is not listed in the storage: {[(x[0], x[1], len(x[3])) for x in obs]}")
                continue
            paths = {rl: fs for fs, rl in match[0][2]}
            links = {f.name.lower() for f in man.files.values() if f.link}
            if set(paths) - links != set(expected):
                for prop in self.blame(op, alone):
                    self.violation(prop, 'selection', f"files listed for {name} with langs={langs!r}: unexpected {sorted(set(paths) - links - set(expected))[:4]}, missing {sorted(set(expected) - set(paths))[:4]}")
                continue
            if set(x for x in match[0][3]) != set(paths) or set(match[0][4]) != set(paths.values()):
                self.violation('C01', 'paths-mismatch', f"paths of {name}: paths(), relpaths() and fspaths() disagree")
            bad = []
            for rl, f in expected.items():
                p = os.path.join(self.root, paths[rl])
                err = self.content_error(p, f.content)
                if err:
                    bad.append(f"{paths[rl]}: {err}")
            if bad:
                for prop in self.blame(op, alone):
                    self.violation(prop, 'wrong-content', f"download of {c['pl']} {name} reports success but {len(bad)} of {len(expected)} files are wrong: {bad[:3]} (faults: {r.fired})")

    @staticmethod
    def content_error(p, content):
        try:
            data = read_bytes(p)
        except OSError as e:
            return f"{type(e).__name__} {e.strerror}"
        if data != content:
            return f"{len(data)} bytes, expected {len(content)}" if len(data) != len(content) else "different content"
        return None

    def check_files(self, op, c, g, r, cur):
        langs = c.get('langs', True)
        comp = c.get('comp', 'patch')
        lines = [x for x in r.stdout(g).split('\n') if x]
        exp = []
        for n in ('client', 'game'):
            if comp == n or comp == 'patch' and n in self.group(c['pl'], [cur])[0][1]:
                links = [f.name for f in cur.elem(n).files.values() if f.link]
                exp += [f.name for f in cur.elem(n).selected(langs)]
                lines = [x for x in lines if not any(x.lower().endswith(k.lower()) for k in links)]
                exp = [x for x in exp if not any(x.lower().endswith(k.lower()) for k in links)]
        if c.get('relative'):
            if sorted(lines) != sorted(x.lower() for x in exp):
                self.violation('C01', 'files-output', f"files -r lists {sorted(lines)[:5]}.. ({len(lines)}), expected {sorted(exp)[:5]}.. ({len(exp)})")
        elif len(lines) != len(exp):
            self.violation('C01', 'files-output', f"files lists {len(lines)} paths, expected {len(exp)}")

    # -- economy

    def mirror_state(self):
        """CDN paths whose copy in the storage is complete"""
        base = self.path(self.STORE)
        res = set()
        for path, data in self.cdn.files.items():
            p = os.path.join(base, path)
            try:
                if os.path.getsize(p) == len(data) and read_bytes(p) == data:
                    res.add(path)
            except OSError:
                pass
        return res

    def extracted_state(self):
        """{(pl, release timestamp dir, elem) ...}: file names already correctly extracted"""
        res = set()
        base = self.path(self.STORE, 'cdtb', 'releases')
        for pl in ('live', 'pbe'):
            d = os.path.join(base, pl)
            if not os.path.isdir(d):
                continue
            for ts in os.listdir(d):
                rel = self.release_of_dir(pl, os.path.join(d, ts))
                if rel is None or sum((x.client, x.game) == (rel.client, rel.game) for x in self.cdn.releases[pl]) > 1:
                    continue    # which one it is cannot be told after a rollback
                for n in ('client', 'game'):
                    for f in rel.elem(n).files.values():
                        if not f.link and self.content_error(os.path.join(d, ts, 'files', f.name), f.content) is None:
                            res.add((pl, rel.idx, n, f.name))
        return res

    def release_of_dir(self, pl, d):
        try:
            with open(os.path.join(d, 'release.json')) as f:
                data = json.load(f)
        except (OSError, ValueError):
            return None
        for rel in reversed(self.cdn.releases[pl]):
            if isinstance(data, dict) and data.get('client_patch_url') == rel.url('client') and data.get('game_patch_url') == rel.url('game'):
                return rel
        return None

    def recorded_dirs(self, pl, rel):
        """Release directories of the storage that describe a release with the same manifests"""
        base = self.path(self.STORE, 'cdtb', 'releases', pl)
        res = []
        for ts in os.listdir(base) if os.path.isdir(base) else []:
            x = self.release_of_dir(pl, os.path.join(base, ts))
            if x is not None and (x.client, x.game) == (rel.client, rel.game):
                res.append(os.path.join(base, ts))
        return res

    def recorded_release(self, pl, rel):
        return bool(self.recorded_dirs(pl, rel))

    def check_economy(self, op, c, g, r, before, ext_before, alone, faults_fired):
        reqs = [q for q in r.requests if q['group'] == g and q['url'].startswith(cdn.BASE)]
        paths = [q['url'][len(cdn.BASE):] for q in reqs]
        again = sorted(set(paths) & before)
        if again:
            self.violation('C06', 'fetched-again', f"{again[:3]} was complete in the storage and is requested again")
        served = [q['url'][len(cdn.BASE):] for q in reqs if q['fault'] is None and q['status'] == 200]
        dup = sorted({p for p in served if served.count(p) > 1})
        if dup:
            self.violation('C06', 'fetched-twice', f"{dup[:3]} requested more than once by one command")
        # needed bundles
        langs = c.get('langs', True)
        targets = self.target_release(c)
        pl = c['pl']
        needed = set()
        for n, rel in targets.items():
            m = rel.elem(n)
            fs = [f for f in m.selected(langs) if (pl, rel.idx, n, f.name) not in ext_before]
            needed |= m.bundles_for(fs)
        for rel, _ in self.hist[pl]:
            for n, vf in (('client', 'system.yaml'), ('game', 'content-metadata.json')):
                m = rel.elem(n)
                needed |= m.bundles_for([m.files[vf]])
        allowed = {cdn.bundle_path(b) for b in needed}
        useless = sorted(p for p in set(paths) if p.startswith('channels/public/bundles/') and p not in allowed)
        if useless and alone:
            self.violation('C06', 'not-needed', f"{useless[:3]} ({len(useless)} bundles) requested although no selected file needs it (langs={langs!r})")
        mans = {rel.elem(n).path for rel, _ in self.hist[pl] for n in ('client', 'game')}
        useless = sorted(p for p in set(paths) if p.startswith('channels/public/releases/') and p not in mans)
        if useless and alone:
            self.violation('C06', 'not-needed', f"manifests {useless[:3]} requested although no known release uses it")

    # -- durable state, after any ending of a command

    def check_durable_state(self, op, r):
        """Whatever has the name of a finished file must be that file"""
        base = self.path(self.STORE)
        stopped = [g for g, o in r.groups.items() if o['status'] != 'ok']
        ended = '/'.join(sorted({o['status'] for o in r.groups.values()}))
        props = ['C02']
        if not stopped:
            props = ['C01']
        bad = []
        for path, data in self.cdn.files.items():
            p = os.path.join(base, path)
            if os.path.lexists(p):
                err = self.content_error(p, data)
                if err:
                    bad.append(('partial-download', f"{path}: {err}"))
        d = os.path.join(base, 'cdtb', 'files')
        if os.path.isdir(d):
            for h, content in self.cdn.all_files.items():
                p = os.path.join(d, h)
                if os.path.lexists(p):
                    err = self.content_error(p, content)
                    if err:
                        bad.append(('partial-file', f"cdtb/files/{h}: {err}"))
        for pl in ('live', 'pbe'):
            d = os.path.join(base, 'cdtb', 'releases', pl)
            if not os.path.isdir(d):
                continue
            for ts in os.listdir(d):
                rd = os.path.join(d, ts)
                if not ts.isdigit() or not os.path.isdir(rd):
                    continue
                if not os.path.lexists(os.path.join(rd, 'release.json')):
                    continue
                rel = self.release_of_dir(pl, rd)
                if rel is None:
                    bad.append(('partial-release', f"{pl}/{ts}/release.json is not the description of any published release"))
                    continue
                for n in ('client', 'game'):
                    for f in rel.elem(n).files.values():
                        if f.link:
                            continue
                        p = os.path.join(rd, 'files', f.name)
                        if os.path.lexists(p):
                            err = self.content_error(p, f.content)
                            if err:
                                bad.append(('partial-file', f"{pl}/{ts}/files/{f.name}: {err}"))
        if bad:
            for prop in props:
                self.violation(prop, bad[0][0], f"after {ended} (faults {r.fired}): {[b[1] for b in bad][:3]}")
            if not stopped and len(r.groups) > 1:
                self.violation('C07', bad[0][0], f"after concurrent commands: {[b[1] for b in bad][:3]}")

    # -- listing

    def expected_listings(self, pl):
        """All listings [(version, {elem: manifest index})] the history allows"""
        h = self.hist[pl]
        unsure = [i for i, x in enumerate(h) if not x[1]]
        res = []
        for k in itertools.product((True, False), repeat=len(unsure)):
            drop = {i for i, keep in zip(unsure, k) if not keep}
            rels = [x[0] for i, x in enumerate(h) if i not in drop]
            rels.reverse()
            lst = [(v, {n: rel.elem(n).mid for n, rel in elems.items()}) for v, elems in self.group(pl, rels)]
            if lst not in res:
                res.append(lst)
        return res

    def check_listing(self, pl):
        if not self.hist[pl]:
            return

        def obs():
            return [(str(p.version), {e.name: [x for x in e.relpaths() if x.startswith('marker/')] for e in p.elements})
                    for p in self.storage(pl).patches(stored=True)]
        o = self.observe(obs, server=self.cdn.handle)
        if not o.ok():
            self.violation('C05', 'listing-fails', f"listing the stored versions of {pl} fails: {o.describe()} at {o.groups[0].get('tb')}")
            return
        got = []
        for v, elems in o.value():
            e = {}
            for n, ms in elems.items():
                if len(ms) == 1 and ms[0].startswith(f"marker/{n}-"):
                    e[n] = int(ms[0].rsplit('-', 1)[1][:-4])
                else:
                    e[n] = ms
            got.append((v, e))
        allowed = self.expected_listings(pl)
        if got not in allowed:
            self.violation('C05', 'wrong-history', f"stored releases of {pl} are listed as {got}, expected {allowed[0]}" + (f" (or {len(allowed) - 1} other)" if len(allowed) > 1 else ''))

    def final(self):
        for pl in ('live', 'pbe'):
            self.check_listing(pl)


# ---- generation ----------------------------------------------------------

def next_version(v, rng):
    a, b = (int(x) for x in v.split('.'))
    if rng.random() < 0.15:
        return f"{a + 1}.1"
    if b <= 2 and rng.random() < 0.4:
        return f"{a}.{10 * b + rng.randrange(5)}"   # a version that looks like another one
    return f"{a}.{b + 1}"


def gen(rng, prop):
    """A fault-free history of publications and commands"""
    params = gen_knobs(rng)
    params['content'] = rng.randrange(1 << 30)
    params['arg_style'] = rng.choice([0, 0, 1, 2, 3, 4])
    if rng.random() < 0.2:
        params['no_symlinks'] = True
    if rng.random() < 0.1:
        params['clientconfig'] = rng.choice(['file', 'url'])
    if params.get('no_symlinks') or params.get('clientconfig'):
        params['arg_style'] = rng.choice([5, 6])
    params['cdn'] = {'nfiles': rng.choice([1, 3, 6]), 'secure': rng.random() < 0.2, 'small': rng.random() < 0.3}
    if prop == 'C05':
        params['list_each'] = rng.random() < 0.5
    pls = rng.choice([['live'], ['live'], ['pbe'], ['live', 'pbe']])
    ver = {pl: f"{rng.choice([8, 9, 9, 10, 13])}.{rng.choice([1, 2, 9, 10, 19])}" for pl in pls}
    ops = []
    published = {pl: [] for pl in pls}

    def publish(pl, same=None):
        prev = published[pl]
        again = None
        if len(prev) >= 2 and same is None and rng.random() < 0.25:
            # rollback: an earlier version, or exactly an earlier release
            change = ['client', 'game']
            k = rng.randrange(len(prev) - 1)
            v = prev[k]
            if rng.random() < 0.5:
                again = k
        elif prev and (same if same is not None else rng.random() < 0.35):
            v = prev[-1]
            change = rng.choice([['client', 'game'], ['client'], ['game']])
        else:
            if prev:
                ver[pl] = next_version(ver[pl], rng)
            v = ver[pl]
            change = ['client', 'game']
            if prev and rng.random() < (0.3 if prop == 'C05' else 0.12):
                change = ['game']       # the client is updated later
        prev.append(v)
        ops.append({'op': 'publish', 'pl': pl, 'version': v, 'change': change})
        if again is not None:
            ops[-1]['again'] = again

    def langs():
        return rng.choice([True, True, True, True, False, False, 'fr_FR', 'en_us', ['fr_FR', 'en_US']])

    seen = {pl: [] for pl in pls}
    last = None
    for step in range(rng.choice([1, 2, 3, 4] if prop == 'C05' else [1, 2, 2, 3])):
        for pl in pls:
            if not published[pl] or rng.random() < 0.7:
                publish(pl)
            if prop == 'C05' and rng.random() < 0.4:
                ops.append({'op': 'wait', 's': rng.choice([0.0, 0.2, 30.0, 86400.0])})
            elif rng.random() < 0.8:
                ops.append({'op': 'wait', 's': rng.choice([1.5, 60.0, 86400.0])})
            if prop == 'C05' and rng.random() < 0.35:
                if rng.random() < 0.2:
                    ops.append({'op': 'clock', 'to': rng.choice([40.0, 9000.0, 86400.5, 990_000_000.0, 1_760_000_000.0])})
                else:
                    ops.append({'op': 'clock', 's': rng.choice([-0.5, -2.0, -3600.0, -100000.0, 7200.0])})
            k = rng.random()
            if prop == 'C05' and k < 0.4:
                cmd = {'op': 'cmd', 'cmd': 'versions', 'pl': pl, 'all': rng.random() < 0.8, 'type': 'patch'}
            else:
                cmd = {'op': 'cmd', 'cmd': 'download', 'pl': pl, 'langs': langs(), 'api': rng.random() < 0.3}
                if rng.random() < 0.2:
                    cmd['comp'] = rng.choice(['client', 'game'])
                    cmd['api'] = False
                if isinstance(cmd['langs'], str) and not cmd['api']:
                    pass
                if seen[pl] and rng.random() < 0.15 and pl == 'live':
                    cmd['version'] = rng.choice(seen[pl])
                    if cmd.get('comp'):
                        del cmd['comp']
            cmd['policy'] = gen_policy(rng)
            cmd['tail'] = rng.choice([0, 0, 5, 60])
            cmd['target'] = True
            ops.append(cmd)
            if published[pl][-1] not in seen[pl]:
                seen[pl].append(published[pl][-1])
            if rng.random() < 0.75 or prop in ('C02', 'C04', 'C06'):
                if rng.random() < 0.3:
                    ops.append({'op': 'wait', 's': rng.choice([0.0, 2.0, 86400.0])})
                if rng.random() < (0.3 if prop == 'C06' else 0.08):
                    ops.append({'op': 'prune'})
                rerun = {k: v for k, v in cmd.items() if k not in ('target', 'faults')}
                rerun.update(rerun=True, policy=gen_policy(rng))
                ops.append(rerun)
            if rng.random() < 0.2:
                ops.append({'op': 'cmd', 'cmd': 'files', 'pl': pl, 'relative': rng.random() < 0.5, 'langs': langs(),
                            'policy': {'name': 'default'}})
            if rng.random() < (0.5 if prop == 'C05' else 0.1):
                ops.append({'op': 'cmd', 'cmd': 'versions', 'pl': pl, 'all': False, 'type': 'patch', 'policy': {'name': 'default'}})
    return {'world': 'patcher', 'params': params, 'ops': ops}


def gen_concurrent(rng, prop):
    """Commands of two processes overlapping on one storage"""
    base = gen(rng, prop)
    params = base['params']
    params.pop('list_each', None)
    pls = ['live', 'pbe']
    rng.shuffle(pls)
    ops = []
    v = {'live': '9.4', 'pbe': '9.5'}
    for pl in pls:
        ops.append({'op': 'publish', 'pl': pl, 'version': v[pl], 'change': ['client', 'game']})

    def dl(pl):
        return {'cmd': 'download', 'pl': pl, 'langs': rng.choice([True, True, False]), 'api': rng.random() < 0.3}

    def reader(pl):
        return rng.choice([{'cmd': 'versions', 'pl': pl, 'all': rng.random() < 0.5, 'type': 'patch'},
                           {'cmd': 'files', 'pl': pl, 'relative': True, 'langs': True}])
    for step in range(rng.choice([1, 1, 2])):
        if step or rng.random() < 0.3:
            pl = rng.choice(pls)
            ops.append(dict(dl(pl), op='cmd', policy=gen_policy(rng)))
            for q in pls:
                if rng.random() < 0.6:
                    v[q] = next_version(v[q], rng)
                    ops.append({'op': 'publish', 'pl': q, 'version': v[q], 'change': ['client', 'game']})
        cmds = [dl('live'), dl('pbe')]
        k = rng.random()
        if k < 0.3:
            # overlapping runs of the same job
            pl = rng.choice(pls)
            cmds = [dl(pl), dl(pl)]
        elif k < 0.55:
            # a reader of the same, or other, patchline
            cmds[1] = reader(rng.choice(pls))
        rng.shuffle(cmds)
        pol = rng.choice([{'name': 'random', 'p': rng.choice([0.05, 0.2, 0.5])}, {'name': 'rr'},
                          {'name': 'pct', 'points': sorted(rng.randrange(1, 6000) for _ in range(rng.choice([2, 4, 8])))}])
        ops.append({'op': 'concurrent', 'cmds': cmds, 'policy': pol, 'target': True, 'tail': rng.choice([0, 20])})
        if rng.random() < 0.6:
            for pl in pls:
                ops.append(dict(dl(pl), op='cmd', rerun=True, policy=gen_policy(rng)))
    return {'world': 'patcher', 'params': params, 'ops': ops}
