"""World of the RADS storage: solutions, projects and packages on simulated servers"""
import gzip
import json
import os
import zlib

from . import pe
from .base import World, rng_for, gen_policy, gen_knobs, read_bytes

import cdtb.__main__ as cli
import cdtb.storage
from cdtb.storage import Storage

HOST = "http://l3cdn.riotgames.com"
URLS = {'default': HOST + '/releases/live/', 'kr': HOST + '/KR_CBT/', 'pbe': HOST + '/releases/pbe/', 'own': 'https://rads.example.com/mirror/'}
LANGS = ('en_us', 'fr_fr', 'zh_cn')
SOLUTIONS = {
    'client': ('league_client_sln', 'league_client', 'system.yaml'),
    'game': ('lol_game_client_sln', 'lol_game_client', 'League of Legends.exe'),
}


def vstr(n):
    return '.'.join(str((n >> s) & 255) for s in (24, 16, 8, 0))


class ProjectVersion:
    def __init__(self, name, num, files, rng, available=True):
        self.name, self.num = name, num
        self.version = vstr(num)
        self.files = files              # {storage path: content}
        self.available = available      # packagemanifest still on the servers
        self.base = f"projects/{name}/releases/{self.version}"
        # packages
        packed = []
        for path, content in files.items():
            if rng.random() < 0.6:
                comp = zlib.compress(content, rng.choice([1, 9])) if rng.random() < 0.7 else gzip.compress(content, mtime=0)
                packed.append((path, path + '.compressed', comp))
            else:
                packed.append((path, path, content))
        rng.shuffle(packed)
        npkg = rng.choice([1, 1, 2, 3])
        self.packages = {}
        self.package_files = {}
        lines = []
        for i in range(npkg):
            data = b''
            pkg = f"BIN_0x{i:08X}"
            for path, mpath, raw in packed[i::npkg]:
                if rng.random() < 0.3:
                    data += rng.randbytes(rng.choice([1, 30, 700]))
                lines.append(f"/{mpath},{pkg},{len(data)},{len(raw)},{rng.choice([0, 2, 22])}")
                data += raw
                self.package_files.setdefault(pkg, []).append(path)
            if rng.random() < 0.3:
                data += rng.randbytes(rng.choice([1, 100]))
            self.packages[pkg] = data
        rng.shuffle(lines)
        eol = '\r\n' if rng.random() < 0.7 else '\n'
        self.packagemanifest = ('PKG1' + eol + ''.join(x + eol for x in lines)).encode()
        self.releasemanifest = b'RLSM' + rng.randbytes(50)


class SolutionVersion:
    def __init__(self, elem, num, patch, main, langs, rng):
        self.elem, self.num, self.patch = elem, num, patch
        self.name, self.main_name, _ = SOLUTIONS[elem]
        self.version = vstr(num)
        self.main, self.langs = main, langs         # [ProjectVersion], {lang: [ProjectVersion]}
        self.base = f"solutions/{self.name}/releases/{self.version}"
        extra = [pv for pvs in langs.values() for pv in pvs if pv not in main]
        projects = main + [pv for i, pv in enumerate(extra) if pv not in extra[:i]]
        if rng.random() < 0.4:
            rng.shuffle(projects)
        lines = ['RADS Solution Manifest', '1.0.0.0', self.name, self.version, str(len(projects))]
        for pv in projects:
            lines += [pv.name, pv.version, '0' if pv in main else '10', '0']
        lines.append(str(len(langs)))
        for lang, pvs in langs.items():
            lines += [lang, '0', str(len(pvs))] + [pv.name for pv in pvs]
        eol = '\r\n' if rng.random() < 0.7 else '\n'
        self.manifest = (eol.join(lines) + eol).encode()

    def selected(self, langs):
        if langs is True:
            res = list(self.main)
            for pvs in self.langs.values():
                res += [pv for pv in pvs if pv not in res]
            return res
        if langs is False:
            return list(self.main)
        res = []
        for lang in ([langs] if isinstance(langs, str) else langs):
            res += [pv for pv in self.langs[lang] if pv not in res]
        return res


class Servers:
    def __init__(self, rng, opts):
        self.rng, self.opts = rng, opts
        self.cdn = opts.get('cdn', 'default')
        self.url = URLS[self.cdn]
        self.solutions = {'client': [], 'game': []}     # oldest first
        self.projects = {}                              # {name: [ProjectVersion]}
        self.files = {}                                 # url path -> bytes
        self.stored = {}                                # storage path -> bytes
        start = opts.get('start', 200)
        self.next_sln = {'client': start, 'game': start + 3}
        self.next_prj = {}

    def _content(self):
        rng = self.rng
        n = rng.choice([0, 1, 7, 60, 500, 500, 3000])
        return rng.randbytes(n) if rng.random() < 0.5 else (b'%04d ' % rng.randrange(10000)) * (n // 5)

    def _project(self, name, special=None, available=True):
        """New version of a project. Unchanged files keep the path of the release that introduced them"""
        rng = self.rng
        vers = self.projects.setdefault(name, [])
        num = self.next_prj.setdefault(name, self.opts.get('pstart', 250))
        self.next_prj[name] = num + rng.choice([1, 1, 2, 7])
        base = f"projects/{name}/releases/{vstr(num)}/files/"
        files = {}
        if vers:
            special_name = special[0] if special else None
            for path, content in vers[-1].files.items():
                rel = path.split('/', 5)[5]
                if rel == special_name:
                    continue
                k = rng.random()
                if k < 0.6:
                    files[path] = content
                elif k < 0.85:
                    files[base + rel] = self._content()
        have = {p.split('/', 5)[5].lower() for p in files}
        if special:
            files[base + special[0]] = special[1]
        for i in range(rng.randrange(1, 2 + self.opts.get('nfiles', 3))):
            rel = rng.choice(['', 'data/', 'Plugins/rcp-fe/', 'DATA/FINAL/', 'x.compressed/']) + f"{rng.choice(['a', 'B c', 'file', 'é'])}{rng.randrange(20)}{rng.choice(['.wad', '.txt', '', '.compressed.txt'])}"
            # file names must not be names of directories in other releases
            if rel.lower() not in have:
                have.add(rel.lower())
                files[base + rel] = self._content()
        pv = ProjectVersion(name, num, files, rng, available)
        vers.append(pv)
        if available:
            self._put(f"{pv.base}/packages/files/packagemanifest", pv.packagemanifest, f"{pv.base}/packagemanifest")
            for pkg, data in pv.packages.items():
                self._put(f"{pv.base}/packages/files/{pkg}", data, None)
        self._put(f"{pv.base}/releasemanifest", pv.releasemanifest)
        for path, content in files.items():
            self.stored[path] = content
        return pv

    def _put(self, urlpath, data, stored=True):
        self.files[urlpath] = data
        if stored is True:
            stored = urlpath
        if stored:
            self.stored[stored] = data

    def publish(self, elem, patch, available=True):
        rng = self.rng
        sln, main_name, special_name = SOLUTIONS[elem]
        num = self.next_sln[elem]
        self.next_sln[elem] = num + rng.choice([1, 1, 2, 9])
        if elem == 'client':
            special = f"x: 1\n    branch: Releases/{patch}\n" if rng.random() < 0.5 else f"branch: 'Release/{patch}'\n"
            special = special.encode()
        else:
            special = pe.executable(f"{patch}.{rng.randrange(1, 400)}.{rng.randrange(1, 9999)}", rng.randbytes(rng.choice([0, 100])))
        main = [self._project(main_name, (special_name, special), available)]
        if rng.random() < 0.4:
            name = main_name + '_extra'
            main.append(self._reuse_or_new(name))
        if rng.random() < 0.5:
            main.reverse()
        langs = {}
        for lang in self.opts.get('langs', LANGS):
            langs[lang] = main + [self._reuse_or_new(f"{main_name}_{lang}")]
        sv = SolutionVersion(elem, num, patch if available else None, main, langs, rng)
        self.solutions[elem].append(sv)
        self._put(f"{sv.base}/solutionmanifest", sv.manifest)
        if sv.patch is not None and self.cdn != 'pbe':
            self.stored[f"{sv.base}/_patch_version"] = f"{patch}\n".encode()
        return sv

    def _reuse_or_new(self, name):
        vers = self.projects.get(name)
        if vers and self.rng.random() < 0.5:
            return vers[-1]
        return self._project(name)

    def handle(self, method, url, headers):
        if url.startswith(self.url):
            path = url[len(self.url):].replace('%20', ' ')
            for elem, (sln, _, _) in SOLUTIONS.items():
                if path == f"solutions/{sln}/releases/releaselisting":
                    # numbering of releases is not lexical
                    text = ''.join(sv.version + '\r\n' for sv in reversed(self.solutions[elem]))
                    return 200, {'Content-Type': 'text/plain', 'X-Sim-Gzip-Ok': '1'}, text.encode()
            data = self.files.get(path)
            if data is not None:
                return 200, {'Content-Type': 'application/octet-stream'}, data
        return 404, {'Content-Type': 'text/html'}, b'<html>not found</html>'

    # -- reference listing

    def listing(self, stored=None):
        """[(version, {elem: SolutionVersion})], newest first

        stored -- keep only those solution versions, as {elem: set(version)}
        """
        groups = {}
        for elem in ('client', 'game'):
            for sv in self.solutions[elem]:
                if stored is not None and sv.version not in stored[elem]:
                    continue
                v = 'main' if self.cdn == 'pbe' else sv.patch
                if v is None:
                    continue
                groups.setdefault(v, {})[elem] = sv      # later one replaces
        return sorted(groups.items(), key=lambda x: (9999, 0) if x[0] == 'main' else tuple(int(i) for i in x[0].split('.')), reverse=True)


class RadsWorld(World):
    name = 'rads'
    STORE = 'RADS'

    @staticmethod
    def veto(f):
        # "not found" is how the servers say that a release has no files anymore
        return f['action'] == 'status' and f['arg'] == 404 and f['path'].endswith('packagemanifest')

    def setup(self):
        p = self.params
        self.srv = Servers(rng_for('rads', self.seed, p.get('content', 0)), p.get('rads', {}))
        self.conf = {'type': 'rads', 'path': self.STORE}
        if self.srv.cdn == 'own':
            self.conf['url'] = self.srv.url
        elif self.srv.cdn != 'default':
            self.conf['cdn'] = self.srv.cdn
        with open(self.path('rads.json'), 'w') as f:
            json.dump(self.conf, f)

    def op_publish(self, op):
        for elem in op['change']:
            self.srv.publish(elem, op['version'], op.get('available', True))

    def op_wait(self, op):
        self.mono += op['s']
        self.wall += op['s']

    def storage_args(self):
        if self.srv.cdn == 'default' and self.params.get('arg_style', 0) == 0:
            return ['-s', 'rads:' + self.STORE]
        return ['-s', 'rads.json']

    def storage(self):
        return Storage.from_conf(dict(self.conf))

    def tune(self):
        cls = getattr(cdtb.storage, 'RequestStreamReader', None)
        n = self.params.get('stream_chunk')
        if n and cls is not None and hasattr(cls, 'DOWNLOAD_CHUNK_SIZE'):
            cls.DOWNLOAD_CHUNK_SIZE = n

    def main_for(self, c):
        kind = c['cmd']
        langs = c.get('langs', True)
        comp = f"{c.get('comp', 'patch')}={c.get('version') or ''}"
        if kind == 'download' and c.get('api'):
            def main():
                self.tune()
                st = self.storage()
                patch = st.patch(c.get('version'))
                if patch is None:
                    raise SystemExit(2)
                patch.download(langs=langs)
            return main
        from .patcher import lang_args
        if kind == 'download':
            argv = ['download'] + self.storage_args() + [comp] + lang_args(langs)
        elif kind == 'files':
            argv = ['files'] + self.storage_args() + (['-r'] if c.get('relative') else []) + [comp] + lang_args(langs)
        else:
            argv = ['versions'] + self.storage_args() + (['-a'] if c.get('all') else []) + [c.get('type', 'patch')]

        def main():
            self.tune()
            cli.main(argv)
        return main

    # -- state of the storage

    def complete(self):
        """Storage paths whose file is complete"""
        base = self.path(self.STORE)
        res = set()
        for path, data in self.srv.stored.items():
            try:
                if read_bytes(os.path.join(base, path)) == data:
                    res.add(path)
            except OSError:
                pass
        return res

    def stored_solutions(self):
        res = {}
        for elem, (sln, _, _) in SOLUTIONS.items():
            d = self.path(self.STORE, 'solutions', sln, 'releases')
            res[elem] = {x for x in os.listdir(d) if os.path.isdir(os.path.join(d, x))} if os.path.isdir(d) else set()
        return res

    def targets(self, c, stored):
        comp, v = c.get('comp', 'patch'), c.get('version')
        if v:
            v = v.rstrip('.')
        use_stored = stored if comp != 'patch' and v else None
        for ver, elems in self.srv.listing(use_stored):
            if comp != 'patch':
                if comp in elems and v in (None, ver):
                    return {comp: elems[comp]}
            elif v in (None, ver):
                return elems
        return {}

    # -- commands

    def op_cmd(self, op):
        self.op_concurrent(dict(op, cmds=[op]))

    def op_concurrent(self, op):
        cmds = op['cmds']
        before = self.complete()
        stored = self.stored_solutions()
        r = self.run([self.main_for(c) for c in cmds], op=op, server=self.srv.handle)
        self.recorded.append(r)
        self.say(f"op {self.op_index} {[c['cmd'] + ' ' + str(c.get('comp', '')) + '=' + str(c.get('version')) for c in cmds]} -> {[r.describe(g) for g in range(len(cmds))]} fired={r.fired}")
        for g, c in enumerate(cmds):
            self.after_command(op, c, g, r, before, stored, len(cmds) == 1)
        self.check_durable(r)

    def blame(self, op, alone):
        res = ['C08']
        if op.get('rerun') or op.get('after_fault'):
            res += ['C02', 'C04']
        if op.get('faults'):
            res.append('C03')
        if not alone:
            res.append('C07')
        return res

    def after_command(self, op, c, g, r, before, stored, alone):
        status = r.status(g)
        if status in ('deadlock', 'step-cap'):
            for prop in sorted({'C04', 'C08', self.prop}):
                self.violation(prop, 'hang', f"{c['cmd']}: {status} (fired {r.fired})")
            return
        targets = self.targets(c, stored) if c['cmd'] != 'versions' else None
        if status not in ('ok', 'killed', 'interrupted') and not r.fired and targets != {}:
            what = f"{c['cmd']} {c.get('comp', 'patch')}={c.get('version')} fails without any fault: {r.describe(g)} at {r.groups[g].get('tb')}"
            props = ['C08'] if c['cmd'] != 'versions' else ['C09']
            if op.get('rerun') or op.get('after_fault'):
                props.append('C04')
            if not alone:
                props.append('C07')
            for prop in props:
                self.violation(prop, 'no-recovery' if prop == 'C04' else 'fails-without-fault', what)
            return
        if status in ('error', 'exit') and r.fired and not alone and targets != {}:
            faults = op.get('faults', ())
            if g not in {f['group'] for f in faults} and not any(f['action'] in ('down', 'diskfull') for f in faults):
                self.violation('C07', 'innocent-fails', f"{c['cmd']} {c.get('comp', 'patch')}={c.get('version')} fails although only the other command was hit by {r.fired}: {r.describe(g)} at {r.groups[g].get('tb')}")
        if status != 'ok':
            return
        if c['cmd'] == 'download':
            self.check_download(op, c, g, r, targets, alone)
            self.check_economy(c, g, r, before, alone)
        elif c['cmd'] == 'versions':
            lst = self.srv.listing(None if c.get('all') else self.stored_solutions())
            typ = c.get('type', 'patch')
            exp = [v for v, elems in lst if typ == 'patch' or typ in elems]
            got = r.stdout(g).split()
            if got != exp and (alone or c.get('all')):
                self.violation('C09', 'versions-output', f"versions {'-a ' if c.get('all') else ''}{typ} prints {got}, expected {exp}")
        elif c['cmd'] == 'files' and alone:
            exp = set()
            for elem, sv in targets.items():
                for pv in sv.selected(c.get('langs', True)):
                    exp |= {(p.split('/', 5)[5].lower() if c.get('relative') else self.STORE + '/' + p) for p in pv.files}
            got = [x for x in r.stdout(g).split('\n') if x]
            if set(got) != exp:
                self.violation('C08', 'files-output', f"files lists unexpected {sorted(set(got) - exp)[:3]}, missing {sorted(exp - set(got))[:3]}")

    def check_download(self, op, c, g, r, targets, alone):
        langs = c.get('langs', True)
        if not targets:
            self.violation('C08', 'downloads-unknown', f"download of {c.get('comp')}={c.get('version')} succeeds although no such release is known")
            return
        base = self.path(self.STORE)
        bad = []
        for elem, sv in targets.items():
            for pv in sv.selected(langs):
                for path, content in pv.files.items():
                    try:
                        data = read_bytes(os.path.join(base, path))
                    except OSError as e:
                        bad.append(f"{path}: {e.strerror}")
                        continue
                    if data != content:
                        bad.append(f"{path}: {len(data)} bytes, expected {len(content)}")
        if bad:
            for prop in self.blame(op, alone):
                self.violation(prop, 'wrong-content', f"download reports success but {len(bad)} files are wrong: {bad[:3]} (faults {r.fired})")
            return
        if not alone:
            return

        def obs():
            st = self.storage()
            res = []
            for p in st.patches(stored=True):
                for e in p.elements:
                    res.append((str(p.version), e.name, e.solution_version.version.s if hasattr(e, 'solution_version') else None, list(e.paths(langs=langs)), list(e.relpaths(langs=langs)), list(e.fspaths(langs=langs))))
            return res
        o = self.observe(obs, server=self.srv.handle)
        if not o.ok():
            for prop in self.blame(op, alone) + ['C09']:
                self.violation(prop, 'unreadable-after-success', f"storage cannot be listed after a successful download: {o.describe()} at {o.groups[0].get('tb')}")
            return
        lst = o.value()
        for elem, sv in targets.items():
            v = 'main' if self.srv.cdn == 'pbe' else sv.patch
            exp = {(os.path.join(self.STORE, p), p.split('/', 5)[5].lower()) for pv in sv.selected(langs) for p in pv.files}
            match = [x for x in lst if x[0] == v and x[1] == elem]
            if not match:
                self.violation('C09', 'not-listed', f"{elem} {v} is not listed after its download: {[(x[0], x[1]) for x in lst]}")
                continue
            x = match[0]
            if set(x[3]) != exp:
                self.violation('C08', 'selection', f"files of {elem} {v} with langs={langs!r}: unexpected {sorted(set(x[3]) - exp)[:3]}, missing {sorted(exp - set(x[3]))[:3]}")
            if set(x[4]) != {b for a, b in x[3]} or set(x[5]) != {a for a, b in x[3]}:
                self.violation('C08', 'paths-mismatch', f"paths(), relpaths() and fspaths() of {elem} {v} disagree")

    def check_economy(self, c, g, r, before, alone):
        url = self.srv.url
        byname = {f"{pv.base}/packages/files/packagemanifest": f"{pv.base}/packagemanifest" for pvs in self.srv.projects.values() for pv in pvs}
        pkgs = {f"{pv.base}/packages/files/{k}": (pv, k) for pvs in self.srv.projects.values() for pv in pvs for k in pv.packages}
        served = {}
        for q in r.requests:
            if q['group'] != g or not q['url'].startswith(url):
                continue
            path = q['url'][len(url):]
            if path.endswith('/releaselisting'):
                continue
            if byname.get(path, path) in before:
                self.violation('C06', 'fetched-again', f"{path} was complete in the storage and is requested again")
            if path in pkgs:
                pv, k = pkgs[path]
                if all(p in before for p in pv.package_files.get(k, ())):
                    self.violation('C06', 'not-needed', f"{path} is requested although all its files are already extracted")
            if q['fault'] is None and q['status'] == 200:
                served[path] = served.get(path, 0) + 1
        for path, n in served.items():
            # a package may be needed once for the version lookup and once for all files
            if n > (2 if path in pkgs else 1):
                self.violation('C06', 'fetched-twice', f"{path} is requested {n} times by one command")

    def check_durable(self, r):
        base = self.path(self.STORE)
        bad = []
        for path, data in self.srv.stored.items():
            p = os.path.join(base, path)
            if os.path.lexists(p):
                try:
                    got = read_bytes(p)
                except OSError as e:
                    bad.append(f"{path}: {e}")
                    continue
                if got != data:
                    bad.append(f"{path}: {len(got)} bytes, expected {len(data)}")
        if bad:
            ended = '/'.join(sorted({o['status'] for o in r.groups.values()}))
            for prop in (['C02'] if ended != 'ok' else ['C08', 'C02']) + (['C07'] if len(r.groups) > 1 else []):
                self.violation(prop, 'partial-file', f"after {ended} (faults {r.fired}): {bad[:3]}")

    def final(self):
        if not any(self.stored_solutions().values()):
            return

        def obs():
            return [(str(p.version), {e.name: str(e.solution_version.version) for e in p.elements}) for p in self.storage().patches(stored=True)]
        exp = [(v, {e: sv.version for e, sv in elems.items()}) for v, elems in self.srv.listing(self.stored_solutions())]
        o = self.observe(obs, server=self.srv.handle)
        if not o.ok():
            for prop in ('C09', 'C04'):
                self.violation(prop, 'listing-fails', f"listing the stored versions fails: {o.describe()} at {o.groups[0].get('tb')}")
        elif [(v, dict(e)) for v, e in o.value()] != exp:
            self.violation('C09', 'wrong-listing', f"stored versions are {o.value()}, expected {exp}")


# ---- generation -------------------------------------------------------------

def gen(rng, prop):
    params = gen_knobs(rng)
    params['content'] = rng.randrange(1 << 30)
    params['arg_style'] = rng.randrange(2)
    params['stream_chunk'] = rng.choice([1, 3, 16, 100, 4096, None])
    params['rads'] = {
        'cdn': rng.choice(['default', 'default', 'default', 'kr', 'pbe', 'own']),
        'start': rng.choice([5, 200, 250, 255, 9, 99]),
        'pstart': rng.choice([50, 99, 250, 255, 65535]),
        'nfiles': rng.choice([1, 3]),
        'langs': list(LANGS[:rng.choice([1, 2, 3])]),
    }
    langs_av = params['rads']['langs']
    ops = []
    major, minor = rng.choice([(7, 1), (7, 2), (7, 9), (7, 23), (6, 24), (8, 10)])
    published = []

    def publish():
        nonlocal major, minor
        k = rng.random()
        if published and k < 0.35:
            change = rng.choice([['client'], ['game'], ['client', 'game']])       # sub-patch
        else:
            if published:
                if minor <= 2 and rng.random() < 0.4:
                    minor = 10 * minor + rng.randrange(5)       # a version that looks like another one
                else:
                    minor += 1
                if rng.random() < 0.1:
                    major, minor = major + 1, 1
            change = ['client', 'game']
        v = f"{major}.{minor}"
        published.append(v)
        op = {'op': 'publish', 'version': v, 'change': change}
        if len(published) > 1 and params['rads']['cdn'] != 'pbe' and rng.random() < 0.12:
            op['available'] = False
            op['change'] = [rng.choice(change)]
        ops.append(op)

    def langs():
        k = rng.random()
        if k < 0.45:
            return True
        if k < 0.6:
            return False
        if k < 0.8:
            return [rng.choice(langs_av)]
        return sorted(set(rng.choice(langs_av) for _ in range(2)))

    for _ in range(rng.choice([1, 1, 2, 3])):
        publish()
    for step in range(rng.choice([1, 2, 2, 3])):
        if step and rng.random() < 0.7:
            publish()
        if rng.random() < 0.5:
            ops.append({'op': 'wait', 's': rng.choice([1.5, 86400.0])})
        if prop == 'C09' and rng.random() < 0.5:
            cmd = {'op': 'cmd', 'cmd': 'versions', 'all': rng.random() < 0.7, 'type': rng.choice(['patch', 'patch', 'client', 'game'])}
        else:
            cmd = {'op': 'cmd', 'cmd': 'download', 'langs': langs(), 'api': rng.random() < 0.25}
            if rng.random() < 0.3:
                cmd['comp'] = rng.choice(['client', 'game'])
                cmd['api'] = False
            if params['rads']['cdn'] == 'pbe':
                if rng.random() < 0.5 and cmd.get('comp', 'patch') == 'patch':
                    cmd['version'] = 'main'
            elif rng.random() < 0.35:
                cmd['version'] = rng.choice(published)
                if not cmd['api'] and cmd.get('comp', 'patch') == 'patch' and rng.random() < 0.3:
                    cmd['version'] += '.'
        cmd['policy'] = {'name': 'default'}
        cmd['target'] = True
        ops.append(cmd)
        if rng.random() < 0.8:
            ops.append({**{k: v for k, v in cmd.items() if k != 'target'}, 'rerun': True})
        if rng.random() < 0.2:
            ops.append({'op': 'cmd', 'cmd': 'files', 'relative': rng.random() < 0.5, 'langs': langs(), 'policy': {'name': 'default'},
                        'target': rng.random() < 0.3})
        if rng.random() < (0.6 if prop == 'C09' else 0.1):
            ops.append({'op': 'cmd', 'cmd': 'versions', 'all': rng.random() < 0.4, 'type': rng.choice(['patch', 'client', 'game']), 'policy': {'name': 'default'}})
    return {'world': 'rads', 'params': params, 'ops': ops}


def gen_concurrent(rng, prop):
    plan = gen(rng, prop)
    pubs = [op for op in plan['ops'] if op['op'] == 'publish' and op.get('available', True)]
    ops = pubs[:rng.choice([1, 2])]
    for _ in range(rng.choice([1, 1, 2])):
        cmds = [{'cmd': 'download', 'comp': c, 'langs': rng.choice([True, False])} for c in ('client', 'game')]
        if rng.random() < 0.3:
            cmds[0] = dict(cmds[1])
        if rng.random() < 0.2:
            cmds[rng.randrange(2)] = {'cmd': 'versions', 'all': True, 'type': 'patch'}
        rng.shuffle(cmds)
        pol = rng.choice([{'name': 'random', 'p': rng.choice([0.1, 0.3, 0.6])}, {'name': 'rr'},
                          {'name': 'pct', 'points': sorted(rng.randrange(1, 1500) for _ in range(rng.choice([2, 4, 8])))}])
        ops.append({'op': 'concurrent', 'cmds': cmds, 'policy': pol, 'target': True})
        if rng.random() < 0.6:
            ops.append(dict(rng.choice(cmds), op='cmd', rerun=True, policy={'name': 'default'}))
    plan['ops'] = ops
    return plan
