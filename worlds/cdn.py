"""Model of Riot's servers for the patcher storage, and of what it publishes"""
import hashlib
import json

from . import rman

BASE = "https://lol.dyn.riotcdn.net/"
CLIENTCONFIG = "https://clientconfig.rpg.riotgames.com/api/v1/config/public?namespace=keystone.products.league_of_legends.patchlines"
SIEVE = "https://sieve.services.riotcdn.net/api/v1/products/lol/version-sets/"

LANGS = ('en_US', 'fr_FR', 'zh_CN')


class Manifest:
    def __init__(self, files, bundles, flags, salt):
        self.files = {f.name: f for f in files}
        self.bundles = bundles
        self.flags = flags
        seed = repr(salt).encode() + b'|'.join(f.name.encode() + repr(f.flags).encode() + f.hexdigest().encode() for f in files)
        self.id = int.from_bytes(hashlib.blake2b(seed, digest_size=8).digest(), 'little')
        self.data = rman.encode_manifest(self.id, bundles, flags, files)
        self.path = f"channels/public/releases/{self.id:016X}.manifest"
        self.chunk_bundle = {}
        for b in bundles:
            for c in b.chunks:
                self.chunk_bundle[c.id] = b

    def selected(self, langs):
        """Files kept by a language selection (independent reading of the documentation)"""
        for f in self.files.values():
            if f.link:
                continue
            if langs is True:
                yield f
            elif langs is False:
                if not any(fl in LANGS for fl in f.flags):
                    yield f
            else:
                names = [langs] if isinstance(langs, str) else list(langs)
                if any(fl.lower() == n.lower() for n in names for fl in f.flags):
                    yield f

    def bundles_for(self, files):
        return {self.chunk_bundle[c.id].id for f in files for c in f.chunks}


def bundle_path(bid):
    return f"channels/public/bundles/{bid:016X}.bundle"


class Release:
    def __init__(self, idx, patchline, version, client, game, secure=False):
        self.idx, self.patchline, self.version = idx, patchline, version
        self.client, self.game = client, game
        self.secure = secure

    def url(self, elem):
        base = BASE
        if self.secure:
            base = base.replace("lol.", "lol.secure.", 1)
        return base + self.elem(elem).path

    def versions(self):
        return {self.client.version, self.game.version}

    def elem(self, name):
        return {'client': self.client, 'game': self.game}[name]


class Cdn:
    """Published releases per patchline, and the HTTP server in front of them"""

    def __init__(self, rng, opts=None):
        self.rng = rng
        self.opts = opts or {}
        self.releases = {'live': [], 'pbe': []}
        self.files = {}         # url path -> bytes
        self.all_files = {}     # hexdigest -> content, for every file ever published
        self.pool = []          # chunks that later releases may reuse
        self.nrel = 0
        self.config_url = CLIENTCONFIG
        # chunks whose IDs are short and look alike, in a few worlds
        # (decided without a draw: other worlds are those they were without it)
        self.short_ids = {} if sum(rng.getstate()[1][:8]) % 20 == 0 else None

    # -- content
    def _data(self, n=None):
        rng = self.rng
        if n is None:
            n = rng.choice([0, 1, 5, 40, 200, 900, 900, 5000]) if not self.opts.get('small') else rng.choice([1, 5, 40, 200])
        k = rng.random()
        if k < 0.4:
            return rng.randbytes(n)
        return (b"%06d-" % rng.randrange(1000000)) * (n // 7) + rng.randbytes(n % 7)

    def _make(self, data):
        c = rman.Chunk(data)
        if self.short_ids is not None:
            if c.id not in self.short_ids and len(self.short_ids) < 16:
                self.short_ids[c.id] = int('1' * (len(self.short_ids) + 1), 16)
            c.id = self.short_ids.get(c.id, c.id)
        return c

    def _chunk(self):
        rng = self.rng
        if self.pool and rng.random() < 0.35:
            return rng.choice(self.pool)
        c = self._make(self._data())
        self.pool.append(c)
        return c

    def _edit(self, chunks):
        """Chunks of a file which differs slightly from another one"""
        rng = self.rng
        cs = list(chunks)
        k = rng.randrange(6)
        if k == 0 or not cs:
            cs.append(self._chunk())
        elif k == 1:
            cs.pop(rng.choice([0, -1]))
        elif k == 2:
            cs[-1] = self._chunk()
        elif k == 3:
            cs[rng.randrange(len(cs))] = self._chunk()
        elif k == 4:
            cs.insert(rng.randrange(len(cs)), rng.choice(cs))
        else:
            i, j = rng.randrange(len(cs)), rng.randrange(len(cs))
            cs[i], cs[j] = cs[j], cs[i]
        return cs

    def _chunks_for(self, data, split=True):
        rng = self.rng
        if not split or len(data) < 8 or rng.random() < 0.5:
            return [self._make(data)]
        k = rng.randrange(1, len(data))
        return [self._make(data[:k]), self._make(data[k:])]

    def _manifest(self, elem, version, marker, prev, build):
        """Content of an element: version file, marker file, files kept from `prev`, new files"""
        rng = self.rng
        files = []
        used = set()

        def add(f):
            if f.name.lower() not in used:
                used.add(f.name.lower())
                files.append(f)
        if elem == 'client':
            fmt = rng.choice(['branch: "Release/%s"\n', "branch: Release/%s\n", "game-branch: 'x/%s'\n", "    branch: \"Releases/%s\"\n"])
            text = "region_data: 1\nfoo: bar\n" + fmt % version + "other: 'x'\n" * rng.randrange(3)
            add(rman.File('system.yaml', self._chunks_for(text.encode())))
        else:
            text = json.dumps({'version': f"{version}.{build}.{rng.randrange(10**6)}+branch.releases-{version.replace('.', '-')}", 'x': 'y' * rng.randrange(50)})
            add(rman.File('content-metadata.json', self._chunks_for(text.encode())))
        add(rman.File(f'marker/{elem}-{build - 100}.txt', [self._make(marker.encode())]))
        if prev is not None:
            for f in prev.files.values():
                if f.name in ('system.yaml', 'content-metadata.json') or f.name.startswith('marker/') or f.extra:
                    continue
                k = rng.random()
                if k < 0.6:
                    add(f)                              # unchanged
                elif k < 0.75 and not f.link:
                    if rng.random() < 0.6:
                        cs = self._edit(f.chunks)       # a few chunks differ, as in most updates
                    else:
                        cs = [self._chunk() for _ in range(rng.randrange(1, 4))]
                    add(rman.File(f.name, cs, f.flags))
                elif k < 0.85 and not f.link:
                    add(rman.File(f.name + 'x', f.chunks, f.flags))   # renamed
        for f in self.opts.get('extra_files', {}).get(elem, ()):
            f.extra = True
            add(f)
        for _ in range(rng.randrange(1, 1 + self.opts.get('nfiles', 6))):
            depth = rng.randrange(0, 3)
            name = '/'.join(rng.choice(['Data', 'plugins', 'Final', 'Champions', 'maps', 'DATA']) for _ in range(depth))
            name = (name + '/' if name else '') + f"{rng.choice(['f', 'Skin', 'wad', 'x-y z', 'é'])}{rng.randrange(30)}{rng.choice(['.wad.client' if not self.opts.get('no_wads') else '.dat', '.txt', '', '.DLL'])}"
            if any(o.startswith(name.lower() + '/') for o in used) or any(name.lower().startswith(o + '/') for o in used):
                continue
            # elements of a release share a directory: their file names are disjoint, as Riot's are
            head, _, tail = name.rpartition('/')
            name = (head + '/' if head else '') + elem[0] + tail
            if name.lower() in used:
                continue
            flags = []
            if rng.random() < 0.4:
                flags.append(rng.choice(LANGS))
                if rng.random() < 0.2:
                    flags.append(rng.choice([x for x in LANGS if x not in flags]))
            if rng.random() < 0.3:
                flags.append(rng.choice(['windows', 'macos', 'x64', 'no_lang', 'a_b']))
            if rng.random() < 0.08 and not self.opts.get('no_links'):
                add(rman.File(name, [], flags, link='target/of/link'))
            else:
                n = rng.choice([0, 1, 1, 1, 2, 2, 3, 5, 9])
                cs = [self._chunk() for _ in range(n)]
                if cs and rng.random() < 0.15:
                    cs.append(cs[0])
                like = [o for o in files if not o.link and o.name not in ('system.yaml', 'content-metadata.json') and len(o.chunks) > 1]
                if like and rng.random() < 0.2:
                    cs = self._edit(max(rng.sample(like, min(2, len(like))), key=lambda o: len(o.chunks)).chunks)
                add(rman.File(name, cs, flags))
        rng.shuffle(files)
        # bundles: group chunks, keeping already published ones
        known = {}
        if prev is not None:
            for b in prev.bundles:
                for c in b.chunks:
                    known.setdefault(c.id, b)
        bundles, fresh = [], []
        seen = set()
        for f in files:
            for c in f.chunks:
                if c.id in seen:
                    continue
                seen.add(c.id)
                if c.id in known:
                    if known[c.id] not in bundles:
                        bundles.append(known[c.id])
                else:
                    fresh.append(c)
        have = {c.id for b in bundles for c in b.chunks}
        fresh = [c for c in fresh if c.id not in have]
        rng.shuffle(fresh)
        while fresh:
            k = rng.choice([1, 2, 3, 6])
            bundles.append(rman.Bundle(fresh[:k]))
            fresh = fresh[k:]
        rng.shuffle(bundles)
        names = sorted({fl for f in files for fl in f.flags} | {'en_US'})
        ids = list(range(1, 65))
        rng.shuffle(ids)
        flags = dict(zip(names, ids))
        m = Manifest(files, bundles, flags, (elem, marker))
        m.mid = build - 100
        m.version = version
        return m

    def publish(self, patchline, version, change=('client', 'game'), again=None):
        """Publish a release. Elements not in `change` keep their manifest

        again -- index of an earlier release to publish a second time (rollback)
        """
        rels = self.releases[patchline]
        if again is not None and again < len(rels):
            old = rels[again]
            r = Release(self.nrel, patchline, old.version, old.client, old.game, secure=self.opts.get('secure', False))
            self.nrel += 1
            rels.append(r)
            return r
        prev = rels[-1] if rels else None
        idx = self.nrel
        self.nrel += 1
        elems = {}
        for name in ('client', 'game'):
            if prev is not None and name not in change:
                elems[name] = prev.elem(name)
            else:
                base = prev.elem(name) if prev is not None else None
                if base is None:
                    other = self.releases['pbe' if patchline == 'live' else 'live']
                    if other and self.rng.random() < 0.7:
                        base = other[-1].elem(name)     # patchlines share content
                elems[name] = self._manifest(name, version, f"{patchline} {idx} {name}", base, 100 + idx)
        r = Release(idx, patchline, version, elems['client'], elems['game'], secure=self.opts.get('secure', False))
        rels.append(r)
        for m in elems.values():
            self.files[m.path] = m.data
            for b in m.bundles:
                self.files[bundle_path(b.id)] = b.data
            for f in m.files.values():
                self.all_files[f.hexdigest()] = f.content
        return r

    def current(self, patchline):
        return self.releases[patchline][-1]

    # -- server
    def client_config(self):
        doc = {}
        for pl, rels in self.releases.items():
            if not rels:
                continue
            confs = [{'id': i, 'patch_url': 'https://lol.dyn.riotcdn.net/channels/public/releases/0123456789ABCDEF.manifest'} for i in ('BR', 'EUNE', 'NA', 'RU')]
            confs.insert((rels[-1].idx + 2) % 5, {'id': 'PBE' if pl == 'pbe' else 'EUW', 'patch_url': rels[-1].url('client')})
            doc[f"keystone.products.league_of_legends.patchlines.{pl}"] = {'platforms': {
                'mac': {'configurations': [{'id': 'EUW', 'patch_url': 'https://lol.dyn.riotcdn.net/channels/public/releases/0000000000000001.manifest'}]},
                'win': {'configurations': confs}}}
        return doc

    def handle(self, method, url, headers):
        if url.startswith(BASE):
            data = self.files.get(url[len(BASE):])
            if data is None:
                return 404, {'Content-Type': 'text/html'}, b'<html>not found</html>'
            return 200, {'Content-Type': 'application/octet-stream'}, data
        if url == self.config_url:
            return 200, {'Content-Type': 'application/json', 'X-Sim-Gzip-Ok': '1'}, json.dumps(self.client_config()).encode()
        if url == CLIENTCONFIG:
            return 403, {'Content-Type': 'text/html'}, b'<html>forbidden</html>'
        if url.startswith(SIEVE):
            platform = url[len(SIEVE):].split('?')[0]
            pl = {'PBE1': 'pbe', 'EUW1': 'live'}.get(platform)
            if pl is None or not self.releases[pl]:
                return 404, {}, b''
            doc = {'releases': [{'release': {'id': 'x'}, 'download': {'url': self.releases[pl][-1].url('game')}}]}
            return 200, {'Content-Type': 'application/json', 'X-Sim-Gzip-Ok': '1'}, json.dumps(doc).encode()
        return 404, {'Content-Type': 'text/html'}, b'<html>not found</html>'
