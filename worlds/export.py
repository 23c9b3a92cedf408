"""World of exports: a patcher storage whose releases hold archives and plain files, and
directories to which patches are exported, one after the other, with faults"""
import json
import os
import re
import shutil

from . import cdn, gamefmt, rman, wadfmt
from .base import World, gen_knobs, gen_policy, looks_temporary, read_bytes, rng_for

import cdtb.__main__ as cli

STORE = 'cdn'
LOCALE = re.compile(r'\.\w\w_\w\w\.wad\.client$')


class Item:
    """A file of the game or client: an archive entry or a plain file

    path -- real path (hashed in archives)
    data -- content
    conv -- kind of conversion: None (copied), 'image', 'bin', 'skn', 'rst', 'json' (only a JSON is exported)
    spec -- expected output of the conversion, None if it cannot be converted
    """

    def __init__(self, path, data, conv, spec, known=True, ext=None, kind=0, chunks=None):
        self.path, self.data, self.conv, self.spec, self.known, self.ext = path, data, conv, spec, known, ext
        self.kind, self.chunks = kind, chunks
        self.entry = wadfmt.Entry(path, data, kind, known=known, ext=ext, chunks=chunks)


def vint(version):
    if version == 'main':
        return 9999
    a, b = version.split('.')
    return int(a) * 100 + int(b)


class Target:
    """What an export of a release must produce"""

    def __init__(self):
        self.sources = []       # (key, [(output path, spec)], [listed paths], origin)
        self.unknown = set()

    def listed(self):
        return {p for s in self.sources for p in s['listed']}

    def files(self):
        return {p: spec for s in self.sources for p, spec in s['outputs'].items()}


class ExportWorld(World):
    name = 'export'

    def setup(self):
        p = self.params
        self.rng = rng_for('export', self.seed, p.get('content', 0))
        self.pl = p['pl']
        opts = dict(p.get('cdn', {}), no_wads=True, no_links=True, nfiles=p.get('nplain', 2), small=True)
        self.cdn = cdn.Cdn(rng_for('content', self.seed, p.get('content', 0)), opts)
        self.state = {'client': {}, 'game': {}}     # elem -> {archive or plain path: [Item] or bytes}
        self.known = {'lcu': set(), 'game': set()}
        self.serial = 0
        self.manifest_state = {}    # id of manifest -> (version, elem, state)
        self.targets = {}           # release idx -> Target
        self.recorded_rels = []
        self.outdirs = {}           # (out, version) -> what is known about the directory
        home = self.path('home', 'hashes')
        os.makedirs(home)
        self.write_hashes()

    # -- content

    def write_hashes(self):
        home = self.path('home', 'hashes')
        for n in ('lcu', 'game'):
            with open(os.path.join(home, f'hashes.{n}.txt'), 'w') as f:
                f.write(wadfmt.hash_list(self.known[n]))
        for n, names in gamefmt.BIN_NAMES.items():
            with open(os.path.join(home, f'hashes.{n}.txt'), 'w') as f:
                f.write(''.join(f"{gamefmt.fnv(x):08x} {x}\n" for x in names))
        for n, v in (('rst.xxh64', 1000), ('rst.xxh3', 1500)):
            with open(os.path.join(home, f'hashes.{n}.txt'), 'w') as f:
                f.write(''.join(f"{gamefmt.rst_hash(x, v):016x} {x}\n" for x in gamefmt.RST_KEYS))

    def new_stem(self):
        self.serial += 1
        return f"{self.rng.choice(['f', 'skin', 'icon', 'x_'])}{self.serial}"

    def make_item(self, elem, dirs, version, localized=False):
        """A new archive entry"""
        rng = self.rng
        if elem == 'client':
            kinds = ['copy', 'copy', 'json', 'image', 'image', 'badimage', 'noext', 'skn', 'dll', 'empty']
        else:
            kinds = ['image', 'image', 'image', 'badimage', 'bin', 'bin', 'skn', 'rst', 'copy', 'json', 'drop', 'drop', 'skinsbin', 'badbin', 'atlas', 'atlas2']
            if localized:
                kinds = [k for k in kinds if k not in ('atlas', 'atlas2')]
        kind = rng.choice(kinds)
        d = '/'.join(dirs + [rng.choice(['a', 'b', 'deep/er', 'c d']) for _ in range(rng.randrange(0, 3))])
        stem = d + '/' + self.new_stem()
        known = rng.random() < 0.75
        return self.content(kind, stem, version, known)

    def content(self, kind, stem, version, known=True):
        rng = self.rng
        if kind in ('image', 'badimage'):
            fmt = rng.choice(['dds', 'tga', 'tex'])
            if kind == 'badimage':
                # recognised by their extension only, cut short, or of an unknown format
                data = (b'TEX\0' if fmt == 'tex' else b'DDS ' if fmt == 'dds' else b'') + rng.randbytes(5)
                if fmt == 'tex' and rng.random() < 0.5:
                    data += b'\x63' + rng.randbytes(rng.choice([2, 30]))
                return Item(f"{stem}.{fmt}", data, 'image', None, True, fmt)
            size, rgba = gamefmt.pixels(rng)
            data = {'dds': gamefmt.dds, 'tga': gamefmt.tga}.get(fmt, lambda s, x: gamefmt.tex(s, x, rng.random() < 0.5, rng))(size, rgba)
            if fmt == 'tga':
                known = True    # nothing recognises its content
            return Item(f"{stem}.{fmt}", data, 'image', ('png', size, rgba), known, fmt)
        if kind == 'bin':
            data, obj = gamefmt.random_bin(rng)
            return Item(f"{stem}.bin", data, 'bin', ('json', obj), known, 'bin')
        if kind == 'badbin':
            return Item(f"{stem}.bin", b'XXXX' + rng.randbytes(20), 'bin', None, True, None)
        if kind == 'skinsbin':
            data, obj = gamefmt.random_bin(rng)
            return Item(f"{stem}_skins_skin1.bin", data, 'bin', ('json', obj), True, 'bin')
        if kind == 'skn':
            data, objs = gamefmt.random_skn(rng)
            return Item(f"{stem}.skn", data, 'skn', objs, known, 'skn')
        if kind == 'rst':
            data, obj, _ = gamefmt.random_rst(rng, vint(version))
            it = Item(f"data/menu/{stem}.{rng.choice(['txt', 'stringtable'])}", data, 'rst', ('json', obj), True, None)
            it.version = vint(version)
            return it
        if kind == 'atlas':
            data, obj = gamefmt.random_atlas(rng)
            return Item(f"assets/items/icons2d/autoatlas/{self.new_stem()}/atlas_info.bin", data, 'json', ('json', obj), True, None)
        if kind == 'atlas2':
            data, obj = gamefmt.random_atlas(rng)
            return Item(stem, data, 'json', ('json', obj), True, None)
        if kind == 'skininfo':
            data, obj = gamefmt.random_skininfo(rng)
            return Item("global/champions/championskins.info", data, 'json', ('json', obj), True, None)
        if kind == 'json':
            return Item(f"{stem}.json", json.dumps({'k': rng.randrange(10**6)}).encode(), None, None, known, 'json')
        if kind == 'dll':
            return Item(f"{stem}.{rng.choice(['dll', 'exe'])}", rng.randbytes(20), None, None, True, None)
        if kind == 'empty':
            return Item(f"{stem}.css", b'', None, None, known, None)
        if kind == 'noext':
            magic, ext = rng.choice([(b'\xfe\xfd', None), (b'OggS', 'ogg'), (b'GIF89a', 'gif')])
            return Item(stem, magic + rng.randbytes(30), None, None, known, ext)
        if kind == 'drop':
            return Item(f"{stem}.{rng.choice(['scb', 'anm', 'bnk'])}", b'r3d2Mesh' + rng.randbytes(30), None, None, known, 'scb')
        magic, ext = rng.choice([(b'\x89PNG\r\n\x1a\n', 'png'), (b'OggS', 'ogg'), (b'\x00\x01\x00\x00', 'ttf'), (b'OTTO\0', 'otf'), (b'\xfe\xfd', 'txt')])
        if ext == 'txt':
            known = True
        return Item(f"{stem}.{ext}", magic + rng.randbytes(rng.choice([0, 10, 300, 3000])), None, None, known, None if ext == 'txt' else ext)

    def set_storage(self, items):
        """Choose how each new item is stored in its archive"""
        rng = self.rng
        v = tuple(self.params['version'])
        for it in items:
            if getattr(it, 'placed', False):
                continue
            it.placed = True
            it.kind = rng.choice({1: [0, 1], 2: [0, 1, 3]}.get(v[0], [0, 1, 3, 3]))
            e = it.entry
            e.kind = it.kind
            if it.path.endswith('license'):
                e.kind = 0
            if e.ext is None and not it.known:
                e.ext = it.ext

    def evolve(self, elem, version):
        """Next state of an element: archives and plain files"""
        rng = self.rng
        old = self.state[elem]
        new = {}
        p = self.params
        if elem == 'client':
            names = ['Plugins/rcp-be-lol-x/assets.wad', 'plugins/rcp-fe-y/default-assets.wad', 'Plugins/rcp-fe-z/fr_fr-assets2.wad']
        else:
            names = ['DATA/FINAL/Champions/Annie.wad.client', 'DATA/FINAL/Global.wad.client', 'DATA/FINAL/Maps/Shipping/Map11.wad.client',
                     'DATA/FINAL/UI.wad.client']
        names = names[:p.get('nwads', 2)]
        if elem == 'game' and p.get('lang_wad'):
            names.append('DATA/FINAL/Champions/Annie.fr_FR.wad.client')
        if elem == 'game' and vint(version) >= 1404:
            names.append('DATA/FINAL/Localized/Global.en_US.wad.client')
        for n in names:
            needed = elem == 'game' and (n == names[0] or 'Localized' in n)
            if n in old:
                if rng.random() < 0.08 and not needed:
                    continue
                items = []
                calm = rng.random() < 0.35
                for it in old[n]:
                    if getattr(it, 'dup', False):
                        continue
                    k = rng.random()
                    if it.conv == 'rst' and getattr(it, 'version', None) != vint(version) and not getattr(it, 'fixed', False):
                        k = 0.7     # hashes of keys depend on the version
                        items.append(self.changed(it, version))
                    elif calm or k < 0.6 or getattr(it, 'fixed', False):
                        items.append(it)
                    elif k < 0.85:
                        items.append(self.changed(it, version))
                if not calm:
                    for _ in range(rng.randrange(0, 3)):
                        items.append(self.make_item(elem, self.dirs_of(elem, n), version, bool(LOCALE.search(n))))
            elif old and rng.random() < 0.3 and not needed:
                continue
            else:
                items = [self.make_item(elem, self.dirs_of(elem, n), version, bool(LOCALE.search(n))) for _ in range(rng.randrange(1, 1 + p.get('nentries', 5)))]
                if n == 'DATA/FINAL/Global.wad.client' and rng.random() < 0.5:
                    items.append(self.content('skininfo', '', version))
            if elem == 'game':
                items = self.add_required(items, n, names, version)
            if items:
                new[n] = items
        # duplicates: the same entry in several archives
        gw = [n for n in new if n.endswith('.wad.client') and not LOCALE.search(n)]
        if len(gw) > 1 and rng.random() < 0.4:
            src = [it for it in new[gw[0]] if not getattr(it, 'fixed', False)]
            if src:
                it = rng.choice(src)
                d = Item(it.path, it.data, it.conv, it.spec, it.known, it.ext, it.kind, it.chunks)
                d.entry = it.entry
                d.dup = d.placed = True
                if not any(x.path == d.path for x in new[gw[1]]):
                    new[gw[1]].append(d)
        for n in [n for n in new if not new[n]]:
            del new[n]
        for n, items in new.items():
            self.set_storage(items)
            which = 'game' if n.endswith('.client') else 'lcu'
            self.known[which] |= {it.path for it in items if it.known}
        if elem == 'client':
            if rng.random() < 0.7:
                new['Plugins/rcp-be-lol-x/description.json'] = b'{"plain": 1}'
            new['Config/settings.yaml'] = old.get('Config/settings.yaml') if rng.random() < 0.6 and 'Config/settings.yaml' in old else b'a: %d' % rng.randrange(10**6)
            if rng.random() < 0.4:
                new['Resources/Logo.TGA.png'] = b'\x89PNG' + rng.randbytes(8)
            if rng.random() < 0.5:
                size, rgba = gamefmt.pixels(rng)
                new['Resources/pic.dds'] = Item('Resources/pic.dds', gamefmt.dds(size, rgba), 'image', ('png', size, rgba))
        self.state[elem] = new
        return new

    @staticmethod
    def dirs_of(elem, archive):
        if elem == 'client':
            return ['plugins', archive.split('/')[1].lower(), 'global']
        return ['assets', 'characters']

    def changed(self, it, version):
        """Another content for the same path"""
        rng = self.rng
        for _ in range(20):
            if it.path == 'global/champions/championskins.info':
                kind = 'skininfo'
            elif it.conv == 'json':
                kind = 'atlas'
            elif it.conv == 'rst':
                kind = 'rst'
            elif it.conv == 'bin' and it.spec is not None:
                kind = 'bin'
            elif it.conv == 'skn':
                kind = 'skn'
            elif it.conv == 'image' and it.known:
                kind = rng.choice(['image', 'image', 'badimage'])
            else:
                kind = None
            if kind is None:
                if it.conv is not None:
                    return it       # keep it as it is
                data = it.data[:8] + rng.randbytes(40) if it.ext != 'json' else json.dumps({'new': rng.randrange(10**6)}).encode()
                return Item(it.path, data, None, None, it.known, it.ext)
            new = self.content(kind, 'x/stem', version)
            ext = os.path.splitext(new.path)[1]
            if kind in ('image', 'badimage') and ext != os.path.splitext(it.path)[1]:
                continue
            res = Item(it.path, new.data, new.conv, new.spec, it.known, new.ext if kind != 'badimage' else it.ext)
            res.version = vint(version)
            return res
        return it

    def add_required(self, items, archive, names, version):
        """Files from which TFT and Arena data are generated"""
        rng = self.rng
        v = vint(version)
        items = [it for it in items if not getattr(it, 'fixed', False)]
        localized = any('Localized' in n for n in names)
        here = [archive == names[0], archive == names[0] or 'Localized' in archive]
        if localized:
            here = [archive == names[0], 'Localized' in archive]
        if v < 914 or not any(here):
            return items

        def add(path, data, conv, spec):
            it = next((x for x in self.fixed.values() if x.path == path and x.data == data), None) if hasattr(self, 'fixed') else None
            it = it or Item(path, data, conv, spec)
            it.fixed = True
            items.append(it)
            return it
        if here[0] and (not hasattr(self, 'fixed_data') or rng.random() < 0.5):
            rst = gamefmt.random_rst(rng, v, {'game_item_name': f"Item {rng.randrange(100)}", 'augment_name': 'Augment'})
            self.fixed_data = (rst, gamefmt.tft_bin(rng, rst[2]), gamefmt.arena_bin(rng), v)
            self.fixed = {}
        elif self.fixed_data[3] != v:
            # string tables depend on the version
            rst = gamefmt.random_rst(rng, v, {'game_item_name': f"Item {rng.randrange(100)}", 'augment_name': 'Augment'})
            self.fixed_data = (rst, *self.fixed_data[1:3], v)
        rst, tft, arena, _ = self.fixed_data
        tables = ['data/menu/main_en_us.stringtable']
        if localized:
            tables = [f"data/menu/en_us/{n}.stringtable" for n in (['main'] if v < 1500 else ['lol', 'tft'])]
        for path, data, conv, spec, where in (
                *((t, rst[0], 'rst', ('json', rst[1]), 1) for t in tables),
                ('data/maps/shipping/map22/map22.bin', tft[0], 'bin', ('json', tft[1]), 0),
                ('data/maps/shipping/map30/map30.bin', arena[0], 'bin', ('json', arena[1]), 0)):
            if here[where]:
                self.fixed[path] = add(path, data, conv, spec)
        return items

    def tft_expected(self, state_fixed):
        rst, tft, arena, v = state_fixed
        tr = rst[2]
        items = []
        for api, name, desc in tft[2]:
            items.append({"id": None, "name": tr.get(name, name), "apiName": api, "desc": tr.get(desc, desc), "icon": "None", "isAugment": False,
                          "unique": False, "composition": [], "associatedTraits": [], "incompatibleTraits": [], "effects": {}, "tags": [], "from": None})
        return {"sets": {}, "setData": [], "items": items}

    # -- publication and its model

    def op_publish(self, op):
        version = op['version']
        extra = {}
        change = op.get('change', ['client', 'game'])
        content_version = 'main' if self.pl == 'pbe' else version
        for elem in ('client', 'game'):
            if self.cdn.releases[self.pl] and elem not in change:
                continue
            state = self.evolve(elem, content_version)
            files = []
            for n, content in state.items():
                flags = []
                m = re.search(r'\.(\w\w_\w\w)\.wad\.client$', n)
                if m:
                    flags = [m.group(1)]
                if isinstance(content, list):
                    data = wadfmt.encode([it.entry for it in content], tuple(self.params['version']), rng_for('enc', n, version, self.seed))
                elif isinstance(content, Item):
                    data = content.data
                else:
                    data = content
                files.append(rman.File(n, self.cdn._chunks_for(data), flags))
            extra[elem] = files
        self.cdn.opts['extra_files'] = extra
        rel = self.cdn.publish(self.pl, version, tuple(change))
        for elem in extra:
            self.manifest_state[id(rel.elem(elem))] = (version, elem, self.state[elem])
        self.write_hashes()
        rel.target = self.target_of(rel)
        rel.tft = getattr(self, 'fixed_data', None)

    def op_wait(self, op):
        self.mono += op['s']
        self.wall += op['s']

    def target_of(self, rel):
        """Model of a full export of a release"""
        t = Target()
        version = 'main' if self.pl == 'pbe' else rel.version
        for elem in ('client', 'game'):
            man = rel.elem(elem)
            _, _, state = self.manifest_state[id(man)]
            for f in man.files.values():
                if f.link:
                    continue
                low = f.name.lower()
                st = state.get(f.name)
                if isinstance(st, list):
                    self.target_archive(t, low, st, version)
                elif low.endswith(('.dll', '.exe')) or low.endswith('/description.json'):
                    continue
                elif isinstance(st, Item):
                    it = Item(low, st.data, st.conv, st.spec)
                    t.sources.append(self.source(low, it, ('plain', low)))
                else:
                    t.sources.append({'outputs': {low: ('bytes', f.content)}, 'listed': [low], 'origin': ('plain', low), 'id': None})
        return t

    def target_archive(self, t, archive, items, version):
        game = archive.endswith('.wad.client')
        for it in items:
            if it.entry.kind == 2:
                continue
            unknown = 'unknown'
            m = re.search(r'^(plugins/rcp-[^/]+)/[^/]*assets\d*\.wad$', archive)
            if m:
                unknown = m.group(1) + '/unknown'
            if not it.known:
                t.unknown.add(it.entry.hash)
            path = it.entry.final_path(unknown)
            if path.endswith(('.dll', '.exe')):
                continue
            if game:
                sub = 'game'
                m = re.search(r'\.(\w\w_\w\w)\.wad\.client$', archive)
                if m and vint(version) >= 1404:
                    sub = f"game/{m.group(1).lower()}"
                path = f"{sub}/{path}"
            s = self.source(path, it, ('wad', archive))
            if game:
                keep = False
                for p in s['listed']:
                    ext = os.path.splitext(p)[1]
                    if ext == '.bin':
                        keep = '_skins_' not in p
                        break
                    keep = keep or ext in ('.png', '.skn', '.txt', '.stringtable', '.json', '.ttf', '.otf')
                if not keep:
                    continue
            t.sources.append(s)

    @staticmethod
    def source(path, it, origin):
        base, ext = os.path.splitext(path)
        copy = {path: ('bytes', it.data)}
        if it.conv == 'image':
            listed = [base + '.png']
            outputs = {base + '.png': it.spec} if it.spec is not None else {}
        elif it.conv == 'bin' and path.startswith('game/'):
            listed = [path, path + '.json']
            outputs = dict(copy)
            if it.spec is not None:
                outputs[path + '.json'] = it.spec
        elif it.conv == 'rst':
            listed = [path, path + '.json']
            outputs = dict(copy)
            outputs[path + '.json'] = it.spec
        elif it.conv == 'skn':
            listed = [path, base]
            outputs = dict(copy)
            for n, text in it.spec.items():
                outputs[f"{base}/{n}.obj"] = ('bytes', text.encode())
        elif it.conv == 'json':
            listed = [path + '.json']
            outputs = {path + '.json': it.spec}
        else:
            listed = [path]
            outputs = copy
        return {'outputs': outputs, 'listed': listed, 'origin': origin, 'id': it.entry, 'path': path}

    @staticmethod
    def unchanged_sources(t, prev, compare):
        """Sources that are the same in the previous patch: archive entries with the same stored data"""
        if not compare:
            return set()
        old, old_paths = {}, {}
        for s in prev.sources:
            if s['origin'][0] == 'wad':
                old[(s['origin'][1], s['id'].hash)] = s['id']
                old_paths[(s['origin'][1], s['id'].hash)] = s['path']
        res = set()
        for i, s in enumerate(t.sources):
            if s['origin'][0] == 'wad':
                o = old.get((s['origin'][1], s['id'].hash))
                if o is not None and old_paths[(s['origin'][1], s['id'].hash)] == s['path'] and (o is s['id'] or (o.data == s['id'].data and o.kind == s['id'].kind)):
                    res.add(i)
        return res

    # -- commands

    def release(self, version):
        """Latest recorded release of a version"""
        for rel in reversed(self.cdn.releases[self.pl]):
            if self.pl == 'pbe' or rel.version == version:
                return rel
        return None

    def vname(self, version):
        return 'main' if self.pl == 'pbe' else version

    def argv(self, c):
        if c['cmd'] == 'download':
            return ['download', '-s', STORE, '--patchline', self.pl, 'patch=']
        argv = ['export', '-s', STORE, '--patchline', self.pl]
        if c.get('out', 'export') != 'export':
            argv += ['-o', c['out']]
        if c.get('links'):
            argv.append('-L')
        if c.get('lazy'):
            argv.append('--lazy')
        if c['cmd'] == 'update':
            return argv + ['--from', c['first']]
        if c.get('previous') is None:
            argv.append('--full')
        elif c['previous'] != 'guess':
            argv += ['--previous', c['previous']]
        return argv + ['latest' if c.get('latest') else self.vname(c['version'])]

    def op_foreign(self, op):
        """Something else leaves files in an output directory"""
        rng = rng_for('foreign', self.seed, op.get('salt', 0))
        base = self.path(op['out'], self.vname(op['version']))
        rel = self.release(op['version'])
        if rel is None:
            return
        paths = sorted(rel.target.files())
        os.makedirs(base, exist_ok=True)
        info = self.outdirs.setdefault((op['out'], op['version']), {})
        info['foreign'] = True
        info['complete'] = None
        outside = self.path('outside')
        os.makedirs(outside + '/dir', exist_ok=True)
        for n in ('file.txt', 'dir/inner.txt'):
            with open(os.path.join(outside, n), 'w') as f:
                f.write('outside')
        for what in op['what']:
            p = rng.choice(paths) if paths else 'x'
            full = os.path.join(base, p)
            if what == 'file':
                full = os.path.join(base, rng.choice(['zz/foreign.txt', 'foreign.bin', 'game/assets/foreign.png', 'plugins/foreign/x/y.json']))
            if what == 'emptydir':
                try:
                    os.makedirs(os.path.join(base, rng.choice(['empty/dir', 'game/empty', 'plugins/rcp-be-lol-x/void'])), exist_ok=True)
                except OSError:
                    pass
                continue
            if what == 'fileasdir':
                if '/' not in p:
                    continue
                full = os.path.join(base, rng.choice([os.path.dirname(p), p.split('/')[0]]))
            if what == 'linkdir':
                if '/' not in p:
                    continue
                full = os.path.join(base, rng.choice([os.path.dirname(p), p.split('/')[0]]))
            try:
                if self.escapes_base(base, full):
                    continue
                os.makedirs(os.path.dirname(full), exist_ok=True)
                if os.path.isdir(full) and not os.path.islink(full):
                    if what in ('linkdir', 'fileasdir'):
                        shutil.rmtree(full)
                    else:
                        continue
                if os.path.lexists(full):
                    os.remove(full)
                if what in ('file', 'stale', 'fileasdir'):
                    with open(full, 'wb') as f:
                        f.write(b'stale content')
                elif what == 'link':
                    os.symlink(os.path.relpath(os.path.join(outside, 'file.txt'), os.path.dirname(full)), full)
                elif what == 'linkdir':
                    os.symlink(os.path.relpath(os.path.join(outside, 'dir'), os.path.dirname(full)), full)
            except OSError:
                pass

    def op_relocate(self, op):
        """The user keeps the export of a version elsewhere, and a link to it"""
        base = self.path(op['out'], self.vname(op['version']))
        dst = self.path('disk2', 'far', 'away', self.vname(op['version']) + '-moved')
        if os.path.islink(base) or os.path.exists(dst):
            return
        os.makedirs(os.path.dirname(base), exist_ok=True)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        if os.path.exists(base):
            if any(kind == 'link' for kind, _ in self.walk(base).values()):
                return  # relative links would not survive
            os.rename(base, dst)
        else:
            os.mkdir(dst)
        os.symlink(os.path.relpath(dst, os.path.dirname(base)), base)

    @staticmethod
    def escapes_base(base, full):
        return os.path.relpath(os.path.realpath(os.path.dirname(full)), os.path.realpath(base)).startswith('..')

    def op_cmd(self, op):
        if op['cmd'] in ('update', 'export') and not self.cdn.releases[self.pl]:
            return
        out = op.get('out', 'export')
        if op['cmd'] == 'download':
            r = self.run([lambda: cli.main(self.argv(op))], op=op, server=self.cdn.handle)
            self.recorded.append(r)
            self.say(f"op {self.op_index} download -> {r.describe()} fired={r.fired}")
            if not r.ok() and not r.fired:
                self.violation('C01', 'fails-without-fault', f"download fails: {r.describe()}")
            if r.ok():
                self.recorded_rels = list(self.cdn.releases[self.pl])
            return
        if op['cmd'] == 'update':
            self.cmd_update(op, out)
        else:
            self.cmd_export(op, out)

    def blame(self, op, r, links=False):
        props = ['C10', 'C11'] if links else ['C10']
        if op.get('together'):
            props.append('C07')
        if op.get('rerun'):
            props.append('C04')
        if op.get('lazy'):
            props.append('C12')
        if r.fired:
            props.append('C03')
        return props

    def hang(self, op, r, g=0):
        if r.status(g) in ('deadlock', 'step-cap'):
            for prop in sorted({'C04', 'C10', self.prop}):
                self.violation(prop, 'hang', f"export does not end: {r.status(g)} (fired {r.fired})")
            return True
        return False

    def guess_previous(self, version):
        """Version before the given one among those recorded"""
        vs = []
        for rel in reversed(self.cdn.releases[self.pl]):
            if rel.version not in vs:
                vs.append(rel.version)
        i = vs.index(version)
        return vs[i + 1] if i + 1 < len(vs) else None

    def resolve(self, op):
        """Version and previous version an export command is about, with its release"""
        version = self.cdn.releases[self.pl][-1].version if op.get('latest') or self.pl == 'pbe' else op['version']
        previous = op.get('previous')
        if previous == 'guess':
            previous = self.guess_previous(version)
        return version, previous, self.release(version)

    def cmd_export(self, op, out):
        version, previous, rel = self.resolve(op)
        if rel is None:
            return
        before = self.snapshot(out)
        r = self.run([lambda: cli.main(self.argv(op))], op=op, server=self.cdn.handle)
        self.recorded.append(r)
        self.say(f"op {self.op_index} {' '.join(self.argv(op))} -> {r.describe()} fired={r.fired}")
        self.after_export(op, out, version, previous, rel, r, 0, before, {self.vname(version)})

    def op_concurrent(self, op):
        """Commands of several processes that share the storage, and maybe the export directory"""
        if not self.cdn.releases[self.pl]:
            return
        cmds = []
        for c in op['cmds']:
            version, previous, rel = (None, None, None) if c['cmd'] == 'download' else self.resolve(c)
            if c['cmd'] == 'download' or rel is not None:
                cmds.append((c, version, previous, rel))
        if len({(c.get('out'), v) for c, v, _, _ in cmds}) < len(cmds):
            return      # two exports into one directory are not expected to work
        before = {c['out']: self.snapshot(c['out']) for c, _, _, _ in cmds if 'out' in c}
        names = {}
        for c, v, _, _ in cmds:
            if 'out' in c:
                names.setdefault(c['out'], set()).add(self.vname(v))
        r = self.run([lambda c=c: cli.main(self.argv(c)) for c, _, _, _ in cmds], op=op, server=self.cdn.handle)
        self.recorded.append(r)
        self.say(f"op {self.op_index} {[' '.join(self.argv(c)) for c, _, _, _ in cmds]} -> {[r.describe(g) for g in range(len(cmds))]} fired={r.fired}")
        faulty = {f['group'] for f in op.get('faults', ())} if not any(f['action'] in ('down', 'diskfull') for f in op.get('faults', ())) else range(len(cmds))
        for g, (c, version, previous, rel) in enumerate(cmds):
            if r.status(g) in ('error', 'exit') and r.fired and g not in faulty:
                self.violation('C07', 'innocent-fails', f"{' '.join(self.argv(c))} fails although only the other command was hit by {r.fired}: {r.describe(g)} at {r.groups[g].get('tb')}")
                return
            if c['cmd'] != 'download':
                self.after_export(c, c['out'], version, previous, rel, r, g, before[c['out']], names[c['out']])
            elif r.status(g) in ('deadlock', 'step-cap'):
                self.violation('C07', 'hang', f"download: {r.status(g)} (fired {r.fired})")
            elif not r.ok(g) and not r.fired:
                self.violation('C07', 'fails-without-fault', f"download fails: {r.describe(g)}")

    def after_export(self, op, out, version, previous, rel, r, g, before, names):
        if self.hang(op, r, g):
            return
        info = self.outdirs.setdefault((out, version), {})
        links = bool(op.get('links')) and previous is not None
        if not r.ok(g) and not r.fired:
            if op.get('previous') and previous is None or op.get('links') and previous is None:
                return      # no previous patch: refused
            if (op.get('lazy') or op.get('previous') and not links) and info.get('foreign'):
                return      # files left by something else are not exported again, but data are generated from them
            for prop in self.blame(op, r, links):
                self.violation(prop, 'fails-without-fault', f"{' '.join(self.argv(op))} fails: {r.describe(g)} at {r.groups[g].get('tb')}")
            return
        self.check_safety(op, r, out, [version], before, rel, names, g)
        if not r.ok(g):
            # partially exported
            info['complete'] = None
            info.setdefault('started', set()).add(rel.idx)
            return
        prev_rel = self.release(previous) if previous else None
        self.check_output(op, r, out, version, rel, previous, prev_rel, links, before)

    def cmd_update(self, op, out):
        vs = []
        for rel in reversed(self.cdn.releases[self.pl]):
            if rel.version not in vs and os.path.isdir(self.path(out, rel.version)):
                vs.append(rel.version)
        vs = [v for v in vs if tuple(map(int, v.split('.'))) >= tuple(map(int, op['first'].split('.')))]
        before = self.snapshot(out)
        r = self.run([lambda: cli.main(self.argv(op))], op=op, server=self.cdn.handle)
        self.recorded.append(r)
        self.say(f"op {self.op_index} {' '.join(self.argv(op))} (versions {vs}) -> {r.describe()} fired={r.fired}")
        if self.hang(op, r):
            return
        links = bool(op.get('links'))
        if not r.ok() and not r.fired:
            if not links and any(self.outdirs.get((out, v), {}).get('foreign') for v in vs):
                return
            for prop in self.blame(op, r, links):
                self.violation(prop, 'fails-without-fault', f"{' '.join(self.argv(op))} fails: {r.describe()} at {r.groups[0].get('tb')}")
            return
        self.check_safety(op, r, out, vs, before, None)
        if not r.ok():
            for v in vs:
                info = self.outdirs.setdefault((out, v), {})
                info['complete'] = None
                info.setdefault('started', set()).add(self.release(v).idx)
            return
        # oldest first
        vs.reverse()
        for i, v in enumerate(vs):
            previous = vs[i - 1] if i else None
            self.check_output(op, r, out, v, self.release(v), previous, self.release(previous) if previous else None,
                              links and previous is not None, before)

    # -- checks

    def walk(self, base):
        """All entries below base, not following links: {path: ('file', stat) | ('link', target) | ('dir', None)}"""
        res = {}
        todo = ['']
        while todo:
            d = todo.pop()
            full = os.path.join(base, d)
            try:
                names = os.listdir(full)
            except OSError:
                continue
            for n in names:
                rel = d + n
                p = os.path.join(base, rel)
                if os.path.islink(p):
                    res[rel] = ('link', os.readlink(p))
                elif os.path.isdir(p):
                    res[rel] = ('dir', None)
                    todo.append(rel + '/')
                else:
                    res[rel] = ('file', None)
        return res

    def snapshot(self, out):
        """State of all exports in a directory"""
        res = {}
        base = self.path(out)
        if os.path.isdir(base):
            for v in sorted(os.listdir(base)):
                t = {}
                for n, (kind, x) in self.walk(os.path.join(base, v)).items():
                    p = os.path.join(base, v, n)
                    if kind == 'file':
                        st = os.lstat(p)
                        t[n] = ('file', read_bytes(p), st.st_ino, st.st_mtime_ns)
                    elif kind == 'link':
                        t[n] = ('link', x)
                res[v] = t
        t = {}
        for n, (kind, x) in self.walk(self.path('outside')).items():
            if kind == 'file':
                t[n] = ('file', read_bytes(self.path('outside', n)))
        res[None] = t
        return res

    @staticmethod
    def is_tmp(n):
        return looks_temporary(n)

    def check_safety(self, op, r, out, versions, before, rel, names=None, g=0):
        """Whatever the ending: nothing outside of the exported directories changed, no partial output"""
        after = self.snapshot(out)
        if names is None:
            names = {self.vname(v) for v in versions}
        for v, tree in before.items():
            if v in names:
                continue
            if after.get(v) != tree:
                changed = sorted(n for n in set(tree) | set(after.get(v, {})) if tree.get(n) != after.get(v, {}).get(n))
                self.violation('C10', 'outside-changed', f"{' '.join(self.argv(op))} changed files of {v or 'another directory'}: {changed[:3]} (fired {r.fired})")
                if op.get('links'):
                    self.violation('C11', 'previous-changed', f"{' '.join(self.argv(op))} changed files of {v or 'another directory'}: {changed[:3]} (fired {r.fired})")
                return
        for v in versions:
            x = rel if rel is not None else self.release(v)
            files = x.target.files()
            old = before.get(self.vname(v), {})
            for n, e in after.get(self.vname(v), {}).items():
                if e[0] != 'file' or n.startswith('cdragon/') or n not in files and self.is_tmp(n):
                    continue
                o = old.get(n)
                if o is not None and o[0] == 'file' and o[1] == e[1]:
                    continue
                spec = files.get(n)
                err = gamefmt.check(spec, e[1]) if spec is not None else 'is no file of the patch'
                if err:
                    # some conversions may keep a readable copy before they fail
                    for prop in {'C12', 'C10'} | ({'C11'} if op.get('links') else set()):
                        self.violation(prop, 'partial-output', f"after {r.status(g)} (fired {r.fired}), {v}/{n}: {err}")
                    return

    def read_through(self, out, v, path):
        """Content of an exported path, following links; None if there is none"""
        p = self.path(out, v, path)
        if not os.path.lexists(p) or not os.path.exists(p):
            return None
        if os.path.isdir(p):
            return None
        return read_bytes(p)

    def through_link(self, out, v, path):
        parts = path.split('/')
        for i in range(1, len(parts) + 1):
            if os.path.islink(self.path(out, v, *parts[:i])):
                return True
        return False

    def check_output(self, op, r, out, version, rel, previous, prev_rel, links, before):
        v = self.vname(version)
        base = self.path(out, v)
        t = rel.target
        info = self.outdirs.setdefault((out, version), {})
        prev_info = self.outdirs.get((out, previous), {}) if previous else {}
        files = t.files()
        listed = t.listed()
        unchanged = self.unchanged_sources(t, prev_rel.target, self.params['version'][0] > 1) if prev_rel is not None else set()
        changed_out = {}
        for i, s in enumerate(t.sources):
            if i not in unchanged:
                changed_out.update(s['outputs'])
        changed_listed = {p for i, s in enumerate(t.sources) if i not in unchanged for p in s['listed']}
        blame = self.blame(op, r, links)

        def violate(cls, msg):
            for prop in blame:
                if prop == 'C10' and cls in ('changed-linked', 'not-linked', 'link-outside'):
                    continue
                self.violation(prop, cls, f"{' '.join(self.argv(op))} succeeds (fired {r.fired}) but {v}: {msg}")
        tree = self.walk(base)
        present = {n for n, e in tree.items() if e[0] != 'dir' and not n.startswith('cdragon/')}
        old = before.get(v, {})
        lazy = bool(op.get('lazy'))
        trusted_lazy = lazy and (info.get('foreign') or not info.get('started', set()) <= {rel.idx})
        lazy_dirs = set()
        if lazy:
            # sources whose outputs all exist are skipped, directories of objects included
            for i, s in enumerate(t.sources):
                for p in s['listed']:
                    if any(n == p or n.startswith(p + '/') for n in old):
                        lazy_dirs.add(p)

        def in_lazy_dir(n):
            # what something else left in an existing directory is not looked at by --lazy
            return trusted_lazy and any(n.startswith(d + '/') for d in lazy_dirs)
        prev_ok = links and prev_info.get('complete') == prev_rel.idx
        if links:
            linkset = {n for n, e in tree.items() if e[0] == 'link' and not in_lazy_dir(n)}
            # what is not changed is reached through links, what is changed is there
            for n, spec in sorted(files.items()):
                c = n in changed_out
                lk = self.through_link(out, v, n)
                if c and lk and not in_lazy_dir(n):
                    return violate('changed-linked', f"{n} changed since {previous} but is read through a link")
                if not c and not lk and not any(n == p or n.startswith(p + '/') for p in changed_listed):
                    return violate('not-linked', f"{n} did not change since {previous} but is not a link")
                if not c and not prev_ok:
                    continue
                if trusted_lazy and c:
                    continue
                data = self.read_through(out, v, n)
                err = 'missing' if data is None else gamefmt.check(spec, data)
                if err:
                    return violate('content', f"{n}: {err}" + (' (through a link)' if lk else ''))
            for n in sorted(linkset):
                target = os.path.realpath(os.path.join(base, n))
                inside = any(target.startswith(os.path.realpath(self.path(out, self.vname(x))) + os.sep) for x in {k[1] for k in self.outdirs} | {previous})
                if not inside:
                    return violate('link-outside', f"link {n} leads to {target[len(self.root):]}")
            # nothing but the expected paths is visible
            if prev_ok:
                seen = self.visible(base)
                extra = sorted(n for n in seen if n not in files and not n.startswith('cdragon/') and not (r.fired and self.is_tmp(n)))
                if extra and not trusted_lazy:
                    return violate('extra', f"{extra[:3]} visible but no file of the patch")
            else:
                extra = sorted(n for n in present if tree[n][0] == 'file' and n not in files and not (r.fired and self.is_tmp(n)))
                if extra and not trusted_lazy:
                    return violate('extra', f"{extra[:3]} present but no file of the patch")
            self.check_list(violate, base, 'files.links.txt', {n for n in linkset if not n.startswith('cdragon/')})
        else:
            for n, spec in sorted(files.items()):
                e = tree.get(n)
                o = old.get(n)
                if n not in changed_out and previous is not None:
                    # not exported: absent, or as it was
                    if e is not None and (o is None or o[0] != 'file' or read_bytes(os.path.join(base, n)) != o[1]):
                        return violate('unchanged-touched', f"{n} did not change since {previous} but was modified")
                    continue
                if e is None:
                    if trusted_lazy:
                        continue
                    return violate('missing', f"{n} is missing")
                if e[0] != 'file' and not in_lazy_dir(n):
                    return violate('not-a-file', f"{n} is a {e[0]}")
                if e[0] != 'file':
                    continue
                data = read_bytes(os.path.join(base, n))
                if trusted_lazy and o is not None and o[0] == 'file' and o[1] == data:
                    continue
                err = gamefmt.check(spec, data)
                if err:
                    return violate('content', f"{n}: {err}")
            extra = sorted(n for n in present if n not in files and not (r.fired and self.is_tmp(n)))
            if trusted_lazy:
                # content of directories that are kept
                extra = [n for n in extra if not any(n.startswith(p + '/') for p in lazy_dirs)]
                extra = [n for n in extra if n not in listed]
            if extra:
                return violate('extra', f"{extra[:3]} present but no file of the patch")
            self.check_list(violate, base, 'files.links.txt', set())
        if lazy:
            self.check_lazy_untouched(violate, t, unchanged if previous else set(), old, base)
        self.check_list(violate, base, 'files.exported.txt', listed)
        self.check_list(violate, base, 'files.unknown.txt', {f"{h:016x}" for h in t.unknown})
        self.check_generated(violate, base, rel, previous is None or (links and prev_ok), trusted_lazy)
        if not (trusted_lazy) and (previous is None or prev_ok):
            info['complete'] = rel.idx
            info['foreign'] = False
            info['started'] = {rel.idx}
        else:
            info['complete'] = None
            info.setdefault('started', set()).add(rel.idx)
        # links into this directory may now lead to something else
        stale = {version}
        while True:
            more = {v2 for (o2, v2), i2 in self.outdirs.items() if o2 == out and v2 not in stale and i2.get('links_to') in stale}
            if not more:
                break
            stale |= more
        for v2 in stale - {version}:
            self.outdirs[(out, v2)]['complete'] = None
        info['links_to'] = previous if links else None

    def visible(self, base):
        res = set()
        todo = [('', 0)]
        while todo:
            d, depth = todo.pop()
            if depth > 30:
                continue
            for n in os.listdir(os.path.join(base, d)):
                p = os.path.join(base, d + n)
                if os.path.isdir(p):
                    todo.append((d + n + '/', depth + 1))
                elif os.path.exists(p):
                    res.add(d + n)
        return res

    def check_list(self, violate, base, name, expected):
        p = os.path.join(base, 'cdragon', name)
        got = []
        if os.path.exists(p):
            got = [x for x in read_bytes(p).decode('utf-8').split('\n') if x]
        elif expected:
            return violate('list-missing', f"cdragon/{name} is missing")
        if set(got) != set(expected) or got != sorted(got):
            violate('list-wrong', f"cdragon/{name} is not the sorted list: unexpected {sorted(set(got) - set(expected))[:3]}, missing {sorted(set(expected) - set(got))[:3]}")

    def check_lazy_untouched(self, violate, t, skip, old, base):
        for i, s in enumerate(t.sources):
            if i in skip or not s['outputs']:
                continue
            if not all(p in s['outputs'] or any(o.startswith(p + '/') for o in s['outputs']) for p in s['listed']):
                continue
            if all(p in old and old[p][0] == 'file' for p in s['outputs']):
                for p in s['outputs']:
                    full = os.path.join(base, p)
                    try:
                        st = os.lstat(full)
                    except OSError:
                        return violate('lazy-lost', f"{p} was complete and is lost")
                    if (st.st_ino, st.st_mtime_ns) != old[p][2:4]:
                        return violate('lazy-rewritten', f"{p} was complete and is written again")

    def check_generated(self, violate, base, rel, full, trusted_lazy):
        version = 9999 if self.pl == 'pbe' else vint(rel.version)
        if trusted_lazy or not full or not self.generated_ok(rel):
            return
        if version >= 914:
            p = os.path.join(base, 'cdragon/tft/en_us.json')
            if not os.path.exists(p):
                return violate('tft-missing', "cdragon/tft/en_us.json is missing")
            err = gamefmt.check(('json', self.tft_expected(rel.tft)), read_bytes(p))
            if err:
                return violate('tft-wrong', f"cdragon/tft/en_us.json: {err}")
        if version >= 1314:
            p = os.path.join(base, 'cdragon/arena/en_us.json')
            if not os.path.exists(p):
                return violate('arena-missing', "cdragon/arena/en_us.json is missing")
            try:
                names = [a['apiName'] for a in json.loads(read_bytes(p))['augments']]
            except (ValueError, KeyError) as e:
                return violate('arena-wrong', f"cdragon/arena/en_us.json: {e!r}")
            if names != rel.tft[2][2]:
                violate('arena-wrong', f"cdragon/arena/en_us.json lists {names}, expected {rel.tft[2][2]}")

    @staticmethod
    def generated_ok(rel):
        return rel.tft is not None


# ---- generation --------------------------------------------------------------------

def gen(rng, prop):
    plan = gen_plan(rng, prop)
    # the export of some versions is kept elsewhere, behind a link
    exports = [(i, op) for i, op in enumerate(plan['ops']) if op.get('cmd') == 'export' and op.get('version')]
    if exports and rng.random() < 0.15:
        i, op = rng.choice(exports)
        plan['ops'].insert(i, {'op': 'relocate', 'out': op['out'], 'version': op['version']})
    return plan


def gen_plan(rng, prop):
    params = gen_knobs(rng)
    params['content'] = rng.randrange(1 << 30)
    params['version'] = rng.choice([[1, 0], [2, 0], [3, 0], [3, 3], [3, 4]] if prop != 'C11' else [[1, 0], [2, 0], [3, 0], [3, 3], [3, 4], [3, 4]])
    params['nwads'] = rng.choice([1, 2, 3])
    params['nentries'] = rng.choice([2, 5, 8])
    params['nplain'] = rng.choice([1, 2])
    params['lang_wad'] = rng.random() < 0.3
    params['bufsize'] = rng.choice([64, 300, 8192])
    params['latency'] = 0.001
    params['cdn'] = {'secure': False}
    params['pl'] = 'pbe' if rng.random() < 0.08 and prop != 'C11' else 'live'
    out = rng.choice(['export', 'export', 'deep/out'])
    vers = rng.choice([['9.1', '9.2', '9.3'], ['9.1', '9.2', '9.3'], ['9.12', '9.13', '9.14'], ['10.1', '10.2', '10.3'], ['13.13', '13.14', '13.15'],
                       ['14.3', '14.4', '14.5'], ['15.1', '15.2', '15.3']])
    ops = []

    def publish(v, **kw):
        ops.append(dict({'op': 'publish', 'version': v}, **kw))
        ops.append({'op': 'wait', 's': rng.choice([2.0, 3600.0])})
        if rng.random() < 0.8 or kw.get('record'):
            ops.append({'op': 'cmd', 'cmd': 'download', 'policy': {'name': 'default'}})

    def export(v, previous=None, **kw):
        c = {'op': 'cmd', 'cmd': 'export', 'out': out, 'version': v, 'previous': previous, 'policy': gen_policy(rng) if rng.random() < 0.3 else {'name': 'default'}}
        c.update(kw)
        ops.append(c)
        return c

    def again(c, **kw):
        x = {k: v for k, v in c.items() if k not in ('target', 'faults')}
        x['rerun'] = True
        x.update(kw)
        ops.append(x)

    def foreign(v, p=0.35):
        if rng.random() < p:
            ops.append({'op': 'foreign', 'out': out, 'version': v, 'salt': rng.randrange(1000),
                        'what': [rng.choice(['file', 'stale', 'stale', 'link', 'linkdir', 'fileasdir', 'emptydir', 'emptydir']) for _ in range(rng.randrange(1, 4))]})

    lazy = {'lazy': True} if rng.random() < {'C12': 0.9, 'C11': 0.15}.get(prop, 0.2) else {}
    if params['pl'] == 'pbe':
        publish(vers[0])
        foreign(vers[0])
        c = export(vers[0], target=True, **lazy)
        again(c)
        return {'world': 'export', 'params': params, 'ops': ops}
    k = rng.random()
    if prop == 'C11':
        k = 0.4 + 0.6 * k
    if k < 0.4:
        # full exports of one patch, of its second release, with leftovers
        publish(vers[0])
        foreign(vers[0])
        latest = {'latest': True} if rng.random() < 0.3 else {}
        if prop in ('C12', 'C10') and rng.random() < 0.3:
            # a complete export is made again, interrupted, then completed
            c = export(vers[0], **latest)
            again(c, target=True, focus=['unlink ', 'rmdir '])
            again(c, **({'lazy': True} if rng.random() < (0.85 if prop == 'C12' else 0.3) else {}))
        else:
            c = export(vers[0], target=True, **dict(lazy, **latest))
            again(c, **({'lazy': True} if rng.random() < 0.4 else {}))
        if rng.random() < 0.4:
            publish(vers[0], change=rng.choice([['game'], ['client'], ['client', 'game']]))
            foreign(vers[0])
            c = export(vers[0], target=True)
            again(c)
    elif k < 0.8:
        # export against the previous patch
        publish(vers[0], record=True)
        links = rng.random() < (0.85 if prop == 'C11' else 0.6)
        if links or rng.random() < 0.5:
            c = export(vers[0])
        publish(vers[1], record=True)
        foreign(vers[1])
        if rng.random() < 0.15:
            export(vers[1])     # full, before links
        prev = rng.choice([vers[0], 'guess'])
        kw = dict(lazy)
        if links:
            kw['links'] = True
        c = export(vers[1], previous=prev, target=True, **kw)
        again(c)
        if rng.random() < 0.5:
            publish(vers[2], record=True)
            c = export(vers[2], previous=rng.choice([vers[1], 'guess', vers[0]]), target=rng.random() < 0.7, **kw)
            if rng.random() < 0.5:
                again(c)
        elif links and rng.random() < 0.6:
            # second release of the new patch
            publish(vers[1], record=True, change=rng.choice([['game'], ['client', 'game']]))
            c = export(vers[1], previous=prev, target=True, **kw)
            again(c)
    else:
        # several patches, then all of them updated
        publish(vers[0], record=True)
        export(vers[0])
        publish(vers[1], record=True)
        links = rng.random() < 0.75
        kw = {'links': True} if links else {}
        export(vers[1], previous=vers[0], **kw)
        if rng.random() < 0.6:
            publish(vers[2], record=True)
            export(vers[2], previous=vers[1], **kw)
            last = vers[2]
        else:
            last = vers[1]
        if rng.random() < 0.7:
            publish(last, record=True)
        c = {'op': 'cmd', 'cmd': 'update', 'out': out, 'first': rng.choice([vers[0], vers[0], vers[1]]), 'target': True, 'policy': {'name': 'default'}}
        c.update(kw, **lazy)
        ops.append(c)
        again(c)
    return {'world': 'export', 'params': params, 'ops': ops}


def gen_concurrent(rng, prop):
    """Exports of two processes that share a storage"""
    base = gen(rng, prop)
    params = base['params']
    params['pl'] = 'live'
    vers = rng.choice([['9.1', '9.2'], ['9.13', '9.14'], ['13.13', '13.14'], ['14.3', '14.4']])
    ops = []

    def publish(v, record):
        ops.append({'op': 'publish', 'version': v})
        ops.append({'op': 'wait', 's': 2.0})
        if record:
            ops.append({'op': 'cmd', 'cmd': 'download', 'policy': {'name': 'default'}})

    two = rng.random() < 0.75
    if two:
        publish(vers[0], True)
        if rng.random() < 0.3:
            ops.append({'op': 'cmd', 'cmd': 'export', 'out': 'export', 'version': vers[0], 'policy': {'name': 'default'}})
    # a patch that nothing has downloaded yet is downloaded by the exports
    last = vers[1] if two else vers[0]
    publish(last, rng.random() < 0.5)
    export = {'cmd': 'export', 'out': 'export', 'version': last, 'together': True, 'latest': True}
    k = rng.random()
    if k < 0.25:
        other = {'cmd': 'download'}
    elif k < 0.6 or not two:
        other = dict(export, out='deep/out', latest=rng.random() < 0.5)
    else:
        other = dict(export, version=vers[0], latest=False, out=rng.choice(['export', 'deep/out']))
        export['latest'] = False
    cmds = [export, other]
    if two and rng.random() < 0.3 and not (other.get('version') == vers[0] and other.get('out') == 'export'):
        export.update(previous=vers[0])
        export['latest'] = False
    rng.shuffle(cmds)
    pol = rng.choice([{'name': 'random', 'p': rng.choice([0.05, 0.2, 0.5])}, {'name': 'rr'},
                      {'name': 'pct', 'points': sorted(rng.randrange(1, 9000) for _ in range(rng.choice([2, 4, 8])))}])
    ops.append({'op': 'concurrent', 'cmds': cmds, 'policy': pol, 'target': True})
    for c in cmds:
        if c['cmd'] == 'export':
            ops.append(dict({k: v for k, v in c.items() if k != 'together'}, op='cmd', rerun=True, policy={'name': 'default'}))
    return {'world': 'export', 'params': params, 'ops': ops}
