"""Encoders of the game files that exports convert, each with the outputs expected from it

An output specification is one of
  ('bytes', data)         exactly these bytes
  ('png', (w, h), rgba)   a PNG image with these pixels
  ('json', obj)           a JSON document equal to obj
"""
import io
import json
import struct

from xxhash import xxh3_64_intdigest, xxh64_intdigest

_png_cache = {}


def check(spec, data):
    """Return None if the content matches the specification, else what is wrong"""
    kind = spec[0]
    if kind == 'bytes':
        if data == spec[1]:
            return None
        return f"{len(data)} bytes, expected {len(spec[1])}" if len(data) != len(spec[1]) else "different content"
    if kind == 'json':
        try:
            obj = json.loads(data.decode('utf-8'))
        except ValueError as e:
            return f"invalid JSON, {len(data)} bytes ({e})"
        return None if obj == spec[1] else f"JSON differs: {str(obj)[:80]} expected {str(spec[1])[:80]}"
    if kind == 'png':
        if data not in _png_cache:
            from PIL import Image
            if len(_png_cache) > 3000:
                _png_cache.clear()
            try:
                if not data.startswith(b'\x89PNG'):
                    raise ValueError("not a PNG")
                im = Image.open(io.BytesIO(data))
                im.load()
                _png_cache[data] = (im.size, im.convert('RGBA').tobytes())
            except Exception as e:
                _png_cache[data] = f"invalid PNG, {len(data)} bytes ({type(e).__name__})"
        r = _png_cache[data]
        if isinstance(r, str):
            return r
        return None if r == (spec[1], spec[2]) else "pixels differ"
    raise AssertionError(kind)


# ---- images ------------------------------------------------------------------

def pixels(rng):
    w, h = rng.choice([(1, 1), (2, 3), (4, 4), (7, 2), (16, 8)])
    return (w, h), bytes(rng.randrange(256) for _ in range(w * h * 4))


def bgra(rgba):
    b = bytearray(rgba)
    b[0::4], b[2::4] = rgba[2::4], rgba[0::4]
    return bytes(b)


def tga(size, rgba):
    return struct.pack('<BBBHHBHHHHBB', 0, 0, 2, 0, 0, 0, 0, 0, size[0], size[1], 32, 0x28) + bgra(rgba)


def dds(size, rgba):
    pf = struct.pack('<LL4sLLLLL', 32, 0x41, b'', 32, 0xff0000, 0xff00, 0xff, 0xff000000)
    return (struct.pack('<4sLLLLLLL44x', b'DDS ', 124, 0x100f, size[1], size[0], size[0] * 4, 0, 0) + pf + struct.pack('<L16x', 0x1000)) + bgra(rgba)


def tex(size, rgba, mipmaps, rng):
    data = struct.pack('<4sHHBBB?', b'TEX\0', size[0], size[1], 1, 0x14, 0, mipmaps)
    if mipmaps:
        # smallest mipmap first
        w, h = size
        small = []
        while w > 1 or h > 1:
            w, h = max(1, w // 2), max(1, h // 2)
            small.append(rng.randbytes(w * h * 4))
        data += b''.join(reversed(small))
    return data + bgra(rgba)


# ---- property bins -------------------------------------------------------------

def fnv(s):
    h = 0x811c9dc5
    for b in s.lower().encode():
        h = ((h ^ b) * 0x01000193) & 0xffffffff
    return h


T_U32, T_STRING, T_LIST = 7, 16, 0x80


def bin_file(entries, linked=(), version=2):
    """entries: [(path, type, [(field name, type, value)])], strings hashed"""
    res = struct.pack('<4sL', b'PROP', version)
    if version >= 2:
        res += struct.pack('<L', len(linked)) + b''.join(struct.pack('<H', len(x)) + x.encode() for x in linked)
    res += struct.pack('<L', len(entries)) + b''.join(struct.pack('<L', fnv(t)) for _, t, _ in entries)
    for path, _, fields in entries:
        body = struct.pack('<LH', fnv(path), len(fields))
        for name, ft, v in fields:
            body += struct.pack('<LB', fnv(name), ft)
            if ft == T_U32:
                body += struct.pack('<L', v)
            elif ft == T_STRING:
                body += struct.pack('<H', len(v)) + v.encode()
            else:
                raise AssertionError(ft)
        res += struct.pack('<L', len(body)) + body
    return res


BIN_NAMES = {'binentries': ['entry/one', 'entry/two'], 'bintypes': ['TypeA', 'TFTSetData', 'TftItemData', 'AugmentData'],
             'binfields': ['mName', 'mDisplayNameTra', 'mDescriptionNameTra', 'AugmentNameId', 'NameTra', 'fieldX'], 'binhashes': []}


def bin_json(entries, linked=(), version=2):
    def name(s, kind):
        return s if s in BIN_NAMES[kind] else "{%08x}" % fnv(s)
    res = {}
    for path, t, fields in entries:
        d = {'__type': name(t, 'bintypes')}
        for n, _, v in fields:
            d[name(n, 'binfields')] = v
        res[name(path, 'binentries')] = d
    if version >= 2:
        res['__linked'] = list(linked)
    return res


def random_bin(rng):
    entries = []
    for p in rng.sample(['entry/one', 'entry/two', 'unknown/three', 'unknown/four'], rng.randrange(0, 4)):
        fields = []
        for n in rng.sample(['mName', 'fieldX', 'unknownField'], rng.randrange(0, 3)):
            fields.append((n, T_U32, rng.randrange(1 << 32)) if rng.random() < 0.5 else (n, T_STRING, rng.choice(['', 'abc', 'é', 'x' * 40])))
        entries.append((p, rng.choice(['TypeA', 'TypeB']), [(n, t, v if t == T_U32 else v.encode('ascii', 'ignore').decode()) for n, t, v in fields]))
    linked = rng.sample(['data/a.bin', 'data/b.bin'], rng.randrange(0, 3))
    version = rng.choice([1, 2, 3])
    if version == 1:
        linked = []
    return bin_file(entries, linked, version), bin_json(entries, linked, version)


# ---- skins ---------------------------------------------------------------------

def random_skn(rng):
    """(data, {name: text of the .obj})"""
    nv = 3
    parts = []

    def f():
        return float(rng.randrange(-8, 9)) / 2
    verts = []
    blob = b''
    for _ in range(nv):
        pos, normal, uv = (f(), f(), f()), (f(), f(), f()), (f(), f())
        blob += struct.pack('<fff4Bffff', *pos, 0, 0, 0, 0, 1.0, 0, 0, 0) + struct.pack('<fffff', *normal, *uv)
        verts.append("v %s %s %s\nvt %s %s\nvn %s %s %s\n" % (*pos, *uv, *normal))
    idx = [0, 1, 2]
    head = b'\x33\x22\x11\x00'
    names = ['Unknown'] if rng.random() < 0.3 else rng.sample(['Body', 'Weapon', 'Hair'], rng.choice([1, 2]))
    text = ''.join(verts) + "f 1/1/1 2/2/2/ 3/3/3\n"
    if names == ['Unknown']:
        data = head + struct.pack('<HHII', 0, 1, 3, nv) + struct.pack('<3H', *idx) + blob
    else:
        data = head + struct.pack('<HHI', 2, 1, len(names))
        for n in names:
            data += struct.pack('<64sIIII', n.encode(), 0, nv, 0, 3)
        data += struct.pack('<II', 3, nv) + struct.pack('<3H', *idx) + blob
    return data, {n: text for n in names}


# ---- string tables ---------------------------------------------------------------

RST_KEYS = ['game_item_name', 'game_item_desc', 'hello_key', 'other_key', 'augment_name']


def rst_hash(key, version):
    return xxh3_64_intdigest(key.lower()) if version >= 1415 else xxh64_intdigest(key.lower())


def rst_bits(rst_version, version):
    if rst_version in (2, 3):
        return 40
    return 38 if version >= 1502 else 39


def random_rst(rng, version, fixed=()):
    rv = rng.choice([2, 3, 4, 5])
    bits = rst_bits(rv, version)
    mask = (1 << bits) - 1
    values = dict(fixed)
    for k in rng.sample(RST_KEYS + ['unlisted_key'], rng.randrange(1, 5)):
        values.setdefault(k, rng.choice(['value', 'été', 'x' * 50, '']) + str(rng.randrange(1000)))
    data = struct.pack('<3sB', b'RST', rv)
    if rv == 2:
        if rng.random() < 0.5:
            data += struct.pack('<BL', 1, 4) + b'font'
        else:
            data += b'\0'
    data += struct.pack('<L', len(values))
    blob = b''
    exp = {}
    for k, v in sorted(values.items()):
        h = rst_hash(k, version) & mask
        data += struct.pack('<Q', len(blob) << bits | h)
        blob += v.encode() + b'\0'
        exp[k if k in RST_KEYS else "{%010x}" % h] = v
    if rv < 5:
        data += b'\0'
    return data + blob, {'entries': exp, 'version': rv}, values


# ---- others ----------------------------------------------------------------------

def lstr(s):
    b = s.encode()
    return struct.pack('<L', len(b)) + b


def random_atlas(rng):
    names = ['ASSETS/Items/Atlas_%d.dds' % i for i in range(rng.choice([1, 2]))]
    data = struct.pack('<L', len(names)) + b''.join(lstr(n) for n in names)
    exp = {}
    n = rng.randrange(0, 4)
    data += struct.pack('<L', n)
    for i in range(n):
        v = [rng.randrange(0, 5) / 4 for _ in range(4)]
        a = rng.randrange(len(names))
        data += lstr(f"tex{i}") + struct.pack('<ffffL', *v, a)
        exp[f"tex{i}"] = {'atlasPath': names[a].lower()[:-4] + '.png', 'startX': v[0], 'startY': v[1], 'endX': v[2], 'endY': v[3]}
    return data, exp


def random_skininfo(rng):
    data = b'mahC' + struct.pack('<L', 2)
    champs = rng.sample(['Annie', 'Zed', 'Lux'], rng.randrange(0, 3))
    data += struct.pack('<L', len(champs))
    exp = {}
    for c in champs:
        ids = rng.sample(range(50), rng.randrange(0, 3))
        data += lstr(c) + struct.pack('<L', len(ids))
        exp[c] = {}
        for i in ids:
            flag = rng.choice([0, 4])
            data += struct.pack('<LB', i, flag) + lstr(f"skin {i}")
            exp[c][str(i)] = {'name': f"skin {i}", 'prestige': flag == 4}
    return data, exp


def tft_bin(rng, translations):
    """map22.bin with some items: (data, JSON of the bin, expected items)"""
    entries = [('sets/one', 'TFTSetData', [])]
    items = []
    for i in range(rng.randrange(1, 4)):
        api = f"TFT_Item_{rng.randrange(1000)}_{i}"
        name, desc = rng.choice(['game_item_name', 'no_such_key']), rng.choice(['game_item_desc', 'plain text'])
        entries.append((f"items/{i}", 'TftItemData', [('mName', T_STRING, api), ('mDisplayNameTra', T_STRING, name), ('mDescriptionNameTra', T_STRING, desc)]))
        items.append((api, name, desc))
    return bin_file(entries), bin_json(entries), items


def arena_bin(rng):
    entries = []
    names = []
    for i in range(rng.randrange(1, 3)):
        api = f"Augment{rng.randrange(1000)}{i}"
        entries.append((f"aug/{i}", 'AugmentData', [('AugmentNameId', T_STRING, api), ('NameTra', T_STRING, 'augment_name')]))
        names.append(api)
    return bin_file(entries), bin_json(entries), names
