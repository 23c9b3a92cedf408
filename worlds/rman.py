"""Encoder for RMAN manifests and bundles (the server's side of the protocol).

Written from the format the parser reads; shares no code with CDTB.
"""
import hashlib
import struct

import pyzstd


class Chunk:
    """A content-addressed piece of data"""
    __slots__ = ('id', 'data', 'comp')

    def __init__(self, data):
        self.data = data
        self.comp = pyzstd.compress(data, 3)
        self.id = int.from_bytes(hashlib.blake2b(data, digest_size=8, key=b'chunk').digest(), 'little')


class Bundle:
    __slots__ = ('id', 'chunks', 'data')

    def __init__(self, chunks):
        self.chunks = list(chunks)
        self.data = b''.join(c.comp for c in self.chunks)
        # trailing metadata, as real bundles have: never addressed by a chunk
        h = hashlib.blake2b(b''.join(struct.pack('<Q', c.id) for c in self.chunks), digest_size=8, key=b'bundle')
        self.id = int.from_bytes(h.digest(), 'little')
        self.data += b'BUNDLEEND' + struct.pack('<QL', self.id, len(self.chunks))


class File:
    __slots__ = ('name', 'chunks', 'flags', 'link', 'extra')

    def __init__(self, name, chunks, flags=(), link=None):
        self.name, self.chunks, self.flags, self.link = name, list(chunks), tuple(flags), link
        self.extra = False

    @property
    def content(self):
        return b''.join(c.data for c in self.chunks)

    def hexdigest(self):
        m = hashlib.sha1()
        for c in self.chunks:
            m.update(b"%016X" % c.id)
        return m.hexdigest()


class _Buf:
    def __init__(self):
        self.b = bytearray()

    def pos(self):
        return len(self.b)

    def put(self, fmt, *v):
        p = len(self.b)
        self.b += struct.pack('<' + fmt, *v)
        return p

    def raw(self, data):
        p = len(self.b)
        self.b += data
        return p

    def patch_rel(self, at):
        """Store at `at` the offset from `at` to the current position"""
        struct.pack_into('<l', self.b, at, len(self.b) - at)

    def string(self, s):
        d = s.encode('utf-8')
        self.put('L', len(d))
        self.raw(d)
        self.b += b'\0'


_VT = {}


def _object(buf, fields):
    """Write a vtable and an object. fields: list of None | (fmt, value) | ('ref',)

    Return {index: position of the relative offset to patch}, and the object position
    """
    while fields and fields[-1] is None:
        fields = fields[:-1]
    offsets = []
    size = 4
    for f in fields:
        if f is None:
            offsets.append(0)
        else:
            offsets.append(size)
            size += 4 if f[0] == 'ref' else struct.calcsize('<' + f[0])
    vt = buf.put('HH', 4 + 2 * len(fields), size)
    for o in offsets:
        buf.put('H', o)
    obj = buf.put('l', len(buf.b) - vt)
    refs = {}
    for i, f in enumerate(fields):
        if f is None:
            continue
        if f[0] == 'ref':
            refs[i] = buf.put('l', 0)
        else:
            buf.put(f[0], f[1])
    return obj, refs


def _table(buf, items, writer):
    """Write a table: count, offsets, then the items. `writer(item)` returns the object position"""
    buf.put('l', len(items))
    slots = [buf.put('l', 0) for _ in items]
    for slot, item in zip(slots, items):
        p = writer(item)
        struct.pack_into('<l', buf.b, slot, p - slot)


def encode_body(bundles, flags, files):
    """flags: {name: id (1..64)}; files: list of File"""
    buf = _Buf()
    buf.put('l', 4)
    buf.raw(b'HEAD')
    offs = [buf.put('l', 0) for _ in range(6)]

    def w_chunk(c):
        obj, _ = _object(buf, [('Q', c.id), ('L', len(c.comp)), ('L', len(c.data))])
        return obj

    def w_bundle(b):
        obj, refs = _object(buf, [('Q', b.id), ('ref',)])
        buf.patch_rel(refs[1])
        _table(buf, b.chunks, w_chunk)
        return obj

    buf.patch_rel(offs[0])
    _table(buf, bundles, w_bundle)

    def w_flag(kv):
        name, fid = kv
        p = buf.put('L', 0)
        buf.raw(b'\0\0\0')
        buf.put('B', fid)
        at = buf.put('l', 0)
        buf.patch_rel(at)
        buf.string(name)
        return p

    buf.patch_rel(offs[1])
    _table(buf, sorted(flags.items(), key=lambda kv: kv[1]), w_flag)

    # directories
    dirs = {}

    def dir_id(path):
        if not path:
            return None
        if path not in dirs:
            parent = path.rpartition('/')[0]
            pid = dir_id(parent)
            dirs[path] = (len(dirs) + 1, pid, path.rpartition('/')[2])
        return dirs[path][0]
    for f in files:
        dir_id(f.name.rpartition('/')[0])

    def w_file(f):
        d, _, base = f.name.rpartition('/')
        did = dir_id(d)
        mask = 0
        for fl in f.flags:
            mask |= 1 << (flags[fl] - 1)
        fid = int.from_bytes(hashlib.blake2b(f.name.encode(), digest_size=8).digest(), 'little')
        obj, refs = _object(buf, [
            ('Q', fid),
            None if did is None else ('Q', did),
            ('L', len(f.content)),
            ('ref',),
            None if not mask else ('Q', mask),
            None, None,
            ('ref',),
            None,
            None if f.link is None else ('ref',),
        ])
        buf.patch_rel(refs[3])
        buf.string(base)
        buf.patch_rel(refs[7])
        buf.put('L', len(f.chunks))
        for c in f.chunks:
            buf.put('Q', c.id)
        if f.link is not None:
            buf.patch_rel(refs[9])
            buf.string(f.link)
        return obj

    buf.patch_rel(offs[2])
    _table(buf, files, w_file)

    def w_dir(d):
        did, pid, name = d
        obj, refs = _object(buf, [('Q', did), None if pid is None else ('Q', pid), ('ref',)])
        buf.patch_rel(refs[2])
        buf.string(name)
        return obj

    buf.patch_rel(offs[3])
    _table(buf, list(dirs.values()), w_dir)
    for i in (4, 5):
        buf.patch_rel(offs[i])
        buf.put('l', 0)
    return bytes(buf.b)


def encode_manifest(manif_id, bundles, flags, files):
    body = encode_body(bundles, flags, files)
    comp = pyzstd.compress(body, 3)
    head = struct.pack('<4sBBHLLQL', b'RMAN', 2, 0, 1 << 9, 28, len(comp), manif_id, len(body))
    assert len(head) == 28
    return head + comp
