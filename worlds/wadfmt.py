"""Encoder of WAD archives, and independent model of the names their entries are extracted to"""
import gzip
import hashlib
import json
import os
import struct

import pyzstd
from xxhash import xxh3_64_intdigest, xxh64_intdigest

# (first bytes, extension guessed for unnamed entries)
MAGICS = [
    (b'\x89PNG\r\n\x1a\n', 'png'), (b'OggS', 'ogg'), (b'DDS ', 'dds'), (b'PROP', 'bin'), (b'BKHD', 'bnk'), (b'r3d2sklt', 'skl'),
    (b'\xff\xd8\xff\xe1', 'jpg'), (b'GIF89a', 'gif'), (b'<svg', 'svg'), (b'TEX\0', 'tex'), (b'\x33\x22\x11\x00', 'skn'),
    (b'r3d2Mesh', 'scb'), (b'OEGM', 'mapgeo'), (b'\xfe\xfd\xfc\xfb', None), (b'\x00\x01\x02', None),
]


def path_hash(path):
    return xxh64_intdigest(path)


def make_data(rng, n=None, kind=None):
    """Content of an entry, with the extension it is recognised by: (data, ext)"""
    if n is None:
        n = rng.choice([0, 1, 3, 30, 200, 200, 1500, 1500, 9000])
    if kind is None and rng.random() < 0.15:
        return json.dumps({'k': rng.randrange(10**6), 'v': 'x' * n}).encode(), 'json'
    magic, ext = rng.choice(MAGICS)
    if n == 0:
        return b'', None
    body = rng.randbytes(n) if rng.random() < 0.4 else (b'%05d:' % rng.randrange(10**5)) * (n // 6 + 1)
    return magic + body[:n], ext


class Entry:
    """Entry of an archive

    path -- real path, hashed in the archive
    known -- whether the path is in the hash list
    kind -- storage kind (0 raw, 1 gzip, 2 link, 3 zstd, 4 sub-chunks)
    """

    def __init__(self, path, data, kind, known=True, ext=None, chunks=None, checksum=True):
        self.path, self.data, self.kind, self.known, self.ext = path, data, kind, known, ext
        self.hash = path_hash(path)
        self.chunks = chunks or []      # for kind 4: [(data, compressed?)]
        self.checksum = checksum
        self.target = None              # for kind 2
        self.offset = self.size_stored = None
        self.first = 0

    def stored(self, entries_toc):
        if self.kind == 0:
            return self.data
        if self.kind == 1:
            return gzip.compress(self.data, mtime=0)
        if self.kind == 2:
            t = self.target.encode()
            return struct.pack('<L', len(t)) + t
        if self.kind == 3:
            return zstd(self.data, self.checksum)
        self.first = len(entries_toc)
        res = b''
        for d, comp in self.chunks:
            c = zstd(d, self.checksum) if comp else d
            if len(c) == len(d):
                c = d
            entries_toc.append((len(c), len(d), xxh3_64_intdigest(c)))
            res += c
        return res

    def final_path(self, unknown_dir='unknown'):
        """Path the entry is extracted to"""
        if not self.known:
            return f"{unknown_dir}/{self.hash:016x}" + (f".{self.ext}" if self.ext else '')
        head, _, base = self.path.rpartition('/')
        ext = os.path.splitext(base)[1]
        if not ext:
            ext = '.cdtb' + (f".{self.ext}" if self.ext else '')
            base += ext
        if len(base) >= 250:
            base = base[:250 - 17 - len(ext)] + f".{self.hash:016x}" + ext
        return (head + '/' if head else '') + base


def zstd(data, checksum=True):
    return pyzstd.compress(data, {pyzstd.CParameter.checksumFlag: int(checksum), pyzstd.CParameter.compressionLevel: 3})


def encode(entries, version, rng, filler=0, gap=False):
    """Encode an archive. If an entry's path ends with .subchunktoc, its data is replaced by the sub-chunk table"""
    toc_entries = [(0, 0, 0)] * filler
    toc = next((e for e in entries if e.path.endswith('.subchunktoc')), None)
    blobs = {}
    for e in entries:
        if e is not toc:
            blobs[e] = e.stored(toc_entries)
    if toc is not None:
        toc.data = b''.join(struct.pack('<IIQ', *t) for t in toc_entries)
        toc.ext = None
        blobs[toc] = toc.stored([])
    major, minor = version
    esize = 24 if major == 1 else 32
    head = {1: 8, 2: 100, 3: 268}[major]
    pos = head + 4 + esize * len(entries)
    body = b''
    order = list(entries)
    rng.shuffle(order)
    for e in order:
        if gap and rng.random() < 0.4:
            body += b'\xaa' * rng.randrange(1, 20)
        e.offset = pos + len(body)
        e.size_stored = len(blobs[e])
        body += blobs[e]
    table = b''
    for e in entries:
        sha = int.from_bytes(hashlib.sha256(blobs[e]).digest()[:8], 'little')
        if major == 1:
            table += struct.pack('<QIIII', e.hash, e.offset, e.size_stored, len(e.data), e.kind)
        elif major == 2 or minor <= 3:
            table += struct.pack('<QIIIB?HQ', e.hash, e.offset, e.size_stored, len(e.data), e.kind | len(e.chunks) << 4, False, e.first, sha)
        else:
            table += struct.pack('<QIIIBBHQ', e.hash, e.offset, e.size_stored, len(e.data), e.kind | len(e.chunks) << 4, e.first >> 16, e.first & 0xffff, sha)
    h = b'RW' + bytes(version)
    if major == 1:
        h += struct.pack('<HH', 12, esize)
    h = h.ljust(head, b'\x5a')
    return h + struct.pack('<I', len(entries)) + table + body


def hash_list(paths, size=16):
    return ''.join(f"{path_hash(p):016x} {p}\n" for p in sorted(set(paths)))
