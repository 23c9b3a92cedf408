"""Smallest Windows executable with version information"""
import struct


def _align(b, n=4):
    return b + b'\0' * (-len(b) % n)


def _node(name, data=b'', typ=1, children=b'', data_size=None):
    head = name.encode('utf-16-le') + b'\0\0'
    body = _align(b'\0' * 6 + head)[6:] + data
    body = _align(b'\0' * 6 + body)[6:] + children
    size = 6 + len(body)
    return struct.pack('<HHH', size, data_size if data_size is not None else len(data), typ) + body


def _string(name, value):
    return _align(_node(name, value.encode('utf-16-le') + b'\0\0', 1, data_size=len(value) + 1))


def executable(version, padding=b''):
    """Executable whose product version is `version`"""
    fixed = struct.pack('<13I', 0xFEEF04BD, 0x10000, 1, 0, 1, 0, 0x3f, 0, 0x40004, 1, 0, 0, 0)
    table = _align(_node('040904b0', children=_string('CompanyName', 'Riot Games') + _string('FileVersion', version) + _string('ProductVersion', version)))
    sfi = _align(_node('StringFileInfo', children=table))
    info = _align(_node('VS_VERSION_INFO', fixed, 0, sfi))
    rva = 0x1000

    def directory(ident, offset, sub):
        return struct.pack('<IIHHHHII', 0, 0, 4, 0, 0, 1, ident, offset | (0x80000000 if sub else 0))
    rsrc = directory(16, 24, True) + directory(1, 48, True) + directory(1033, 72, False)
    rsrc += struct.pack('<IIII', rva + 88, len(info), 0, 0)
    rsrc += info
    rsrc += b'\0' * (-len(rsrc) % 512)
    pe_off = 128
    ndir = 16
    opt = struct.pack('<HBBIIIIIIIIIHHHHHHIIIIHHIIIIII', 0x10b, 14, 0, 0, len(rsrc), 0, 0, 0x1000, 0x1000, 0x400000, 0x1000, 0x200,
                      6, 0, 0, 0, 6, 0, 0, 0x3000, 0x200, 0, 2, 0, 0x100000, 0x1000, 0x100000, 0x1000, 0, ndir)
    dirs = [(0, 0)] * ndir
    dirs[2] = (rva, len(rsrc))
    opt += b''.join(struct.pack('<II', *d) for d in dirs)
    dos = b'MZ' + struct.pack('<HHHHHHIHIHH', 144, 3, 0, 4, 0, 0xffff, 0xb8, 0, 0, 64, 0) + b'\0' * 8 + b'\0' * 4 + b'\0' * 20 + struct.pack('<I', pe_off)
    assert len(dos) == 64, len(dos)
    pe = b'PE\0\0' + struct.pack('<HHIIIHH', 0x14c, 1, 1500000000, 0, 0, len(opt), 0x102)
    sect = struct.pack('<8sIIII12sI', b'.rsrc', len(rsrc), rva, len(rsrc), 0x200, b'\0' * 12, 0x40000040)
    head = dos.ljust(pe_off, b'\0') + pe + opt + sect
    assert len(head) <= 0x200, len(head)
    return head.ljust(0x200, b'\0') + rsrc + padding
