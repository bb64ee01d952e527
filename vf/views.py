"""Builds sources from member sequences and records everything visible on a mount of them (see specs/Members.tla)."""

import errno
import io
import os
import stat
import tarfile
import zlib

from . import archives
from .fusevfs import Vfs, errname, quiet

ANY = -2

NAMES = [
    {},
    {'a': "d'q", 'b': 'f"q"', 'c': 'g h', 'd': 'e;--', 'x': '%s', 'y': '_', 'z': '-'},
    {'a': 'ab', 'b': 'a_', 'c': 'a%', 'd': 'A', 'x': 'a b', 'y': 'B', 'z': 'Ab'},
    {'a': 'dü', 'b': '文', 'c': '\U0001f600', 'd': 'é', 'x': 'e\u0301', 'y': '*', 'z': '[a]'},
    {'a': 'new\nline', 'b': 'tab\t', 'c': '.hid', 'd': '...', 'x': ' lead', 'y': 'trail ', 'z': '\\back'},
    {'a': 'd' * 120, 'b': 'f' * 200, 'c': 'g' * 99, 'd': '1', 'x': '0', 'y': 'x' * 100, 'z': 'y' * 101},
    {'a': 'x.versions', 'b': 'versions', 'c': '.versions', 'd': '1.versions.1', 'x': '2', 'y': 'y.', 'z': '%41'},
]


class Codec:
    """canonical names and data <-> real ones"""

    def __init__(self, names=0, scale=1):
        self.map = dict(NAMES[names])
        self.scale = scale
        self.alias = {}  # real content of archives -> what stands for it

    def name(self, c):
        if c in ('', '.', '..'):
            return c
        if c.endswith('.versions'):
            return self.name(c[: -len('.versions')]) + '.versions'
        if c not in self.map and '.' in c.lstrip('.'):
            stem, extension = c.split('.', 1)
            return self.map.get(stem, stem) + '.' + extension
        return self.map.get(c, c)

    def text(self, path):
        return '/'.join(self.name(c) for c in path)

    def back(self, names):
        """function real name -> canonical one for the given canonical names"""
        table = {self.name(c): c for c in names}
        for c in list(table.values()):
            table.setdefault(self.name(c) + '.versions', c + '.versions')
        return lambda real: table.get(real, '?' + real)

    def bytes(self, data):
        return b''.join(bytes([x]) * self.scale for x in data)

    def unbytes(self, data):
        k = self.scale
        if len(data) % k or len(data) > 1 << 20:
            # nothing that was stored
            return [-len(data), -(zlib.crc32(data) & 0x3FFFFFFF)]
        return [data[i] if data[i : i + k] == data[i : i + 1] * k else -1 for i in range(0, len(data), k)]


def member(raw, t='f', data=(), tp=(), mode=None, mtime=1_000_000_000, uid=0, gid=0, tgt=''):
    if mode is None:
        mode = {'d': 0o755, 'l': 0o777}.get(t, 0o644)
    return {'raw': list(raw), 't': t, 'mode': mode, 'mtime': mtime, 'uid': uid, 'gid': gid, 'data': list(data),
            'tgt': tgt, 'tp': list(tp)}


def clock(number, quarters):
    """what stands for the time `number` + `quarters` / 4 in traces (whole seconds stand for themselves)"""
    return -((number - 1_000_000_000) * 4 + quarters) - 10 if quarters and 1_000_000_000 <= number < 1_500_000_000 else number


def seconds(mtime):
    """the inverse of clock"""
    return 1_000_000_000 + (-mtime - 10) / 4 if mtime < -10 else mtime


TYPES = {'d': tarfile.DIRTYPE, 'f': tarfile.REGTYPE, 'l': tarfile.SYMTYPE, 'h': tarfile.LNKTYPE, 'p': tarfile.FIFOTYPE,
         'c': tarfile.CHRTYPE, 'b': tarfile.BLKTYPE}


def tar_bytes(members, codec, format=tarfile.GNU_FORMAT, xattrs=None):
    f = io.BytesIO()
    with tarfile.open(fileobj=f, mode='w', format=format, encoding='utf-8', errors='surrogateescape') as t:
        for i, m in enumerate(members):
            info = tarfile.TarInfo(codec.text(m['raw']) or './')
            info.type = TYPES[m['t']]
            info.mode, info.mtime, info.uid, info.gid = m['mode'], seconds(m['mtime']), m['uid'], m['gid']
            data = codec.bytes(m['data']) if m['t'] == 'f' else b''
            info.size = len(data)
            if m['t'] == 'h':
                info.linkname = codec.text(m['tp'])
            if m['t'] == 'l':
                info.linkname = m['tgt']
            if xattrs and xattrs[i] and format == tarfile.PAX_FORMAT:
                info.pax_headers = {'SCHILY.xattr.' + k: v for k, v in xattrs[i].items()}
            try:
                t.addfile(info, io.BytesIO(data))
            except ValueError:  # too long for that format
                t.format = tarfile.GNU_FORMAT
                t.addfile(info, io.BytesIO(data))
                t.format = format
    return f.getvalue()


def observed(attr, codec):
    mode = attr['st_mode']
    kind = {stat.S_IFDIR: 'd', stat.S_IFREG: 'f', stat.S_IFLNK: 'l', stat.S_IFIFO: 'p', stat.S_IFCHR: 'c',
            stat.S_IFBLK: 'b'}.get(stat.S_IFMT(mode), '?%o' % stat.S_IFMT(mode))
    size = attr['st_size']
    mtime, rest = divmod(attr['st_mtime'], 10**9)
    mtime = clock(mtime, rest // 250_000_000)
    if rest and mtime >= 0 or rest % 250_000_000 or -10 <= mtime < 0:
        mtime = -9
    return {'t': kind, 'mode': stat.S_IMODE(mode), 'mtime': mtime if mtime < 2**31 else -9,
            'uid': attr['st_uid'], 'gid': attr['st_gid'],
            'size': size // codec.scale if size % codec.scale == 0 else -1, 'data': [], 'tgt': ''}


def from_info(info, codec):
    o = observed({'st_mode': info.mode, 'st_size': info.size, 'st_mtime': int(info.mtime * 1e9), 'st_uid': info.uid,
                  'st_gid': info.gid}, codec)
    o['tgt'] = info.linkname or ''
    return o


BROKEN = {'t': '', 'mode': 0, 'mtime': 0, 'uid': 0, 'gid': 0, 'size': 0, 'data': [], 'tgt': ''}


def node(vfs, path, codec):
    """everything visible of one path"""
    try:
        a = vfs.attr(path)
    except Exception as e:  # pylint: disable=broad-except
        return {**BROKEN, 't': '!' + errname(e)}
    o = observed(a, codec)
    try:
        if o['t'] == 'f':
            content = vfs.content(path)
            if content in codec.alias:
                o['data'] = codec.alias[content]
                o['size'] = 1 if a['st_size'] == len(content) else -1
                o['raw'] = len(content)
            else:
                o['data'] = codec.unbytes(content)
        elif o['t'] == 'l':
            o['tgt'] = vfs.fuse('readlink', vfs.s(path))
    except Exception as e:  # pylint: disable=broad-except
        return {**BROKEN, 't': '!read ' + errname(e)}
    return o


def walk(vfs, codec, back, skip=('.ratarmount-control',), limit=400):
    """[(real path, record)] of everything reachable from the root"""
    result = []
    todo = [()]
    while todo and len(result) < limit:
        path = todo.pop()
        try:
            with quiet():
                full = vfs.ops.mountSource.list(vfs.s(path))
            listing = vfs.listdir(path)
        except Exception as e:  # pylint: disable=broad-except
            result.append((path, {**BROKEN, 'p': [back(x) for x in path], 't': '!list ' + errname(e), 'lst': []}))
            continue
        if full is not None and set(full) - set(skip) != set(listing) - set(skip) and vfs.ops.writeOverlay is None:
            result.append((path, {**BROKEN, 'p': [back(x) for x in path], 't': '!list differs from readdir', 'lst': []}))
        for name, modes in listing.items():
            if name in skip and not path:
                continue
            p = (*path, name)
            o = node(vfs, p, codec)
            if any(m is not None and stat.S_IFMT(m) not in (0, _ifmt(o['t'])) for m in modes) and o['t'][:1] != '!':
                o = {**BROKEN, 't': '!listed as another type'}
            o['p'] = [back(x) for x in p]
            o['lst'] = []
            if isinstance(full, dict) and name in full:
                info = from_info(full[name], codec)
                if 'raw' in o:
                    info['size'] = 1 if full[name].size == o['raw'] else -1
                o['lst'] = [info]
            result += [(p, o)] * len(modes)
            if o['t'] == 'd':
                todo.append(p)
    return result


def _ifmt(t):
    return {'d': stat.S_IFDIR, 'f': stat.S_IFREG, 'l': stat.S_IFLNK, 'p': stat.S_IFIFO, 'c': stat.S_IFCHR,
            'b': stat.S_IFBLK}.get(t, 0)


def version_folder(vfs, path, codec, back):
    """what is visible of the version folder of a path"""
    folder = (*path[:-1], path[-1] + '.versions')
    o = {'p': [back(x) for x in path], 't': '', 'names': [], 'items': [], 'extra': []}
    try:
        a = vfs.attr(folder)
    except Exception as e:  # pylint: disable=broad-except
        return {**o, 't': '!' + errname(e)}
    if not stat.S_ISDIR(a['st_mode']):
        return {**o, 't': '?'}
    o['t'] = 'd'
    names = vfs.listdir(folder)
    o['names'] = [n for n, modes in names.items() for _ in modes]
    for k in range(1, len(o['names']) + 3):
        item = node(vfs, (*folder, str(k)), codec)
        if item['t'] != '!ENOENT':
            o['items'].append({**item, 'k': k})
    for wrong in ('01', '1.0', 'x'):
        try:
            vfs.attr((*folder, wrong))
            o['extra'].append(wrong)
        except OSError as e:
            if e.errno != errno.ENOENT:
                o['extra'].append(wrong)
        except Exception:  # pylint: disable=broad-except
            o['extra'].append(wrong)
    return o


def record(vfs, codec, names, versions=True):
    back = codec.back(names)
    nodes = walk(vfs, codec, back)
    vers = []
    if versions:
        for p, o in nodes:
            if o['t'][:1] != '!':
                vers.append(version_folder(vfs, p, codec, back))
    return {'tree': [o for _, o in nodes], 'vers': vers}


def names_of(srcs):
    return {c for s in srcs for m in s for c in m['raw'] if c not in ('', '.', '..')}


__all__ = [
    'ANY', 'NAMES', 'Codec', 'member', 'tar_bytes', 'record', 'walk', 'names_of', 'Vfs', 'os', 'archives',
]
