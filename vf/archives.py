"""
Builds real archives, folders and file system images from abstract trees.

An abstract tree is a list of entries {'p': tuple of names, 't': 'd'|'f'|'l'|'h', 'mode', 'data': bytes, 'tgt': str,
'mtime', 'uid', 'gid'}, parents first.
"""

import io
import os
import stat
import subprocess
import tarfile
import zipfile
import time


def entry(p, t='f', data=b'', tgt='', mode=None, mtime=1_000_000_000, uid=0, gid=0):
    if mode is None:
        mode = {'d': 0o755, 'f': 0o644, 'l': 0o777, 'h': 0o644}[t]
    return {'p': tuple(p), 't': t, 'mode': mode, 'data': data, 'tgt': tgt, 'mtime': mtime, 'uid': uid, 'gid': gid}


def tar_info(e, name=None):
    info = tarfile.TarInfo(name if name is not None else '/'.join(e['p']))
    info.mode = e['mode']
    info.mtime = e['mtime']
    info.uid = e['uid']
    info.gid = e['gid']
    info.type = {'d': tarfile.DIRTYPE, 'f': tarfile.REGTYPE, 'l': tarfile.SYMTYPE, 'h': tarfile.LNKTYPE}[e['t']]
    if e['t'] in 'lh':
        info.linkname = e['tgt']
    info.size = len(e['data']) if e['t'] == 'f' else 0
    return info


def write_tar(path, tree, format=tarfile.GNU_FORMAT, prefix='', mode='w', dirs=True):
    with tarfile.open(path, mode, format=format, encoding='utf-8', errors='surrogateescape') as t:
        for e in tree:
            if e['t'] == 'd' and not dirs:
                continue
            info = tar_info(e, prefix + '/'.join(e['p']))
            t.addfile(info, io.BytesIO(e['data']) if e['t'] == 'f' else None)
    return path


def tar_bytes(tree, **kw):
    f = io.BytesIO()
    kw.setdefault('format', tarfile.GNU_FORMAT)
    with tarfile.open(fileobj=f, mode='w', format=kw['format'], encoding='utf-8', errors='surrogateescape') as t:
        for e in tree:
            t.addfile(tar_info(e, kw.get('prefix', '') + '/'.join(e['p'])), io.BytesIO(e['data']) if e['t'] == 'f' else None)
    return f.getvalue()


def write_zip(path, tree, compression=zipfile.ZIP_DEFLATED, dirs=True):
    with zipfile.ZipFile(path, 'w', compression) as z:
        for e in tree:
            if e['t'] == 'd' and not dirs:
                continue
            name = '/'.join(e['p']) + ('/' if e['t'] == 'd' else '')
            info = zipfile.ZipInfo(name, time.localtime(e['mtime'])[:6])
            kind = {'d': stat.S_IFDIR, 'f': stat.S_IFREG, 'l': stat.S_IFLNK}[e['t']]
            info.external_attr = (kind | e['mode']) << 16 | (0x10 if e['t'] == 'd' else 0)
            info.create_system = 3
            info.compress_type = compression if e['t'] == 'f' else zipfile.ZIP_STORED
            z.writestr(info, e['tgt'].encode() if e['t'] == 'l' else e['data'])
    return path


def write_folder(root, tree, chown=False):
    os.makedirs(root, exist_ok=True)
    for e in tree:
        p = os.path.join(root, *e['p'])
        if e['t'] == 'd':
            os.makedirs(p, exist_ok=True)
        elif e['t'] == 'f':
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(e['data'])
        elif e['t'] == 'l':
            os.makedirs(os.path.dirname(p), exist_ok=True)
            os.symlink(e['tgt'], p)
        elif e['t'] == 'h':
            os.link(os.path.join(root, *e['tgt'].split('/')), p)
    for e in reversed(tree):
        p = os.path.join(root, *e['p'])
        if chown:  # clears the special bits
            os.lchown(p, e['uid'], e['gid'])
        if e['t'] != 'l':
            os.chmod(p, e['mode'])
        os.utime(p, (e['mtime'], e['mtime']), follow_symlinks=False)
    return root


def compress(path, kind):
    """gz, bz2, xz, zst, lz4: returns the new path"""
    import bz2
    import gzip
    import lzma

    with open(path, 'rb') as f:
        data = f.read()
    target = f'{path}.{kind}'
    if kind == 'gz':
        data = gzip.compress(data, mtime=0)
    elif kind == 'bz2':
        data = bz2.compress(data)
    elif kind == 'xz':
        data = lzma.compress(data)
    elif kind in ('zst', 'lz4'):
        data = subprocess.run(
            ['zstd' if kind == 'zst' else 'lz4', '-c'], input=data, stdout=subprocess.PIPE, check=True,
            stderr=subprocess.DEVNULL,
        ).stdout
    else:
        raise ValueError(kind)
    with open(target, 'wb') as f:
        f.write(data)
    os.unlink(path)
    return target
