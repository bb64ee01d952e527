"""Real archives of every format that can be made here, with members whose content is a vf.fileio.File."""

import base64
import io
import json
import os
import random
import sqlite3
import struct
import subprocess
import tarfile
import zipfile
import zlib

from . import fileio

QUIET = {'stdout': subprocess.DEVNULL, 'stderr': subprocess.DEVNULL, 'check': True}


def random_file(rng, sources, big=False, sparse=0.2):
    """a File; data of sources, sometimes with long runs of zeros"""
    if rng.random() < sparse:
        parts = []
        for _ in range(rng.randint(1, 5)):
            # Sparse blocks are recognized in units of file system blocks.
            n = rng.choice([1, 511, 4096, 4096, 8192, 12_288, 3 * 65536])
            parts.append(fileio.zero(n) if rng.random() < 0.5 else fileio.src(sources.new(n), n))
        return fileio.join(parts)
    n = rng.choice([0, 1, 5, 511, 512, 513, 4095, 4096, 10_000, 33_000, 70_000, 140_000])
    if big:
        n = rng.choice([1 << 20, (1 << 20) + 1, 2_500_000])
    return fileio.src(sources.new(n), n)


def content(file, sources):
    return sources.content(file.pieces)


def blocks(rng, data):
    """data in pieces, for formats in which streams, blocks, or frames can be concatenated"""
    if rng.random() < 0.4 or len(data) < 10:
        return [data]
    size = max(1, rng.choice([len(data) // 2 + 1, len(data) // 7 + 1, 50_000, 200_000]))
    return [data[i : i + size] for i in range(0, len(data), size)]


def pipe(command, data):
    return subprocess.run(command, input=data, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, check=True).stdout


COMPRESSIONS = ('gz', 'bz2', 'xz', 'zst', 'lz4', 'lzma', 'lzo', 'lrz', 'Z')


def compressed(rng, data, kind):
    import bz2
    import gzip
    import lzma

    parts = blocks(rng, data)
    if kind == 'gz':
        level = rng.choice([0, 1, 6, 9])
        return b''.join(gzip.compress(p, level, mtime=0) for p in parts)
    if kind == 'zz':
        return zlib.compress(data)
    if kind == 'bz2':
        return b''.join(bz2.compress(p, rng.choice([1, 9])) for p in parts)
    if kind == 'xz':
        if rng.random() < 0.5:
            return pipe(['xz', '-0', '-T1', f'--block-size={rng.choice([4096, 30_000, 300_000])}', '-c'], data)
        return b''.join(lzma.compress(p, preset=0) for p in parts)
    if kind == 'zst':
        return b''.join(pipe(['zstd', '-1', '-c'], p) for p in parts)
    if kind == 'lz4':
        return b''.join(pipe(['lz4', '-c', f'-B{rng.choice([4, 5, 6, 7])}', rng.choice(['-BD', '-BI'])], p) for p in parts[:1]
                        ) if len(parts) == 1 else pipe(['lz4', '-c'], data)
    if kind == 'lzma':
        return lzma.compress(data, format=lzma.FORMAT_ALONE, preset=0)
    if kind == 'lzo':
        return pipe(['lzop', '-c'], data)
    raise ValueError(kind)


def write(path, data):
    with open(path, 'wb') as f:
        f.write(data)
    return path


def write_sparse(path, file, sources):
    """zeros become holes"""
    with open(path, 'wb') as f:
        for s, o, n in file.pieces:
            if s == 0:
                f.seek(n, io.SEEK_CUR)
            else:
                f.write(sources.data[s][o : o + n])
        f.truncate(file.size)


def staged(root, members, sources):
    folder = os.path.join(root, 'stage')
    os.mkdir(folder)
    for name, file in members:
        os.makedirs(os.path.dirname(os.path.join(folder, name)), exist_ok=True)
        write_sparse(os.path.join(folder, name), file, sources)
    return folder


def unstage(folder):
    import shutil

    shutil.rmtree(folder)


def tar(rng, path, members, sources):
    kind = rng.choice(['gnu', 'pax', 'ustar', 'sparse', 'sparse'])
    if kind == 'sparse':
        folder = staged(os.path.dirname(path), members, sources)
        form = rng.choice([['--format=gnu'], ['--format=posix', '--sparse-version=0.0'], ['--format=posix', '--sparse-version=0.1'],
                           ['--format=posix', '--sparse-version=1.0']])
        subprocess.run(['tar', '-C', folder, '--owner=0', '--group=0', '-S', *form, '-cf', path, *[n for n, _ in members]], **QUIET)
        unstage(folder)
        return kind + ' '.join(form)
    fmt = {'gnu': tarfile.GNU_FORMAT, 'pax': tarfile.PAX_FORMAT, 'ustar': tarfile.USTAR_FORMAT}[kind]
    with tarfile.open(path, 'w', format=fmt) as t:
        for name, file in members:
            info = tarfile.TarInfo(name)
            info.size = file.size
            t.addfile(info, io.BytesIO(content(file, sources)))
    return kind


def zip_(rng, path, members, sources):
    if rng.random() < 0.2:
        folder = staged(os.path.dirname(path), members, sources)
        subprocess.run(['7z', 'a', '-tzip', '-psecret', '-mem=' + rng.choice(['ZipCrypto']), path, '.'], cwd=folder, **QUIET)
        unstage(folder)
        return 'encrypted'
    used = []
    with zipfile.ZipFile(path, 'w') as z:
        for name, file in members:
            method = rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_BZIP2, zipfile.ZIP_LZMA])
            used.append(method)
            z.writestr(zipfile.ZipInfo(name), content(file, sources), compress_type=method)
    return str(used)


def sevenz(rng, path, members, sources):
    folder = staged(os.path.dirname(path), members, sources)
    # libarchive fails for some with PPMd and for some solid ones with large files that have to be skipped.
    method = rng.choice(['LZMA2', 'LZMA', 'BZip2', 'Deflate', 'Copy'])
    solid = rng.choice(['on', 'off']) if max([f.size for _, f in members], default=0) < 500_000 else 'off'
    subprocess.run(['7z', 'a', '-mx=1', f'-m0={method}', f'-ms={solid}', path, '.'], cwd=folder, **QUIET)
    unstage(folder)
    return f'{method} solid={solid}'


def squashfs(rng, path, members, sources):
    folder = staged(os.path.dirname(path), members, sources)
    kind = rng.choice(['gzip', 'xz', 'lz4', 'zstd', 'lzo', 'none'])
    block = rng.choice([4096, 65536, 131072])
    extra = rng.choice([[], ['-no-fragments'], ['-always-use-fragments'], ['-no-sparse']])
    comp = ['-comp', kind] if kind != 'none' else ['-noD', '-noI', '-noF']
    subprocess.run(['mksquashfs', folder, path, *comp, '-b', str(block), '-noappend', '-processors', '1', *extra], **QUIET)
    unstage(folder)
    return f'{kind} {block} {extra}'


def ar(rng, path, members, sources):
    folder = staged(os.path.dirname(path), members, sources)
    subprocess.run(['ar', 'qcS', path, *[n for n, _ in members]], cwd=folder, **QUIET)
    unstage(folder)
    return ''


def asar(rng, path, members, sources):
    """https://github.com/electron/asar: sizes, JSON header, contents"""
    header = {'files': {}}
    body = b''
    for name, file in members:
        where = header
        *folders, last = name.split('/')
        for f in folders:
            where = where['files'].setdefault(f, {'files': {}})
        where['files'][last] = {'size': file.size, 'offset': str(len(body))}
        body += content(file, sources)
    text = json.dumps(header).encode()
    padded = text + b'\0' * (-len(text) % 4)
    write(path, struct.pack('<IIII', 4, len(padded) + 8, len(padded) + 4, len(text)) + padded + body)
    return ''


def sqlar(rng, path, members, sources):
    c = sqlite3.connect(path)
    c.execute('CREATE TABLE sqlar(name TEXT PRIMARY KEY, mode INT, mtime INT, sz INT, data BLOB)')
    # All parent folders have to be stored.
    for name in sorted({name.rsplit('/', 1)[0] for name, _ in members if '/' in name}):
        c.execute('INSERT INTO sqlar VALUES (?, ?, 1000000000, 0, NULL)', (name, 0o40755))
    for name, file in members:
        data = content(file, sources)
        packed = zlib.compress(data)
        if len(packed) >= len(data) or rng.random() < 0.3:
            packed = data
        c.execute('INSERT INTO sqlar VALUES (?, ?, 1000000000, ?, ?)', (name, 0o100644, len(data), packed))
    c.commit()
    c.close()
    return ''


def cpio(rng, path, members, sources):
    result = b''
    for i, (name, data, mode) in enumerate([*[(n, content(f, sources), 0o100644) for n, f in members], ('TRAILER!!!', b'', 0)]):
        fields = [i + 1, mode, 0, 0, 1, 1_000_000_000, len(data), 0, 0, 0, 0, len(name) + 1, 0]
        head = b'070701' + b''.join(b'%08X' % x for x in fields) + name.encode() + b'\0'
        head += b'\0' * (-len(head) % 4)
        result += head + data + b'\0' * (-len(data) % 4)
    write(path, result)
    return ''


def html(rng, path, members, sources):
    raise NotImplementedError


MAKERS = {'tar': tar, 'zip': zip_, '7z': sevenz, 'squashfs': squashfs, 'deb.ar': ar, 'asar': asar, 'sqlar': sqlar, 'cpio': cpio}
FLAT = ('deb.ar',)


def folder(rng, path, members, sources):
    for name, file in members:
        target = os.path.join(path, name)
        os.makedirs(os.path.dirname(target), exist_ok=True)
        write_sparse(target, file, sources)


def split(rng, path, data):
    """x.000, x.001, ... next to each other; returns the path of the first part"""
    count = rng.choice([2, 3, 5])
    start = rng.choice([0, 1])
    size = max(1, -(-len(data) // count))
    for i in range(count):
        write(f'{path}.{i + start:03d}', data[i * size : (i + 1) * size])
    return f'{path}.{start:03d}'
