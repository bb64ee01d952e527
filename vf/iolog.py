"""Records all changes a process makes below a folder and reproduces the state after any prefix of them."""

import functools
import hashlib
import os
import struct
import subprocess
import sys
import tempfile

SOURCE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'iolog.c')


@functools.lru_cache(None)
def library():
    with open(SOURCE, 'rb') as f:
        key = hashlib.sha256(f.read()).hexdigest()[:16]
    path = os.path.join(tempfile.gettempdir(), f'vf-iolog-{os.getuid()}-{key}.so')
    if not os.path.exists(path):
        partial = f'{path}.{os.getpid()}'
        subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', partial, SOURCE, '-ldl', '-lpthread'], check=True)
        os.rename(partial, path)
    return path


def run(folder, arguments, fail=0, timeout=120):
    """runs python with the arguments, returns (completed process, operations)"""
    log = folder + '.iolog'
    env = {**os.environ, 'LD_PRELOAD': library(), 'VF_IO_DIR': folder, 'VF_IO_LOG': log}
    if fail:
        env['VF_IO_FAIL'] = str(fail)
    try:
        process = subprocess.run([sys.executable, *arguments], env=env, capture_output=True, timeout=timeout, check=False)
        return process, parse(log)
    finally:
        if os.path.exists(log):
            os.unlink(log)


def parse(log):
    if not os.path.exists(log):
        return []
    with open(log, 'rb') as f:
        data = f.read()
    result = []
    i = 0
    while i + 21 <= len(data):
        op, n, offset, size = struct.unpack('<cIQQ', data[i : i + 21])
        i += 21
        path = data[i : i + n].decode()
        i += n
        content = b''
        if op in b'WR':
            content = data[i : i + size]
            i += size
        result.append((op.decode(), path, offset, content))
    return result


def apply(files, operation):
    """files: {path: content}, folders have the content None"""
    op, path, offset, content = operation
    if op == 'O':
        files[path] = b''
    elif op == 'D':
        files[path] = None
    elif op == 'W':
        old = files.get(path) or b''
        if len(old) < offset:
            old += bytes(offset - len(old))
        files[path] = old[:offset] + content + old[offset + len(content) :]
    elif op == 'T':
        old = files.get(path) or b''
        files[path] = old[:offset] + bytes(max(0, offset - len(old)))
    elif op == 'U':
        files.pop(path, None)
    elif op == 'R':
        files[content.decode()] = files.pop(path, b'')


def prefixes(before, operations, interesting=lambda path: True):
    """yields (number of operations done, files) for each distinct state on the way"""
    files = dict(before)
    seen = set()
    for n in range(len(operations) + 1):
        if n:
            if not interesting(operations[n - 1][1]):
                continue
            apply(files, operations[n - 1])
        key = hashlib.sha256(repr(sorted((p, None if c is None else hashlib.sha256(c).digest())
                                         for p, c in files.items())).encode()).digest()
        if key not in seen:
            seen.add(key)
            yield n, dict(files)
