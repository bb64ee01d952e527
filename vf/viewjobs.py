"""Jobs shared by the checks of the read-only view: T01, U01, V01."""

import os
import random
import tarfile
import zipfile

from . import archives, views
from .common import quiet_logging, scratch
from .fusevfs import errname
from .views import ANY, Codec, Vfs, member

FORMATS = {'gnu': tarfile.GNU_FORMAT, 'pax': tarfile.PAX_FORMAT, 'ustar': tarfile.USTAR_FORMAT}


def norm(raw):
    result = []
    for c in raw:
        if c == '..':
            result = result[:-1]
        elif c not in ('', '.'):
            result.append(c)
    return tuple(result)


def plain_tree(members):
    """turns any member sequence into one which a folder can hold"""
    have = {}
    result = []
    for m in members:
        p = norm(m['raw'])
        if not p or p in have or m['t'] not in 'fdl':
            continue
        if any(have.get(p[:i], 'd') != 'd' for i in range(1, len(p))):
            continue
        for i in range(1, len(p)):
            if p[:i] not in have:
                have[p[:i]] = 'd'
                result.append(member(p[:i], 'd', mtime=1_111_111_111))
        have[p] = m['t']
        result.append({**m, 'raw': list(p)})
    return result


def build(folder, index, source, codec, job):
    """source: {'k': kind, 'm': members}; returns (path, members as stored)"""
    kind, members = source['k'], source['m']
    if job.get('fraction') and kind.startswith(('pax', 'folder')):
        members = [{**m, 'mtime': views.clock(m['mtime'], m['mtime'] % 4)} for m in members]
    base = os.path.join(folder, f's{index}')
    if kind == 'folder':
        members = plain_tree(members)
        tree = [
            {**archives.entry([codec.name(c) for c in m['raw']], m['t'], codec.bytes(m['data']), m['tgt'], m['mode'],
                              views.seconds(m['mtime']), m['uid'], m['gid'])}
            for m in members
        ]
        archives.write_folder(base, tree, chown=True)
        return base, members
    if kind == 'zip':
        members = [m for m in members if m['t'] in 'fdl' and norm(m['raw'])]
        # Folders are recognized by the trailing slash, owners and special bits cannot be stored.
        members = [{**m, 'uid': ANY, 'gid': ANY, 'mode': m['mode'] & 0o777 or (0o770 if m['t'] == 'd' else 0o660)}
                   for m in members]
        with zipfile.ZipFile(base + '.zip', 'w', zipfile.ZIP_DEFLATED) as z:
            import stat
            import time
            import warnings

            warnings.simplefilter('ignore')
            for m in members:
                name = codec.text(m['raw']) + ('/' if m['t'] == 'd' else '')
                info = zipfile.ZipInfo(name, time.gmtime(m['mtime'])[:6])
                kind_bits = {'d': stat.S_IFDIR, 'f': stat.S_IFREG, 'l': stat.S_IFLNK}[m['t']]
                info.create_system = 3
                info.external_attr = (kind_bits | m['mode']) << 16
                z.writestr(info, m['tgt'].encode() if m['t'] == 'l' else codec.bytes(m['data']))
        return base + '.zip', members
    fmt = FORMATS[kind.split('.')[0]]
    with open(base + '.tar', 'wb') as f:
        f.write(views.tar_bytes(members, codec, fmt))
    path = base + '.tar'
    if '.' in kind:
        path = archives.compress(path, kind.split('.')[1])
    return path, members


def execute(job):
    """mounts the sources of the job, returns the trace for ViewTrace"""
    quiet_logging()
    codec = Codec(job['names'], job['scale'])
    out = {'job': {k: v for k, v in job.items() if k != 'srcs'}, 'srcs': [], 'tree': [], 'vers': [], 'fault': ''}
    with scratch('vf-view-') as root:
        paths = []
        for i, s in enumerate(job['srcs']):
            path, members = build(root, i, s, codec, job)
            paths.append(path)
            out['srcs'].append(members)
        mountPoint = os.path.join(root, 'mp')
        os.mkdir(mountPoint)
        options = dict(job['options'])
        # Hard links are resolved by the layer for file versions.
        links = any(m['t'] == 'h' for s in job['srcs'] for m in s['m'])
        options['enableFileVersions'] = job['versions'] or links or job['scale'] == 1
        if job['index'] == 'memory':
            options['indexFilePath'] = ':memory:'
        if job['index'] == 'file':
            options['indexFilePath'] = os.path.join(root, 'own.index.sqlite')
        if job['index'] == 'zero':
            options['indexMinimumFileCount'] = 0
        try:
            vfs = Vfs(paths, mountPoint, **options)
        except Exception as e:  # pylint: disable=broad-except
            # An archive without any member cannot be recognized.
            out['fault'] = '' if not all(s for s in out['srcs']) else 'mounting failed: ' + errname(e) + ' ' + str(e)[:80]
            if not out['fault']:
                out['srcs'] = []
            return out
        try:
            if job['index'] in ('reload', 'file'):
                vfs.remount()
            out.update(views.record(vfs, codec, views.names_of(out['srcs']), versions=job['versions']))
        finally:
            vfs.unmount()
    return out


def job(rng, srcs, versions, names=None, options=None, index=None):
    return {
        'srcs': srcs, 'versions': versions, 'names': rng.choice([0, 0, *range(len(views.NAMES))]) if names is None else names,
        'fraction': rng.random() < 0.5, 'scale': rng.choice([1, 1, 7, 513]), 'options': options if options is not None else rng.choice(OPTIONS),
        'index': index or rng.choice(['memory', 'default', 'zero', 'reload', 'file']),
    }


OPTIONS = [{}, {}, {'recursive': True}, {'recursive': True, 'lazyMounting': True}, {'controlInterface': True}]
TARS = ['gnu', 'gnu', 'pax', 'ustar', 'gnu.gz', 'pax.bz2', 'gnu.xz', 'gnu.zst']


def random_member(rng, number, depth=3, names='abcd', special=True):
    raw = [rng.choice(names) for _ in range(rng.choice([1, 1, 2, 2, 3][: depth + 2]))]
    t = rng.choices('fdlhpcb', [10, 6, 3, 3, 0.4, 0.3, 0.3] if special else [10, 6, 3, 0, 0, 0, 0])[0]
    if rng.random() < 0.06:
        raw[-1] = rng.choice('ab') + '.versions'
    path = list(raw)
    # other spellings of the same path
    if rng.random() < 0.35:
        where = rng.randint(0, len(path) - (0 if t == 'd' else 1))
        path[where:where] = rng.choice([['.'], [''], ['.', '.'], [rng.choice(names), '..'], ['..'] if where == 0 else ['.'],
                                        ['', ''] if where else ['.', '..']])
    m = member(path, t, mode=rng.choice([0o644, 0o755, 0o600, 0o4755, 0o1777, 0o2750, 0o400, 0o000]),
               mtime=rng.choice([0, 1, 999_999_999, 1_600_000_000, 2**31 - 1]) if rng.random() < 0.5 else 1_000_000_000 + number,
               uid=rng.choice([0, 1000 + number]), gid=rng.choice([0, 2000 + number]))
    if t == 'f':
        m['data'] = [rng.randint(1, 9) for _ in range(rng.choice([0, 1, 2, 4]))]
    if t == 'l':
        m['tgt'] = rng.choice(['a', '../a', '/etc/nothing', 'a/b/c', '.', 'x' * 150, 'ä'])
    if t == 'h':
        m['tp'] = list(raw) if rng.random() < 0.3 else [rng.choice(names) for _ in range(rng.choice([1, 2]))]
        if rng.random() < 0.2:
            m['tp'] = ['.', *m['tp']]
    return m


def random_link(rng, number):
    t = rng.choice('ffhhhhd')
    p = [rng.choice('abc')] if rng.random() < 0.8 else [rng.choice('ab'), rng.choice('ab')]
    m = member(p, t, mtime=1_000_000_000 + number, mode=rng.choice([0o644, 0o600]))
    if t == 'f':
        m['data'] = [rng.randint(1, 9) for _ in range(rng.choice([1, 2]))]
    if t == 'h':
        m['tp'] = list(p) if rng.random() < 0.4 else [rng.choice('abc')]
    return m


def zip_time(m):
    return {**m, 'mtime': max(m['mtime'] // 2 * 2, 400_000_000)}


def holds(kind, members):
    """whether a source of that kind can store exactly these members"""
    if kind == 'folder':
        return len(plain_tree(members)) == len(members)
    if kind == 'zip':
        return all(m['t'] in 'fdl' for m in members)
    return True


def random_source(rng, kinds, length, special=True, names='abcd'):
    kind = rng.choice(kinds)
    members = [random_member(rng, i, special=special, names=names) for i in range(length)]
    if kind == 'zip':
        members = [zip_time(m) for m in members]
    if kind.startswith('ustar'):
        members = [m for m in members if len(m['tgt']) < 100]
    return {'k': kind, 'm': members}


def describe(trace, verdict):
    text = ' | '.join(
        ', '.join(f"{m['t']}:{'/'.join(m['raw'])}" + (f"->{'/'.join(m['tp'])}" if m['t'] == 'h' else '') for m in s)
        for s in trace['srcs']
    )
    return f"{verdict['err']} for sources [{text}] ({trace['job']})"


def seeded(text):
    return random.Random(text)
