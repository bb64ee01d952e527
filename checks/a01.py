"""
A01: archives inside archives are shown as folders holding what is inside of them, down to the recursion depth.

Spec: Nested on top of Members (NestedMC checks containment, compositionality and the effect of the depth for all small
sources), NestTrace judges what is observed on real mounts of real archives inside real archives and folders.
"""

import io
import os
import random
import stat
import time
import warnings
import zipfile

from vf import archives, speed, views
from vf import viewjobs as vj
from vf.common import quiet_logging, scratch
from vf.fusevfs import errname
from vf.views import ANY, Codec, Vfs, member

PLAIN = {'arc': '', 'sub': [], 'stem': '', 'mid': '', 'inner': []}
TRANSFORM = (r'(?i)^(.*/[^/.]*)[.](tar|zip|gz|bz2|xz|tar[.]gz|tar[.]bz2|tar[.]xz)$', r'\1_m')


def zip_bytes(members, codec):
    f = io.BytesIO()
    with zipfile.ZipFile(f, 'w', zipfile.ZIP_DEFLATED) as z:
        warnings.simplefilter('ignore')
        for m in members:
            info = zipfile.ZipInfo(codec.text(m['raw']) + ('/' if m['t'] == 'd' else ''), time.gmtime(m['mtime'])[:6])
            info.create_system = 3
            info.external_attr = ({'d': stat.S_IFDIR, 'f': stat.S_IFREG, 'l': stat.S_IFLNK}[m['t']] | m['mode']) << 16
            z.writestr(info, m['tgt'].encode() if m['t'] == 'l' else m['bytes'])
    return f.getvalue()


def tar_bytes(members, codec, tight=False):
    import tarfile

    f = io.BytesIO()
    with tarfile.open(fileobj=f, mode='w', format=tarfile.GNU_FORMAT, encoding='utf-8', errors='surrogateescape') as t:
        for m in members:
            info = tarfile.TarInfo(codec.text(m['raw']) or './')
            info.type = views.TYPES[m['t']]
            info.mode, info.mtime, info.uid, info.gid = m['mode'], m['mtime'], m['uid'], m['gid']
            info.size = len(m['bytes'])
            info.linkname = codec.text(m['tp']) if m['t'] == 'h' else m['tgt']
            t.addfile(info, io.BytesIO(m['bytes']))
        end = t.offset
    return f.getvalue()[:end] + bytes(1024) if tight else f.getvalue()


def squeeze(data, how):
    import bz2
    import gzip
    import lzma

    return {'gz': lambda x: gzip.compress(x, mtime=0), 'bz2': bz2.compress, 'xz': lzma.compress}[how](data)


def materialize(members, codec, tokens):
    """fills in the bytes of every member, returns (members with bytes, members for the spec)"""
    real, spec = [], []
    for m in members:
        m = {**PLAIN, **m}
        if not m['arc']:
            content = codec.bytes(m['data']) if m['t'] == 'f' else b''
            real.append({**m, 'bytes': content})
            spec.append({k: v for k, v in m.items() if k != 'how'})
            continue
        inner, innerSpec = materialize(m['sub'], codec, tokens)
        sm = dict(m)
        if m['arc'] == 'zip':
            data = zip_bytes(inner, codec)
            innerSpec = [{**x, 'uid': ANY, 'gid': ANY,
                          'mode': x['mode'] & 0o777 or (0o770 if x['t'] == 'd' else 0o660)} for x in innerSpec]
        elif m['arc'] == 'gz':
            data = squeeze(inner[0]['bytes'], m['how'])
        else:
            data = tar_bytes(inner, codec)
            if m['arc'] == 'tgz':
                tokens[0] += 1
                sm['inner'] = codec.alias.setdefault(data, [tokens[0]])
                data = squeeze(data, m['how'])
        tokens[0] += 1
        sm['data'] = codec.alias.setdefault(data, [tokens[0]])
        sm['sub'] = innerSpec
        sm.pop('how', None)
        real.append({**m, 'bytes': data})
        spec.append(sm)
    return real, spec


def write(path, top, real, codec):
    if top == 'folder':
        tree = [archives.entry([codec.name(c) for c in m['raw']], m['t'], m['bytes'], m['tgt'], m['mode'], m['mtime'], m['uid'],
                               m['gid']) for m in real]
        archives.write_folder(path, tree, chown=True)
        return path
    if top == 'zip':
        data, path = zip_bytes(real, codec), path + '.zip'
    else:
        data, path = tar_bytes(real, codec), path + '.tar'
        if top != 'tar':
            how = top.split('.')[1]
            data, path = squeeze(data, how), f'{path}.{how}'
    with open(path, 'wb') as f:
        f.write(data)
    return path


def spec_names(ms, how):
    result = set()
    for m in ms:
        result |= {c for c in m['raw'] if c not in ('', '.', '..')}
        if m['arc']:
            result |= {m['stem'], m['mid'], m['stem'] + how['suffix']} | spec_names(m['sub'], how)
    return result


def execute(job):
    quiet_logging()
    codec = Codec(job['names'], job['scale'])
    out = {'job': {k: v for k, v in job.items() if k != 'm'}, 'ms': [], 'tree': [], 'vers': [], 'fault': '',
           'depth': job['depth'], 'how': job['how']}
    with scratch('vf-nest-') as root:
        real, out['ms'] = materialize(job['m'], codec, [1000])
        if job['top'] == 'zip':
            out['ms'] = [{**x, 'uid': ANY, 'gid': ANY,
                          'mode': x['mode'] & 0o777 or (0o770 if x['t'] == 'd' else 0o660)} for x in out['ms']]
        path = write(os.path.join(root, 's'), job['top'], real, codec)
        mountPoint = os.path.join(root, 'mp')
        os.mkdir(mountPoint)
        options = dict(job['options'])
        if job['index'] == 'memory' or job['top'] == 'folder':
            options['indexFilePath'] = ':memory:'
        elif job['index'] == 'zero':
            options['indexMinimumFileCount'] = 0
        try:
            vfs = Vfs([path], mountPoint, **options)
        except Exception as e:  # pylint: disable=broad-except
            out['fault'] = 'mounting failed: ' + errname(e) + ' ' + str(e)[:80]
            return out
        try:
            if job['index'] == 'reload':
                vfs.remount()
            names = spec_names(out['ms'], job['how'])
            if options.get('lazyMounting'):  # archives are mounted when their path is accessed
                for _ in range(3):
                    views.walk(vfs, codec, codec.back(names))
            out.update(views.record(vfs, codec, names, versions=False))
        finally:
            vfs.unmount()
    return out


class Maker:
    """random archives inside archives; the names of archives are unique so that no two are mounted at the same path"""

    def __init__(self, rng, names='abc'):
        self.rng = rng
        self.names = names
        self.number = 0

    def archive(self, layers, kinds):
        rng = self.rng
        self.number += 1
        kind = rng.choice(kinds)
        stem = f'n{self.number}'
        how = rng.choice(['gz', 'bz2', 'xz'])
        extension = {'tar': '.tar', 'zip': '.zip', 'gz': '.' + how, 'tgz': '.tar.' + how}[kind]
        if rng.random() < 0.25:  # the case does not matter
            extension = rng.choice([extension.upper(), extension.title()])
        raw = [rng.choice(self.names) + 'd' for _ in range(rng.choice([0, 0, 1]))] + [stem + extension]
        if rng.random() < 0.15:
            raw = rng.choice([['.'], ['..'], ['', '..']]) + raw
        m = {**member(raw, 'f', mode=rng.choice([0o644, 0o600, 0o640, 0o755, 0o440, 0o200]), uid=rng.choice([0, 1000]),
                      gid=rng.choice([0, 100]), mtime=1_200_000_000 + 2 * self.number), **PLAIN}
        m.update({'arc': kind, 'stem': stem, 'mid': stem + extension[:4] if kind == 'tgz' else stem, 'how': how})
        if kind == 'gz':
            m['sub'] = [{**member([stem], 'f'), **PLAIN, 'data': [rng.randint(1, 9) for _ in range(rng.choice([1, 3]))]}]
        else:
            m['sub'] = self.members(layers - 1, kind, rng.choice([1, 2, 4]), kinds)
        return m

    def members(self, layers, kind, count, kinds):
        rng = self.rng
        result = []
        for i in range(count):
            if layers > 0 and rng.random() < 0.5:
                result.append(self.archive(layers, kinds))
            else:
                m = {**PLAIN, **vj.random_member(rng, i, special=kind != 'zip', names=self.names)}
                if m['t'] == 'f' and rng.random() < 0.15:  # looks like an archive but is none
                    self.number += 1
                    m['data'] = [7] * len(m['data'])
                    m['raw'] = m['raw'][:-1] + [f'n{self.number}' + rng.choice(['.tar', '.zip', '.tar.gz', '.bz2', '.TAR'])]
                result.append(m)
        if kind == 'zip':
            result = [{**vj.zip_time(m), 'sub': m['sub']} for m in result
                      if m['t'] in 'fdl' and (m['arc'] or vj.norm(m['raw']))]
        if not any(m['t'] in 'fdl' and vj.norm(m['raw']) for m in result):
            result.append({**member(['e'], 'f', mtime=1_000_000_000), **PLAIN, 'data': [5]})
        return result


def fit_folder(ms):
    """a folder holds each path once"""
    have = {}
    result = []
    for m in ms:
        p = vj.norm(m['raw'])
        if not p or m['t'] not in 'fdl' or p in have or any(have.get(p[:i], 'd') != 'd' for i in range(1, len(p))):
            continue
        for i in range(1, len(p)):
            if p[:i] not in have:
                have[p[:i]] = 'd'
                result.append({**PLAIN, **member(p[:i], 'd', mtime=1_111_111_110)})
        have[p] = m['t']
        result.append({**m, 'raw': list(p)})
    return result


def make(rng, members=None):
    top = rng.choice(['tar', 'tar', 'tar', 'zip', 'folder', 'folder', 'tar.gz', 'tar.bz2', 'tar.xz'])
    if members is None:
        maker = Maker(rng, rng.choice(['ab', 'abc']))
        members = maker.members(rng.choice([1, 2, 2, 3]), 'zip' if top == 'zip' else 'tar', rng.choice([1, 2, 3, 5]),
                                rng.choice([['tar'], ['tar', 'zip'], ['tar', 'zip', 'gz', 'tgz'], ['tgz', 'zip']]))
    elif top == 'zip':
        top = 'tar'
    if top == 'folder':
        members = fit_folder(members)
        if not members:
            top, members = 'tar', [{**member(['e'], 'f'), **PLAIN, 'data': [5]}]
    options = {}
    depth = rng.choice([0, 1, 1, 2, 2, 3, 99, 99, 99, -1])
    layer = 1 if top.startswith('tar.') else 0
    if depth == 99:
        options.update(rng.choice([{'recursive': True}, {'recursive': True}, {'recursionDepth': -1}]))
    elif depth == -1:
        depth = layer  # nothing specified: only the compression is undone
    else:
        depth = max(depth, layer)
        options['recursionDepth'] = depth
        if rng.random() < 0.5:
            options['recursive'] = rng.random() < 0.7  # has a lower precedence
    how = {'strip': False, 'suffix': ''}
    x = rng.random()
    if x < 0.2:
        options['stripRecursiveTarExtension'] = True
        how = {'strip': True, 'suffix': ''}
    elif x < 0.4:
        options['transformRecursiveMountPoint'] = TRANSFORM
        how = {'strip': True, 'suffix': '_m'}
    if rng.random() < 0.3:
        options['lazyMounting'] = True
    if rng.random() < 0.2:
        options['controlInterface'] = True
    return {'m': members, 'top': top, 'depth': depth - layer, 'how': how, 'options': options,
            'names': 0 if how['suffix'] else rng.choice([0, 0, 1, 2, 3]), 'scale': rng.choice([1, 1, 7, 513]),
            'index': rng.choice(['memory', 'default', 'zero', 'reload'])}


def text(ms):
    return ', '.join(
        f"{m['t']}:{'/'.join(m['raw'])}" + (f"->{'/'.join(m['tp'])}" if m['t'] == 'h' else '')
        + (f" [{text(m['sub'])}]" if m['arc'] else '') for m in ms
    )


def describe(trace, verdict):
    return f"{verdict['err']} for [{text(trace['ms'])}] depth {trace['depth']} {trace['job']}"


def small_ones(check):
    import json

    from vf import tlc

    with open(os.path.join(tlc.SPECS, 'NestedMC.cfg'), encoding='utf-8') as f:
        config = f.read().replace('Emit = FALSE', 'Emit = TRUE').split('INVARIANTS')[0]
    return sorted(tlc.run('NestedMC', cfg_text=config).json('S'), key=json.dumps)


def from_spec(ms):
    """members as TLC writes them -> members to be built"""
    def rename(c):
        return c.replace('.tgz', '.tar.gz')

    return [{**m, 'raw': [rename(c) for c in m['raw']], 'how': 'gz', 'sub': from_spec(m['sub'])} for m in ms]


def main(check):
    rng = check.rng
    check.model('NestedMC')
    small = [from_spec(s) for s in small_ones(check)]
    rng.shuffle(small)
    jobs = [make(rng, s) for s in small[: check.pick(1200, 5000)]]
    jobs += [make(rng) for _ in range(check.pick(1500, 9000))]
    rng.shuffle(jobs)
    speed.prepare()
    traces = [t for _, t in check.map(execute, jobs, deadline=check.budget * 0.6)]
    check.executions += len(traces)
    for t in traces[:3]:
        check.sample({'sources': text(t['ms']), 'depth': t['depth'], 'tree': [(n['p'], n['t']) for n in t['tree']]})
    check.validate('NestTrace', traces, describe)
