"""
R01: whatever is read of a file in a mount, in any order and through any number of handles, is the content of the file.

Spec: FileIO (what reads return), FileGen (calls on several handles of several files), FileTrace (judges what the mounts
returned).  Archives of all formats that can be made here, also inside of each other, joined, compressed, mounted from a
new or an existing index.
"""

import gc
import json
import os
import random
import traceback

from vf import contents, fileio, speed, tlc
from vf.common import quiet_logging, scratch
from vf.fileio import Player, Sources
from vf.fusevfs import Vfs, errname
from checks.b01 import programs

OUTER = ['tar', 'tar', 'tar', 'tarz', 'tarz', 'tarz', 'zip', 'zip', '7z', '7z', 'squashfs', 'squashfs', 'deb.ar', 'asar', 'sqlar', 'cpio',
         'folder', 'single', 'split', 'splitsingle']
INNER = ['tar', 'tar', 'tar.gz', 'tar.xz', 'tar.bz2', 'tar.zst', 'tar.lz4', 'zip', '7z', 'squashfs', 'deb.ar', 'asar', 'sqlar', 'cpio', 'gz', 'xz', 'lz4']


class Builder:
    def __init__(self, rng, root, sources):
        self.rng = rng
        self.root = root
        self.sources = sources
        self.what = []
        self.count = 0

    def names(self, flat, count):
        return [f'm{i}' if flat or self.rng.random() < 0.5 else f'd{i % 2}/m{i}' for i in range(count)]

    def members(self, flat, depth=0, nested=True):
        """[(name, File)] and [(path to be read, File)]"""
        rng = self.rng
        stored = []
        shown = []
        for i, name in enumerate(self.names(flat, rng.choice([1, 2, 3, 5]))):
            if nested and depth < 2 and rng.random() < (0.45 if depth == 0 else 0.3):
                data, inner, suffix = self.archive(rng.choice(INNER), depth + 1)
                name = f'{name}.{suffix}'
                sid = len(self.sources.data) + 1
                self.sources.data[sid] = data
                stored.append((name, fileio.src(sid, len(data))))
                shown += [(f'{name}/{n}', f) for n, f in inner]
            else:
                file = contents.random_file(rng, self.sources, big=rng.random() < 0.05)
                stored.append((name, file))
                shown.append((name, file))
        return stored, shown

    def archive(self, kind, depth, keep=None):
        """bytes of an archive to be put into another one"""
        rng = self.rng
        self.count += 1
        path = os.path.join(self.root, f'tmp{self.count}.{kind}')
        if kind in contents.COMPRESSIONS:
            file = contents.random_file(rng, self.sources)
            if file.size == 0:
                file = fileio.src(self.sources.new(100), 100)
            self.what.append(kind)
            return contents.compressed(rng, contents.content(file, self.sources), kind), [(f'm{self.count}', file)], kind
        inner, _, compression = kind.partition('.') if kind.startswith('tar.') else (kind, '', '')
        stored, shown = self.members(inner in contents.FLAT, depth)
        note = contents.MAKERS[inner](rng, path, stored, self.sources)
        self.what.append(f'{kind} {note}')
        with open(path, 'rb') as f:
            data = f.read()
        os.unlink(path)
        if compression:
            data = contents.compressed(rng, data, compression)
        return data, shown, kind

    def outer(self, kind, recursive):
        """(path to be mounted, [(path, File)], options)"""
        rng = self.rng
        if kind in ('single', 'splitsingle'):
            file = contents.random_file(rng, self.sources, big=rng.random() < 0.3)
            if file.size == 0:
                file = fileio.src(self.sources.new(5000), 5000)
            self.what.append(kind)
            if kind == 'splitsingle':
                path = contents.split(rng, os.path.join(self.root, 'file.bin'), contents.content(file, self.sources))
                return path, [('file.bin', file)]
            z = rng.choice(['gz', 'bz2', 'xz', 'zst', 'lz4', 'lzma'])
            self.what.append(z)
            path = os.path.join(self.root, f'file.bin.{z}')
            return contents.write(path, contents.compressed(rng, contents.content(file, self.sources), z)), [('file.bin', file)]
        stored, shown = self.members(kind in contents.FLAT, 0, recursive)
        if kind == 'folder':
            path = os.path.join(self.root, 'folder')
            contents.folder(rng, path, stored, self.sources)
            self.what.append(kind)
            return path, shown
        maker = 'tar' if kind in ('tarz', 'split') else kind
        path = os.path.join(self.root, f'outer.{maker}')
        note = contents.MAKERS[maker](rng, path, stored, self.sources)
        self.what.append(f'{kind} {note}')
        if kind == 'tarz':
            z = rng.choice(['gz', 'gz', 'bz2', 'xz', 'zst', 'lz4', 'lzma', 'zz'])
            self.what.append(z)
            with open(path, 'rb') as f:
                data = f.read()
            contents.write(f'{path}.{z}', contents.compressed(rng, data, z))
            path = f'{path}.{z}'
        elif kind == 'split':
            with open(path, 'rb') as f:
                data = f.read()
            os.unlink(path)
            path = contents.split(rng, path, data)
        return path, shown


class Mounted(Player):
    """plays a program on files of a mount"""

    def __init__(self, vfs, paths, sources, files, hs, rng):
        self.vfs = vfs
        self.paths = paths
        self.direct = rng.random() < 0.3
        super().__init__(sources, files, hs, [lambda h=h: self.open(h) for h in range(len(hs))], rng)

    def open(self, h):
        path = '/' + self.paths[self.hs[h] - 1]
        if not self.direct:
            return self.vfs.fuse('open', path, os.O_RDONLY)
        source = self.vfs.ops.mountSource
        return source.open(source.lookup(path), buffering=self.rng.choice([-1, 0, 0, 1000]))

    def close(self, h):
        if self.direct:
            self.handles[h].close()
        else:
            self.vfs.fuse('release', '/' + self.paths[self.hs[h] - 1], self.handles[h])

    def pread(self, h, offset, size):
        file = self.files[self.hs[h] - 1]
        if not self.direct:
            data = self.vfs.fuse('read', '/' + self.paths[self.hs[h] - 1], size, offset, self.handles[h])
        elif self.rng.random() < 0.1:
            source = self.vfs.ops.mountSource
            data = source.read(source.lookup('/' + self.paths[self.hs[h] - 1]), size, offset)
        else:
            f = self.handles[h]
            f.seek(offset)
            data = f.read(size)
        self.add(op='pread', h=h + 1, o=offset, n=size, r=self.sources.decode(data, file, offset))

    def run(self, program):
        for op in program:
            h = (op['h'] - 1) % len(self.handles)
            try:
                self.step(op, h)
            except Exception as e:  # pylint: disable=broad-except
                self.notes.append(f'{type(e).__name__}: {e} {traceback.format_exc()[-700:]}')
                self.add(op='pread', h=h + 1, o=0, n=0, r=[[-1, 0, 1]])
                return
        for h in range(len(self.handles)):
            self.close(h)

    def step(self, op, h):
        kind = op['op']
        file = self.files[self.hs[h] - 1]
        if kind == 'reopen':
            self.close(h)
            self.handles[h] = self.open(h)
        elif kind == 'tell':
            self.add(op='size', h=h + 1, r=self.vfs.attr(tuple(self.paths[self.hs[h] - 1].split('/')))['st_size'])
        elif kind == 'rest':
            self.pread(h, self.rng.choice([0, self.position[h]]), file.size + self.rng.choice([0, 1, 4096]))
        else:
            offset = max(0, self.places[h](op['to'])) if 'to' in op else self.position[h]
            size = self.rng.choice([0, 1, 4096, 131_072, max(0, file.size - offset), max(0, self.places[h].at[3] - offset)])
            self.pread(h, offset, size)
            self.position[h] = offset + size


def trace(files, hs, events, builder, fault='', notes=()):
    return {'files': [f.expr for f in files], 'hs': hs, 'ev': events, 'fault': fault, 'what': builder.what, 'notes': list(notes)[:3]}


def run(job):
    return {**play(job), 'job': json.dumps(job)}


def play(job):
    quiet_logging()
    rng = random.Random(job['seed'])
    sources = Sources()
    with scratch('vf-read-') as root:
        builder = Builder(rng, root, sources)
        recursive = job['recursive']
        path, shown = builder.outer(job['kind'], recursive)
        mountPoint = os.path.join(root, 'mp')
        os.mkdir(mountPoint)
        options = {
            'indexMinimumFileCount': 0,
            'indexFilePath': rng.choice([os.path.join(root, 'i.sqlite'), ':memory:', os.path.join(root, 'i.sqlite')]),
            'gzipSeekPointSpacing': rng.choice([64 * 1024, 64 * 1024, 1024 * 1024]),
            'parallelization': rng.choice([1, 1, 1, 2]),
            'passwords': ['secret'],
        }
        if recursive:
            options['recursionDepth'] = 5
            if rng.random() < 0.3:
                options['lazyMounting'] = True
        if job.get('backend'):
            options['prioritizedBackends'] = [job['backend']]
        builder.what.append({k: v for k, v in options.items() if k not in ('passwords',)} | {'again': job['again']})
        try:
            vfs = Vfs([path], mountPoint, **options)
            for _ in range(job['again']):
                vfs.remount()
        except Exception as e:  # pylint: disable=broad-except
            return trace([], [], [], builder, f'mount: {errname(e)} {e} {traceback.format_exc()[-500:]}')
        try:
            chosen = rng.sample(shown, min(len(shown), rng.choice([1, 2, 3])))
            files = [f for _, f in chosen]
            hs = [rng.randint(1, len(files)) for _ in range(rng.choice([1, 2, 3, 4]))]
            try:
                real = [resolve(vfs, p) for p, _ in chosen]
                player = Mounted(vfs, real, sources, files, hs, rng)
            except Exception as e:  # pylint: disable=broad-except
                return trace([], [], [], builder, f'open: {errname(e)} {e} {traceback.format_exc()[-500:]} {chosen[0][0]}')
            player.run(job['program'])
        finally:
            vfs.unmount()
        result = trace(files, hs, player.events, builder, notes=player.notes)
        player = None
        gc.collect()
        return result


def resolve(vfs, path):
    """the only file of a compressed one is the only entry of its folder, whatever it is called"""
    parts = path.split('/')
    if len(parts) > 1 and parts[-2].rsplit('.', 1)[-1] in contents.COMPRESSIONS and '.tar.' not in parts[-2]:
        names = list(vfs.listdir(tuple(parts[:-1])))
        assert len(names) == 1, f'{names} in {path}'
        parts[-1] = names[0]
    return '/'.join(parts)


def describe(t, verdict):
    return f"{json.dumps(verdict['err'])[:300]} for {json.dumps(t['what'])[:700]} {json.dumps(t['notes'])[-500:]}"


def jobs(check, made):
    rng = check.rng
    for i, p in enumerate(made):
        kind = OUTER[i % len(OUTER)]
        backend = None
        if kind in ('7z', 'zip', 'tar', 'single', 'tarz') and rng.random() < 0.3:
            backend = rng.choice({'7z': ['py7zr'], 'zip': ['libarchive'], 'tar': ['libarchive'],
                                  'single': ['libarchive', 'indexed_gzip'], 'tarz': ['libarchive', 'indexed_gzip']}[kind])
        yield {'program': p, 'kind': kind, 'seed': f'{check.seed}-{i}', 'recursive': rng.random() < 0.6, 'backend': backend,
               'again': rng.choice([0, 0, 1, 2])}


def main(check):
    check.model('StreamReader')
    with open(os.path.join(tlc.SPECS, 'StreamReader.cfg'), encoding='utf-8') as f:
        text = f.read()
    for old, new in [('Rewind = TRUE', 'Rewind = FALSE'), ('"both"', '"end"'), ('Advance = TRUE', 'Advance = FALSE')]:
        check.refuted('StreamReader', text.replace(old, new), 'Correct')
    made = programs(check, check.pick(int(os.environ.get('VF_N', 2600)), 16000), steps=16, handles=4)
    speed.prepare()
    traces = [t for _, t in check.map(run, list(jobs(check, made)), deadline=check.budget * 0.7)]
    check.executions += len(traces)
    for t in traces[:3]:
        check.sample({k: t[k] for k in ('what', 'files', 'ev')})
    check.validate('FileTrace', traces, describe)
