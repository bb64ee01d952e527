"""
B01: file objects made of parts of other files behave like a file with that content.

Spec: FileIO (content of a file expression, what a read returns), SharedCursor (threads on one underlying file; checked
exhaustively and refuted without its lock, without continuing, without counting what was read), FileGen (call sequences).
FileTrace judges every call on real file objects.
"""

import functools
import gc
import io
import json
import multiprocessing
import os
import random
import signal
import sqlite3
import threading

from vf import fileio, speed, tlc
from vf.common import quiet_logging, scratch
from vf.fileio import Gate, Gated, Player, Sources


def programs(check, count, steps=14, handles=3):
    """call sequences from the specification"""
    with open(os.path.join(tlc.SPECS, 'FileGen.cfg'), encoding='utf-8') as f:
        config = f.read().replace('Steps = 14', f'Steps = {steps}')
    config = config.replace('{1, 2, 3}', '{' + ', '.join(str(h + 1) for h in range(handles)) + '}')
    r = tlc.run('FileGen', cfg_text=config, workers=4,
                extra=['-simulate', f'num={(count + 3) // 4}', '-depth', str(steps + 4), '-seed', str(check.rng.getrandbits(30))])
    result = sorted(r.json('P'), key=json.dumps)
    check.rng.shuffle(result)
    return result[:count]


def schedules(check):
    with open(os.path.join(tlc.SPECS, 'SharedCursor.cfg'), encoding='utf-8') as f:
        text = f.read()
    r = tlc.run('SharedCursor', cfg_text=text.replace('Emit = FALSE', 'Emit = TRUE').replace('Lock = TRUE', 'Lock = FALSE')
                .replace('INVARIANTS Correct', 'INVARIANTS').replace('Reads = 2', 'Reads = 1'))
    return sorted(set(map(tuple, r.json('S'))))


class Maker:
    """random file expressions together with what opens them"""

    def __init__(self, rng, root, sources, gate=None):
        self.rng = rng
        self.root = root
        self.sources = sources
        self.gate = gate
        self.number = 0
        self.kinds = []
        self.keep = []

    def path(self):
        self.number += 1
        return os.path.join(self.root, f'f{self.number}')

    # Every builder returns (File, opener, whether reads may be short).

    def leaf(self, big=False):
        rng = self.rng
        n = rng.choice([0, 1, 2, 7, 40, 513, 4096, 20_000] if not big else [30_000, 60_000])
        kind = rng.choice(['lambda', 'blob', 'blobs', 'fixedblob', 'zero'] if big else
                          ['bytes', 'bytes', 'file', 'rawfile', 'lambda', 'blob', 'blobs', 'fixedblob', 'zero', 'gz', 'bz2', 'xz'])
        if kind in ('gz', 'bz2', 'xz'):
            n = max(n, 1)  # an empty one is not recognized as compressed
        self.kinds.append(kind)
        if kind == 'zero':
            from ratarmountcore.StenciledFile import ZeroFile

            return fileio.zero(n), lambda: ZeroFile(n), True
        return self.source(kind, n)

    def source(self, kind, n):
        from ratarmountcore.mountsource.formats.sqlar import FixedSqliteBlob
        from ratarmountcore.SQLiteBlobFile import SQLiteBlobFile, SQLiteBlobsFile, WriteSQLiteBlobs
        from ratarmountcore.StenciledFile import LambdaReaderFile

        rng = self.rng
        sid = self.sources.new(n)
        data = self.sources.data[sid]
        file = fileio.src(sid, n)
        if kind == 'bytes':
            return file, lambda: self.gated(io.BytesIO(data)), False
        if kind in ('file', 'rawfile'):
            path = self.path()
            with open(path, 'wb') as f:
                f.write(data)
            return file, lambda: self.gated(open(path, 'rb', buffering=0 if kind == 'rawfile' else -1)), False
        if kind == 'lambda':
            return file, lambda: LambdaReaderFile(lambda offset, size: data[offset : offset + size], n), True
        if kind in ('blob', 'blobs', 'fixedblob'):
            c = sqlite3.connect(':memory:', check_same_thread=False)
            self.keep.append(c)
            c.execute('CREATE TABLE t (data BLOB)')
            if kind != 'blobs':
                c.execute('INSERT INTO t VALUES (?)', (data,))
                if kind == 'blob':
                    return file, lambda: SQLiteBlobFile(c, 'SELECT {}data{} FROM t WHERE ROWID == 1'), True
                return file, lambda: FixedSqliteBlob(c.blobopen('t', 'data', 1, readonly=True)), True
            limit = rng.choice([1, 3, 100, 4096])
            if n / limit > 300:
                limit = n // 100
            with WriteSQLiteBlobs(c, 't', blob_size=limit) as f:
                i = 0
                while i < n:
                    step = rng.choice([1, limit - 1, limit, limit + 1, 2 * limit, 2 * limit + 1, 5 * limit, n])
                    assert f.tell() == i, 'tell of a written file'
                    f.write(data[i : i + step])
                    i += step
            if any(size > limit for (size,) in c.execute('SELECT LENGTH(data) FROM t')):
                raise fileio_error('a blob is longer than the limit')
            marks = range(0, n, limit) if n / limit < 50 else ()
            return fileio.src(sid, n, marks), lambda: SQLiteBlobsFile(c, 't', 'data', buffer_size=rng.choice([1, 10, 8192])), False
        return self.compressed(kind, sid, n)

    def compressed(self, kind, sid, n, parallel=1):
        import bz2
        import gzip
        import lzma

        from ratarmountcore.compressions import open_compressed_file

        rng = self.rng
        data = self.sources.data[sid]
        path = self.path() + '.' + kind
        step = rng.choice([700, 2000, 9000])
        marks = list(range(0, n, step))
        if kind == 'gz':
            packed = gzip.compress(data)
        elif kind == 'bz2':
            packed = b''.join(bz2.compress(data[i : i + step], 1) for i in marks) or bz2.compress(b'')
        else:
            packed = b''.join(lzma.compress(data[i : i + step], preset=0) for i in marks) or lzma.compress(b'')
        with open(path, 'wb') as f:
            f.write(packed)
        spacing = rng.choice([64 * 1024, 100_000, 1024 * 1024])

        def opener():
            raw = open(path, 'rb') if self.rng.random() < 0.5 else io.BytesIO(packed)
            result = open_compressed_file(raw, gzipSeekPointSpacing=spacing, parallelizations={'': parallel})[0]
            self.keep.append(raw)
            # As a mount does before anything can be opened.
            while result.read(1 << 20):
                pass
            result.seek(0)
            return result

        return fileio.src(sid, n, marks), opener, False

    def gated(self, raw):
        return Gated(raw, self.gate) if self.gate else raw

    def lock(self, needed):
        return threading.Lock() if needed or self.rng.random() < 0.5 else None

    def cut(self, depth):
        from ratarmountcore.StenciledFile import RawStenciledFile, StenciledFile

        rng = self.rng
        parts = [self.any(depth - 1) for _ in range(rng.choice([1, 1, 2, 3]))]
        regions = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 20])):
            k = rng.randrange(len(parts))
            f = parts[k][0]
            o = rng.choice([0, *f.marks, rng.randint(0, f.size)])
            regions.append([k, o, rng.choice([0, f.size - o, rng.randint(0, f.size - o), min(1, f.size - o)])])
        file = fileio.cut([p[0] for p in parts], regions)
        objects = [p[1]() for p in parts]
        self.keep += objects
        stencils = [(objects[k], o, n) for k, o, n in regions]
        lock = self.lock(self.gate)
        size = rng.choice([0, 1, 3, 512, 8192])
        self.kinds.append('cut' if size else 'rawcut')
        if size == 0:
            return file, lambda: RawStenciledFile(stencils, lock), False
        return file, lambda: StenciledFile(stencils, lock, bufferSize=size), False

    def join(self, depth):
        from ratarmountcore.StenciledFile import JoinedFile, JoinedFileFromFactory, RawJoinedFileFromFactory

        rng = self.rng
        parts = [self.any(depth - 1) for _ in range(rng.choice([0, 1, 2, 2, 3, 6]))]
        file = fileio.join([p[0] for p in parts])
        lock = self.lock(self.gate)
        size = rng.choice([1, 3, 512, 8192])
        kind = 'join' if self.gate else rng.choice(['join', 'factory', 'rawfactory'])
        self.kinds.append(kind)
        if kind == 'join':
            objects = [p[1]() for p in parts]
            self.keep += objects
            return file, lambda: JoinedFile(objects, lock, buffer_size=size), False
        openers = [p[1] for p in parts]
        if kind == 'factory':
            return file, lambda: JoinedFileFromFactory(openers, lock, buffer_size=size), False
        return file, lambda: RawJoinedFileFromFactory(openers, lock), True

    def single(self, depth):
        from ratarmountcore.mountsource.compositing.singlefile import SingleFileMountSource

        rng = self.rng
        part = self.any(depth - 1)
        source = SingleFileMountSource('x', part[1]())
        self.keep.append(source)
        buffering = rng.choice([-1, 0, 1, 2, 100])
        self.kinds.append('single')
        info = source.lookup('/x')
        if info.size != part[0].size:
            raise fileio_error(f'size {info.size} instead of {part[0].size}')
        return part[0], lambda: source.open(info, buffering=buffering), False

    def any(self, depth):
        if depth <= 0:
            return self.leaf()
        return self.rng.choice([self.leaf, *[functools.partial(f, depth) for f in (self.cut, self.cut, self.join, self.single)]])()


class Broken(Exception):
    """the file object cannot even be made"""


def fileio_error(text):
    return Broken(text)


def trace(sources, files, hs, events, what, fault='', notes=()):
    return {'files': [f.expr for f in files], 'hs': hs, 'ev': events, 'fault': fault, 'what': what, 'notes': list(notes)[:5]}


def execute(job):
    quiet_logging()
    rng = random.Random(job['seed'])
    sources = Sources()
    with scratch('vf-file-') as root:
        maker = Maker(rng, root, sources)
        try:
            file, opener, short = rng.choice([maker.cut, maker.cut, maker.join, maker.single])(rng.choice([1, 1, 2, 3])) \
                if job['mode'] == 'calls' else maker.leaf(big=True)
            if job['mode'] == 'leaf':
                short = False
            count = rng.choice([1, 2, 3])
            player = Player(sources, [file], [1] * count, [opener] * count, rng, short)
            player.run(job['program'])
        except Exception as e:  # pylint: disable=broad-except
            import traceback

            return trace(sources, [], [], [], maker.kinds, fault=f'{type(e).__name__}: {e} {traceback.format_exc()[-600:]}')
        result = trace(sources, [file], player.hs, player.events, maker.kinds, notes=player.notes)
        player = None
        maker = None
        gc.collect()
    return result


def threads(job):
    """handles in threads, every call on the underlying file in the order of a schedule"""
    quiet_logging()
    rng = random.Random(job['seed'])
    sources = Sources()
    gate = Gate([])
    with scratch('vf-file-') as root:
        maker = Maker(rng, root, sources, gate)
        sid = sources.new(rng.choice([5, 50, 3000]))
        base = fileio.src(sid, len(sources.data[sid]))
        under = Gated(io.BytesIO(sources.data[sid]), gate)
        maker.any = lambda depth: (base, lambda: under, False)
        try:
            file, opener, short = rng.choice([maker.cut, maker.cut, maker.join, maker.single])(1)
            players = [Player(sources, [file], [1], [opener], random.Random(job['seed'] + str(k)), short) for k in range(2)]
            program = [[{**op, 'h': 1} for op in job['program'] if op['h'] == k and op['op'] != 'reopen'][:3] for k in (1, 2)]
            over = fileio.race([functools.partial(players[k].run, program[k]) for k in range(2)], job['schedule'], gate)
        except Exception as e:  # pylint: disable=broad-except
            return trace(sources, [], [], [], maker.kinds, fault=f'{type(e).__name__}: {e}')
        events = [{**e, 'h': k + 1} for k in range(2) for e in players[k].events]
        return trace(sources, [file], [1, 1], events, maker.kinds, fault='' if over else 'threads are stuck',
                     notes=players[0].notes + players[1].notes)


def parallel(job):
    """readers with a pool of processes and a cache of blocks"""
    import lzma

    from ratarmountcore.BlockParallelReaders import ParallelXZReader, ParallelZstdReader

    quiet_logging()
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    multiprocessing.current_process()._config['daemon'] = False  # it has children
    rng = random.Random(job['seed'])
    sources = Sources()
    with scratch('vf-file-') as root:
        kind = rng.choice(['xz', 'xz', 'xzblocks', 'zst'])
        blocks = rng.choice([1, 2, 5, 24])
        sizes = [rng.choice([1, 300, 300, 1000]) for _ in range(blocks)]
        n = sum(sizes)
        sid = sources.new(n)
        data = sources.data[sid]
        marks = [sum(sizes[:i]) for i in range(blocks)]
        path = os.path.join(root, 'f.' + kind[:3])
        if kind == 'xzblocks':
            import xz

            with xz.open(path, 'wb') as f:
                for a, b in zip(marks, sizes):
                    f.write(data[a : a + b])
                    f.flush()
                    f.change_stream() if rng.random() < 0.2 else None
        elif kind == 'xz':
            with open(path, 'wb') as f:
                f.write(b''.join(lzma.compress(data[a : a + b], preset=0) for a, b in zip(marks, sizes)))
        else:
            import subprocess

            with open(path, 'wb') as f:
                for a, b in zip(marks, sizes):
                    f.write(subprocess.run(['zstd', '-c'], input=data[a : a + b], stdout=subprocess.PIPE, check=True,
                                           stderr=subprocess.DEVNULL).stdout)
        file = fileio.src(sid, n, marks)
        count = rng.choice([2, 3])
        cls = ParallelZstdReader if kind == 'zst' else ParallelXZReader
        opened = []

        def opener():
            opened.append(cls(path, parallelization=count))
            return opened[-1]

        try:
            player = Player(sources, [file], [1], [opener], rng)
            player.run([{**op, 'h': 1} for op in job['program'] if op['op'] != 'reopen'])
        except Exception as e:  # pylint: disable=broad-except
            return trace(sources, [], [], [], [kind], fault=f'{type(e).__name__}: {e}')
        finally:
            for o in opened:
                if o._pool:  # only to leave nothing behind
                    o._pool.terminate()
        return trace(sources, [file], [1], player.events, [kind, count, sizes[:8]], notes=player.notes)


def run(job):
    return {'calls': execute, 'leaf': execute, 'threads': threads, 'parallel': parallel}[job['mode']](job)


def describe(t, verdict):
    return f"{json.dumps(verdict['err'])[:300]} for {t['what']} {t['notes']} {json.dumps(t['files'])[:200]}"


def main(check):
    rng = check.rng
    check.model('SharedCursor')
    with open(os.path.join(tlc.SPECS, 'SharedCursor.cfg'), encoding='utf-8') as f:
        text = f.read()
    for old, new in [('Lock = TRUE', 'Lock = FALSE'), ('Whole = TRUE', 'Whole = FALSE'), ('"got"', '"asked"')]:
        check.refuted('SharedCursor', text.replace(old, new), 'Correct')
    orders = schedules(check)
    made = programs(check, check.pick(10000, 60000))
    jobs = []
    for i, p in enumerate(made):
        mode = rng.choices(['calls', 'leaf', 'threads', 'parallel'], [10, 2, 3, 1.2])[0]
        jobs.append({'mode': mode, 'program': p, 'seed': f'{check.seed}-{i}', 'schedule': rng.choice(orders)})
    speed.prepare()
    traces = [t for _, t in check.map(run, jobs, deadline=check.budget * 0.6)]
    check.executions += len(traces)
    for t in traces[:3]:
        check.sample({k: t[k] for k in ('what', 'files', 'ev')})
    check.validate('FileTrace', traces, describe)
