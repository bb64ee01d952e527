"""Files as expressions (see specs/FileIO.tla), decoding of what was read from them, and gates that force schedules."""

import bisect
import io
import random
import threading
import time


def source_bytes(sid, n):
    """no zero bytes, and practically no eight bytes that occur twice anywhere"""
    rng = random.Random(f'source-{sid}')
    return rng.randbytes(n).replace(b'\0', b'\x01')


class File:
    """an expression with its content and where its pieces begin"""

    def __init__(self, expr, pieces, marks=()):
        self.expr = expr
        self.pieces = glue(pieces)
        self.size = sum(p[2] for p in pieces)
        self.starts = [0]
        for p in self.pieces:
            self.starts.append(self.starts[-1] + p[2])
        self.marks = sorted({*self.starts, *(m for m in marks if 0 <= m <= self.size), 0, self.size})

    def cut(self, offset, size):
        result = []
        i = max(0, bisect.bisect_right(self.starts, offset) - 1)
        end = offset + size
        while i < len(self.pieces) and self.starts[i] < end:
            s, o, n = self.pieces[i]
            a, b = max(offset - self.starts[i], 0), min(end - self.starts[i], n)
            if a < b:
                result.append([s, o + a if s else 0, b - a])
            i += 1
        return result


def glue(pieces):
    result = []
    for s, o, n in pieces:
        if not n:
            continue
        if result and result[-1][0] == s and (s == 0 or result[-1][1] + result[-1][2] == o):
            result[-1][2] += n
        else:
            result.append([s, 0 if s == 0 else o, n])
    return result


def src(sid, n, marks=()):
    return File({'t': 'src', 's': sid, 'n': n}, [[sid, 0, n]], marks)


def zero(n):
    return File({'t': 'zero', 'n': n}, [[0, 0, n]])


def cut(files, regions, marks=()):
    """regions: [index into files (from 0), offset, size]"""
    pieces = [p for k, o, n in regions for p in files[k].cut(o, n)]
    return File({'t': 'cut', 'fs': [f.expr for f in files], 'c': [[k + 1, o, n] for k, o, n in regions]}, pieces, marks)


def join(files, marks=()):
    return File({'t': 'join', 'fs': [f.expr for f in files]}, [p for f in files for p in f.pieces], marks)


class Sources:
    def __init__(self):
        self.data = {}
        self.grams = None

    def new(self, n):
        sid = len(self.data) + 1
        self.data[sid] = source_bytes(sid, n)
        return sid

    def content(self, pieces):
        return b''.join(bytes(n) if s == 0 else self.data[s][o : o + n] for s, o, n in pieces)

    def decode(self, data, file, offset):
        """the pieces data consists of; file and offset are only a hint where they might come from"""
        expected = file.cut(offset, len(data))
        if self.content(expected) == data:
            return expected
        if self.grams is None:
            self.grams = {d[i : i + 8]: (s, i) for s, d in self.data.items() for i in range(0, len(d) - 7)}
        hint = self.content(expected)
        result = []
        i = 0
        while i < len(data) and len(result) < 200:
            if data[i : i + 1] == hint[i : i + 1]:
                n = common(data, i, hint, i)
                result += cut_pieces(expected, i, n)
                i += n
                continue
            found = self.grams.get(data[i : i + 8])
            if found:
                n = common(data, i, self.data[found[0]], found[1])
                result.append([found[0], found[1], n])
            elif data[i] == 0:
                n = len(data) - i - len(data[i:].lstrip(b'\0'))
                result.append([0, 0, n])
            else:
                n = 1
                result.append([-2, i, 1])  # bytes of nowhere
            i += n
        return glue(result)


def cut_pieces(pieces, offset, n):
    return File(None, pieces).cut(offset, n)


def common(a, i, b, j):
    n = 0
    while i + n < len(a) and j + n < len(b) and a[i + n] == b[j + n]:
        n += 1
    return n


class Places:
    """maps the abstract positions of a program to offsets of a file"""

    def __init__(self, rng, file, count=5):
        marks = file.marks
        inner = [m for m in marks if 0 < m < file.size] or [file.size // 2]
        if rng.random() < 0.5 and file.size:
            inner = inner + [rng.randrange(file.size) for _ in range(2)]
        chosen = sorted(rng.choice(inner) for _ in range(count - 2))
        self.at = [0, *chosen, file.size, file.size + rng.choice([2, 700, 100_000])]

    def __call__(self, to):
        return self.at[to[0]] + to[1]


def failure(exception):
    return [[-1, 0, 1]], f'{type(exception).__name__}: {exception}'[:200]


class Player:
    """runs a program on handles, recording events"""

    def __init__(self, sources, files, hs, openers, rng, short=False):
        self.sources = sources
        self.files = files
        self.hs = hs
        self.openers = openers
        self.rng = rng
        self.short = short
        self.handles = [o() for o in openers]
        self.position = [0] * len(openers)  # a hint for decoding
        self.events = []
        self.notes = []
        self.places = [Places(rng, files[k - 1]) for k in hs]

    def add(self, **event):
        self.events.append(event)

    def run(self, program):
        for op in program:
            h = (op['h'] - 1) % len(self.handles)
            try:
                self.step(op, h)
            except Exception as e:  # pylint: disable=broad-except
                r, note = failure(e)
                self.notes.append(note)
                self.add(op='read', h=h + 1, n=-1, short=False, r=r)
                return
        for h, f in enumerate(self.handles):
            try:
                f.close()
            except Exception as e:  # pylint: disable=broad-except
                self.notes.append(failure(e)[1])
                self.add(op='tell', h=h + 1, r=-1)

    def step(self, op, h):
        f = self.handles[h]
        file = self.files[self.hs[h] - 1]
        kind = op['op']
        if kind == 'reopen':
            f.close()
            self.handles[h] = self.openers[h]()
            self.position[h] = 0
            self.add(op='open', h=h + 1)
        elif kind == 'tell':
            self.add(op='tell', h=h + 1, r=f.tell())
        elif kind in ('seek', 'pread'):
            self.seek(f, h, file, self.places[h](op['to']), op.get('wh', 0))
            if kind == 'pread':
                self.read(f, h, file, self.rng.choice([0, 1, 5, 600, 5000, file.size]), 'read')
        elif kind == 'rest':
            self.read(f, h, file, -1, self.rng.choice(['read', 'read()', 'readall']))
        else:
            here = f.tell()
            self.add(op='tell', h=h + 1, r=here)
            n = [0, 1, self.rng.choice([2, 100])][op['n']] if 'n' in op else max(0, self.places[h](op['to']) - here)
            self.read(f, h, file, n, kind)

    def seek(self, f, h, file, target, wh):
        here = f.tell() if wh == 1 else 0
        if wh == 1:
            self.add(op='tell', h=h + 1, r=here)
        off = target - (here if wh == 1 else file.size if wh == 2 else 0)
        try:
            r = f.seek(off, wh) if wh else f.seek(off)
        except (ValueError, OSError) as e:
            r = -1
            self.notes.append(failure(e)[1])
        self.add(op='seek', h=h + 1, off=off, wh=wh, r=r)

    def read(self, f, h, file, n, how):
        here = f.tell()
        if how == 'readinto':
            buffer = bytearray(n)
            data = bytes(buffer[: f.readinto(buffer)])
        elif how == 'read()':
            data = f.read()
        elif how == 'readall' and hasattr(f, 'readall'):
            data = f.readall()
        else:
            data = f.read(n)
        self.add(op='read', h=h + 1, n=n, short=self.short and n >= 0, r=self.sources.decode(data, file, here))


class Gate:
    """threads pass one at a time, in the order of a schedule as far as they get there"""

    def __init__(self, schedule):
        self.schedule = list(schedule)
        self.condition = threading.Condition()
        self.waiting = set()
        self.allowed = set()
        self.open = False
        self.finished = set()

    def arrive(self):
        me = getattr(threading.current_thread(), 'number', None)
        if me is None:
            return
        with self.condition:
            if self.open:
                return
            self.waiting.add(me)
            self.condition.notify_all()
            self.condition.wait_for(lambda: self.open or me in self.allowed, timeout=10)
            self.allowed.discard(me)
            self.waiting.discard(me)
            self.condition.notify_all()

    def done(self):
        with self.condition:
            self.finished.add(threading.current_thread().number)
            self.condition.notify_all()

    def conduct(self, patience=0.02):
        """a thread that does not come to the gate within the time waits for another one: it is skipped"""
        for t in self.schedule:
            with self.condition:
                if not self.condition.wait_for(lambda t=t: t in self.waiting or t in self.finished, timeout=patience):
                    continue
                if t in self.finished:
                    continue
                self.allowed.add(t)
                self.condition.notify_all()
                self.condition.wait_for(lambda t=t: t not in self.allowed, timeout=patience)
                # what it does until the next gate is done before anybody else goes on
                self.condition.wait_for(lambda t=t: t in self.waiting or t in self.finished, timeout=patience)
        with self.condition:
            self.open = True
            self.condition.notify_all()


class Gated(io.RawIOBase):
    """a file object at whose calls threads wait"""

    def __init__(self, raw, gate, name=None):
        super().__init__()
        self.raw = raw
        self.gate = gate
        if name:
            self.name = name

    def readable(self):
        return True

    def seekable(self):
        return True

    def tell(self):
        return self.raw.tell()

    def seek(self, offset, whence=0):
        self.gate.arrive()
        return self.raw.seek(offset, whence)

    def read(self, size=-1):
        self.gate.arrive()
        return self.raw.read(size)

    def readall(self):
        return self.read()

    def readinto(self, buffer):
        data = self.read(len(buffer))
        buffer[: len(data)] = data
        return len(data)


def race(functions, schedule, gate):
    """runs the functions in threads under the schedule (thread numbers from 1)"""
    def body(function):
        try:
            function()
        finally:
            gate.done()

    threads = []
    for i, function in enumerate(functions):
        t = threading.Thread(target=body, args=(function,), daemon=True)
        t.number = i + 1
        threads.append(t)
    for t in threads:
        t.start()
    gate.schedule = list(schedule)
    gate.conduct()
    end = time.time() + 60
    for t in threads:
        t.join(max(0.1, end - time.time()))
    return not any(t.is_alive() for t in threads)
