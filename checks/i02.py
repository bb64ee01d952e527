"""
I02: whatever interrupts or accompanies the creation of an index, no mount shows anything but the archive.

Mounts are run in children whose writes below the scratch folder are recorded (vf/iolog.c).  The state of the disk after each
single write is reproduced and mounted; writes are made to fail; children are stopped before each write while others mount
the same archive.  IndexTrace judges every mount.
"""

import ctypes
import hashlib
import json
import os
import random
import shutil
import signal
import sys
import time

from vf import iolog, speed, tlc, views
from vf.common import quiet_logging, scratch
from vf.fusevfs import Vfs, errname
from vf.views import Codec, member

from . import a01, i01
from .a01 import PLAIN


def small_cache():
    """makes SQLite write out pages early, as it does for indexes larger than its cache"""
    import sqlite3

    connect = sqlite3.connect

    def limited(*args, **kwargs):
        connection = connect(*args, **kwargs)
        connection.execute('PRAGMA cache_size = 6')
        return connection

    sqlite3.connect = limited


def observe(path, mountPoint, options, codec, names, hold=None):
    event = {'k': 'mount', 'verify': False, 'clear': bool(options.get('clearIndexCache')), 'fault': '', 'tree': [], 'vers': []}
    try:
        vfs = Vfs([path], mountPoint, **options)
    except Exception as e:  # pylint: disable=broad-except
        event['fault'] = 'mounting failed: ' + errname(e) + ' ' + str(e)[:80]
        return event
    try:
        event.update(views.record(vfs, codec, names, versions=False))
        if hold:
            signal.raise_signal(signal.SIGSTOP)
    finally:
        vfs.unmount()
    return event


class Child:
    """a mount in a process of its own, recorded from its start"""

    def __init__(self, root, name, args, tight, fail=0, pause=0):
        self.log = f'{root}.{name}.iolog'
        self.result = f'{root}.{name}.json'
        self.pid = os.fork()
        if self.pid:
            return
        try:
            signal.alarm(100)
            if tight:
                small_cache()
            library = ctypes.CDLL(None)
            library.iolog_start((root + '/').encode(), self.log.encode(), ctypes.c_long(fail), ctypes.c_long(pause))
            event = observe(*args)
            with open(self.result, 'w', encoding='utf-8') as f:
                json.dump(event, f)
        except BaseException:  # pylint: disable=broad-except
            import traceback

            with open(self.result + '.error', 'w', encoding='utf-8') as f:
                f.write(traceback.format_exc())
        finally:
            os._exit(0)

    def stopped(self):
        """waits until it stopped (True) or ended"""
        _, status = os.waitpid(self.pid, os.WUNTRACED)
        return os.WIFSTOPPED(status)

    def end(self):
        while True:
            _, status = os.waitpid(self.pid, os.WUNTRACED)
            if not os.WIFSTOPPED(status):
                break
        return self.event()

    def event(self):
        if os.path.exists(self.result + '.error'):
            with open(self.result + '.error', encoding='utf-8') as f:
                raise RuntimeError(f.read())
        if not os.path.exists(self.result):
            return {'k': 'mount', 'verify': False, 'clear': False, 'fault': 'the process died', 'tree': [], 'vers': []}
        with open(self.result, encoding='utf-8') as f:
            return json.load(f)

    def operations(self):
        return iolog.parse(self.log)

    def kill(self):
        os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)

    def resume(self):
        os.kill(self.pid, signal.SIGCONT)

    def clean(self):
        for p in (self.log, self.result, self.result + '.error'):
            if os.path.exists(p):
                os.unlink(p)


def contents(root):
    result = {}
    for folder, folders, files in os.walk(root):
        for f in folders:
            result[os.path.join(folder, f)] = None
        for f in files:
            p = os.path.join(folder, f)
            with open(p, 'rb') as s:
                result[p] = s.read()
    return result


def restore(root, files):
    for folder, folders, names in os.walk(root, topdown=False):
        for f in names:
            p = os.path.join(folder, f)
            if p not in files:
                os.unlink(p)
        for f in folders:
            p = os.path.join(folder, f)
            if p not in files:
                os.rmdir(p)
    for p in sorted(files):
        if files[p] is None:
            os.makedirs(p, exist_ok=True)
    for p, c in files.items():
        if c is not None:
            with open(p, 'wb') as f:
                f.write(c)


def execute(job):
    quiet_logging()
    codec = Codec(job['names'], 1)
    rng = random.Random(job['seed'])
    traces = []
    with scratch('vf-crash-') as base:
        root = os.path.join(base, 'r')
        os.mkdir(root)
        os.environ['HOME'] = os.path.join(root, 'home')
        os.mkdir(os.environ['HOME'])
        mountPoint = os.path.join(base, 'mp')
        os.mkdir(mountPoint)
        maker = a01.Maker(rng, 'ab')
        tokens = [1000]
        path = os.path.join(root, 'archive.' + job['top'])
        names = set()
        clock = [1_500_000_000]
        head = []

        def store(ms, app):
            data, spec = i01.pack(job, ms, codec, tokens)
            with open(path, 'wb') as f:
                f.write(data)
            clock[0] += 10
            os.utime(path, (clock[0], clock[0]))
            names.update(a01.spec_names(spec, {'strip': False, 'suffix': ''}))
            head.append({'k': 'set', 'ms': spec, 'size': len(data), 'id': len(head), 'app': app, 'mtime': len(head)})

        ms = i01.fresh(rng, job, maker, job['count'])
        if job['big']:
            ms = [{**PLAIN, **member(['big'], 'f'), 'big': True}]
            ms += [{**PLAIN, **member([rng.choice('ab'), rng.choice('abx') + str(i)], 'f'), 'data': [i % 9 + 1]} for i in range(102)]
        store(ms, False)
        options = i01.options_of(job, root, 'mount')
        args = (path, mountPoint, options, codec, names)
        if job['before']:
            head.append(observe(*args))
            ms = i01.change(rng, job, maker, ms, job['before'])
            store(ms, job['before'].startswith('append'))
        initial = contents(root)
        times = os.stat(path).st_mtime_ns

        def reset(files):
            restore(root, files)
            os.utime(path, ns=(times, times))

        def done(what, events):
            traces.append({'job': {**job, 'what': what}, 'depth': job['depth'], 'how': {'strip': False, 'suffix': ''},
                           'events': head + events})

        first = Child(root, 'a', args, job['tight_cache'])
        event = first.end()
        operations = first.operations()
        first.clean()
        done('uninterrupted', [event, observe(*args)])
        count = len(operations)
        if job['mode'] == 'held':
            # The archive is changed while it is mounted and mounted once more.
            for _ in range(job['points']):
                reset(initial)
                tick = clock[0]
                held = Child(root, 'a', (*args, True), job['tight_cache'])
                held.stopped()
                action = rng.choice(['append', 'bigger', 'smaller', 'same'])
                extra = []
                if action != 'same':
                    store(i01.change(rng, job, maker, ms, action), action == 'append' and job['top'] == 'tar')
                    extra.append(head.pop())
                extra.append(observe(*args))
                held.resume()
                extra.insert(0, held.end())
                held.clean()
                extra.append(observe(*args))
                done(f'mounted while {action}', extra)
                clock[0] = tick
        elif not count:
            pass
        elif job['mode'] == 'kill':
            states = list(iolog.prefixes(initial, operations))
            for n, files in rng.sample(states, min(len(states), job['points'])):
                if files.get(path) is None:
                    raise RuntimeError('the archive was changed')
                reset(files)
                done(f'killed after write {n} of {count}', [{'k': 'crash'}, observe(*args), observe(*args)])
        elif job['mode'] == 'full':
            for n in rng.sample(range(1, count + 1), min(count, job['points'])):
                reset(initial)
                child = Child(root, 'a', args, job['tight_cache'], fail=n)
                event = child.end()
                child.clean()
                done(f'no space from write {n} of {count}', [event, observe(*args), observe(*args)])
        else:
            for _ in range(job['points']):
                reset(initial)
                n = rng.randint(1, count)
                m = rng.choice([0, rng.randint(1, count)])
                done(f'stopped before write {n} of {count}, the other before {m}', together(root, args, job, n, m))
    return traces


def together(root, args, job, n, m):
    """two mounts at the same time: the first is stopped before its n-th write, the other before its m-th (or not at all)"""
    a = Child(root, 'a', args, job['tight_cache'], pause=n)
    stopped = a.stopped()
    b = Child(root, 'b', args, job['tight_cache'], pause=m)
    other = b.stopped() if m else False
    try:
        if not m:
            eb = b.end()
        if stopped:
            a.resume()
            ea = a.end()
        else:
            ea = a.event()
        if m:
            if other:
                b.resume()
                eb = b.end()
            else:
                eb = b.event()
        return [ea, eb, observe(*args)]
    finally:
        a.clean()
        b.clean()


def text(trace):
    return trace['job']['what'] + ': ' + i01.text(trace)


def describe(trace, verdict):
    return f"{verdict['err']} for {text(trace)[:900]} {trace['job']}"


def make(rng, mode, points, big=False):
    top = 'tar' if big else rng.choice(['tar', 'tar', 'zip', 'tar.gz', 'tar.bz2', 'tar.xz'])
    depth = rng.choice([0, 0, 1])
    options = {} if depth == 0 else {'recursionDepth': depth + (top.startswith('tar.'))}
    before = rng.choice(['', '', 'append', 'bigger', 'smaller'])
    return {'mode': mode, 'top': top, 'depth': depth, 'options': options, 'nested': depth > 0, 'points': points,
            'tight': rng.random() < 0.7, 'names': rng.choice([0, 0, 1, 3]), 'seed': rng.getrandbits(40), 'big': big,
            'count': rng.choice([1, 3, 8, 40]), 'tight_cache': rng.random() < 0.6, 'before': 'append' if big else before,
            'place': rng.choice(['zero', 'zero', 'file', 'folder', 'two folders', 'default'])}


def main(check):
    if 'LD_PRELOAD' not in os.environ:
        os.environ['LD_PRELOAD'] = iolog.library()
        os.execv(sys.executable, [sys.executable, *sys.argv])
    rng = check.rng
    check.model('IndexShared')
    for invariant, change in (('Transparent', {'a': ('Reload = "same"', 'Reload = "path"')}), ('Honest', {'a': ('"last"', '"first"')}),
                              ('Honest', {'a': ('Unmark = TRUE', 'Unmark = FALSE')}),
                              ('Transparent', {'a': ('Reload = "same"', 'Reload = "path"'), 'b': ('"memory"', '"remove"')})):
        check.refuted('IndexShared', i01.config('IndexShared', **change), invariant)
    speed.prepare()
    jobs = [make(rng, mode, check.pick(n, 40)) for mode, n in (('kill', 60), ('full', 12), ('both', 3), ('held', 3)) for _ in range(check.pick(56, 600))]
    for mode, n, times in (('kill', 40, 3), ('full', 8, 3), ('both', 3, 8), ('held', 3, 8)):
        jobs += [make(rng, mode, check.pick(n, 4 * n), True) for _ in range(check.pick(times, 4 * times))]
    rng.shuffle(jobs)
    traces = [t for _, ts in check.map(execute, jobs, processes=24, deadline=check.budget * 0.6, timeout=400) for t in ts]
    check.executions += sum(e['k'] in ('mount', 'try') for t in traces for e in t['events'])
    check.notes['modes'] = {m: sum(t['job']['mode'] == m for t in traces) for m in ('kill', 'full', 'both', 'held')}
    for t in traces[-3:]:
        check.sample({'history': text(t)})
    # Most show the same; what interrupted them is no concern of the specification.
    distinct = {hashlib.sha1(json.dumps([t['depth'], t['events']]).encode()).digest(): t for t in traces}
    check.notes['mounts interrupted'] = len(traces)
    check.validate('IndexTrace', list(distinct.values()), describe, share=tlc.Shared(i01.share))
