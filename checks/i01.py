"""
I01: what a mount shows does not depend on index files earlier mounts left.

Spec: IndexLife (archives change, indexes get damaged, mounts end anywhere; checked exhaustively, both safeguards are shown to be
necessary) generates the histories.  They are replayed with real archives and real index files; IndexTrace on top of Nested
judges every mount of every history.
"""

import json
import os
import random
import shutil
import sqlite3
import sys

from vf import speed, tlc, views
from vf import viewjobs as vj
from vf.common import quiet_logging, scratch
from vf.fusevfs import errname
from vf.views import Codec, Vfs, member

from . import a01
from .a01 import PLAIN

BIG = 66 << 20


def config(module='IndexLife', **kw):
    with open(os.path.join(tlc.SPECS, module + '.cfg'), encoding='utf-8') as f:
        text = f.read()
    for old, new in kw.values():
        assert old in text
        text = text.replace(old, new)
    return text


def histories(check, count):
    """histories of IndexLife: all short ones and random longer ones"""
    from vf import tlc

    change = {'b': ('CHECK_DEADLOCK', 'INVARIANT Histories\nCHECK_DEADLOCK'), 'a': ('Emit = FALSE', 'Emit = TRUE')}
    short = tlc.run('IndexLife', cfg_text=config(**change, c=('MaxChanges = 3', 'MaxChanges = 2')))
    long = tlc.run('IndexLife', cfg_text=config(**change, c=('MaxChanges = 3', 'MaxChanges = 5'),
                                                d=('MaxMounts = 3', 'MaxMounts = 6')),
                   extra=['-simulate', f'num={count}', '-depth', '90', '-seed', str(check.rng.getrandbits(30))])
    result = []
    for r in (short, long):
        found = sorted({json.dumps(h) for h in r.json('H')})
        check.rng.shuffle(found)
        result.append([json.loads(h) for h in found])
    check.notes['histories'] = [len(x) for x in result]
    return result


# ---- contents of the archive


def zip_members(ms):
    return [{**vj.zip_time(m), 'sub': m['sub']} for m in ms if m['t'] in 'fdl' and (m['arc'] or vj.norm(m['raw']))]


def fresh(rng, job, maker, count):
    ms = maker.members(1 if job['nested'] else 0, 'zip' if job['top'] == 'zip' else 'tar', count, ['tar', 'tar', 'zip'])
    return zip_members(ms) if job['top'] == 'zip' else ms


def same_length(rng, ms):
    """a variation which takes as much space (before compression)"""
    result = [dict(m) for m in ms]
    rng.shuffle(result)
    for m in result:
        if m['t'] == 'f' and not m['arc'] and m['data']:
            m['data'] = [(x % 9) + 1 for x in m['data']]
    return result


def change(rng, job, maker, ms, action):
    if action in ('append', 'append in place'):
        return ms + fresh(rng, job, maker, rng.choice([1, 1, 2, 4] if action == 'append' else [1]))
    if action == 'smaller':
        keep = rng.randint(1, max(1, len(ms) - 1))
        return fresh(rng, job, maker, 1) if rng.random() < 0.5 else rng.sample(ms, keep)
    if action == 'bigger':
        extra = fresh(rng, job, maker, rng.choice([2, 4]))
        mixed = ms + extra
        rng.shuffle(mixed)
        return extra if rng.random() < 0.3 else mixed
    return same_length(rng, ms)


def pack(job, ms, codec, tokens):
    real, spec = a01.materialize(ms, codec, tokens)
    for m, s in zip(real, spec):
        if m.get('big'):
            m['bytes'] = b'\7' * BIG
            s['data'] = codec.alias.setdefault(m['bytes'], [999])
        s.pop('big', None)
    if job['top'] == 'zip':
        spec = [{**x, 'uid': views.ANY, 'gid': views.ANY, 'mode': x['mode'] & 0o777 or (0o770 if x['t'] == 'd' else 0o660)}
                for x in spec]
        return a01.zip_bytes(real, codec), spec
    data = a01.tar_bytes(real, codec, job['tight'])
    if job['top'] != 'tar':
        data = a01.squeeze(data, job['top'].split('.')[1])
    return data, spec


# ---- damage


def damage(rng, folder, paths):
    for path in paths:
        kind = rng.choice(['empty', 'garbage', 'other database', 'text', 'header', 'unfinished'])
        if kind == 'empty':
            open(path, 'wb').close()
        elif kind == 'garbage':
            with open(path, 'wb') as f:
                f.write(bytes(rng.getrandbits(8) for _ in range(rng.choice([10, 5000]))))
        elif kind == 'text':
            with open(path, 'w') as f:
                f.write('something else\n' * 100)
        elif kind == 'header':
            with open(path, 'r+b') as f:
                f.truncate(rng.choice([16, 100, 1024]))
        elif kind == 'other database':
            os.unlink(path)
            c = sqlite3.connect(path)
            c.execute('CREATE TABLE notes (x)')
            c.commit()
            c.close()
        else:
            c = sqlite3.connect(path)
            try:
                c.execute('CREATE TABLE filestmp (x)')
                c.execute('DELETE FROM files WHERE rowid IN (SELECT rowid FROM files LIMIT 1)')
                c.commit()
            except sqlite3.Error:
                pass
            c.close()


def indexes(root):
    result = []
    for folder, _, files in os.walk(root):
        result += [os.path.join(folder, f) for f in files if '.index' in f]
    return sorted(result)


def options_of(job, root, event):
    o = dict(job['options'])
    place = job['place']
    if place == 'file':
        o['indexFilePath'] = os.path.join(root, 'own.index.sqlite')
    elif place == 'folder':
        o['indexFolders'] = [os.path.join(root, 'indexes')]
    elif place == 'two folders':
        o['indexFolders'] = ['', os.path.join(root, 'indexes')]
    elif place == 'memory':
        o['indexFilePath'] = ':memory:'
    if place in ('zero', 'folder', 'two folders'):
        o['indexMinimumFileCount'] = 0
    if event.endswith('verifying'):
        o['verifyModificationTime'] = True
    if event.endswith('anew'):
        o['clearIndexCache'] = True
    return o


def crashing(path, mountPoint, options, calls):
    """ends a mount in a child after so many calls of functions of ratarmount"""
    pid = os.fork()
    if pid:
        os.waitpid(pid, 0)
        return
    left = [calls]

    def profile(frame, event, _):
        if event == 'call' and 'ratarmount' in frame.f_code.co_filename:
            left[0] -= 1
            if left[0] <= 0:
                os._exit(9)

    try:
        sys.setprofile(profile)
        Vfs([path], mountPoint, **options)
    except BaseException:  # pylint: disable=broad-except
        os._exit(8)
    os._exit(7)


def execute(job):
    quiet_logging()
    rng = random.Random(job['seed'])
    codec = Codec(job['names'], 1)
    out = {'job': job, 'depth': job['depth'], 'how': {'strip': False, 'suffix': ''}, 'events': []}
    home = os.environ.get('HOME')
    with scratch('vf-index-') as root:
        os.environ['HOME'] = os.path.join(root, 'home')
        os.mkdir(os.environ['HOME'])
        try:
            history(job, rng, codec, root, out)
        finally:
            if home is not None:
                os.environ['HOME'] = home
    return out


def history(job, rng, codec, root, out):
    maker = a01.Maker(rng, 'ab')
    tokens = [1000]
    # The extension tells nothing if the content is replaced.
    path = os.path.join(root, 'archive.' + job['top'])
    mountPoint = os.path.join(root, 'mp')
    os.mkdir(mountPoint)
    clock = [1_500_000_000_000_000_000]
    number = [0]
    names = set()

    def store(ms, app):
        data, spec = pack(job, ms, codec, tokens)
        with open(path, 'wb') as f:
            f.write(data)
        names.update(a01.spec_names(spec, out['how']))
        number[0] += 1
        touch({'ms': spec, 'size': len(data), 'id': number[0], 'app': app})

    def touch(event):
        clock[0] += rng.choice([10**9, 10**6, 10**6, 10**8, 3600 * 10**9])
        back = rng.choice([0, 0, 0, 10**15])
        clock[0] += 7 * 10**6
        os.utime(path, ns=(clock[0] - back, clock[0] - back))
        out['events'].append({'k': 'set', **event, 'mtime': len(out['events'])})

    ms = fresh(rng, job, maker, rng.choice([1, 2, 5, 9]))
    if job['big']:
        ms = [{**PLAIN, **member(['big'], 'f'), 'big': True}]
        ms += [{**PLAIN, **member([rng.choice('ab'), rng.choice('abx') + str(i)], 'f'), 'data': [i % 9 + 1]} for i in range(102)]
        ms[1:1] = fresh(rng, job, maker, 3)
        ms += fresh(rng, job, maker, 2)
    store(ms, False)
    for action in job['history']:
        if action.startswith('mount'):
            event = {'k': 'mount', 'verify': action.endswith('verifying'), 'clear': action.endswith('anew'), 'fault': '',
                     'tree': [], 'vers': []}
            out['events'].append(event)
            try:
                vfs = Vfs([path], mountPoint, **options_of(job, root, action))
            except Exception as e:  # pylint: disable=broad-except
                event['fault'] = 'mounting failed: ' + errname(e) + ' ' + str(e)[:80]
                continue
            try:
                event.update(views.record(vfs, codec, names, versions=False))
            finally:
                vfs.unmount()
        elif action == 'crash':
            crashing(path, mountPoint, options_of(job, root, 'mount'), int(10 ** rng.uniform(1.5, 3.7)))
            out['events'].append({'k': 'crash'})
        elif action == 'touch':
            last = [e for e in out['events'] if e['k'] == 'set'][-1]
            # the same content as before
            touch({**{x: last[x] for x in ('ms', 'size', 'id')}, 'app': True})
        elif action == 'remove index':
            for i in indexes(root):
                os.unlink(i)
        elif action == 'damage index':
            damage(rng, root, indexes(root))
        else:
            ms = change(rng, job, maker, ms, action)
            store(ms, action.startswith('append') and job['top'] == 'tar')
    shutil.rmtree(os.path.join(root, 'home'), ignore_errors=True)


def text(trace):
    result = []
    for e in trace['events']:
        if e['k'] == 'try':
            result.append('mount without space')
            continue
        result.append({'set': lambda e: f"{e['size']} B [{a01.text(e['ms'])[:300]}]", 'crash': lambda e: 'crash',
                       'mount': lambda e: 'mount' + ' verify' * e['verify'] + ' clear' * e['clear']}[e['k']](e))
    return '; '.join(result)


def describe(trace, verdict):
    return f"{verdict['err']} for {text(trace)[:900]} {trace['job']}"


def make(rng, history, big=False):
    top = 'tar' if big else rng.choice(['tar', 'tar', 'tar', 'zip', 'zip', 'tar.gz', 'tar.bz2', 'tar.xz'])
    depth = rng.choice([0, 0, 1, 99])
    options = {} if depth == 0 else {'recursionDepth': depth + (top.startswith('tar.'))}
    return {'history': history, 'top': top, 'depth': depth, 'options': options, 'nested': depth > 0,
            'tight': rng.random() < 0.7, 'names': rng.choice([0, 0, 1, 3]), 'seed': rng.getrandbits(40), 'big': big,
            'place': rng.choice(['zero', 'zero', 'file', 'folder', 'two folders', 'default', 'memory'])}


def share(trace, number):
    """for IndexTrace"""
    events = []
    for e in trace['events']:
        e = dict(e)
        if 'ms' in e:
            e['ms'] = number(e['ms'])
        if 'tree' in e:
            e['view'] = number({'tree': e.pop('tree'), 'vers': e.pop('vers')})
        events.append(e)
    return {'depth': trace['depth'], 'how': trace['how'], 'events': events}


def main(check):
    rng = check.rng
    check.model('IndexLife')
    check.refuted('IndexLife', config(a=('"marker"', '"tables"')), 'Transparent')
    check.refuted('IndexLife', config(a=('"first"', '"late"')), 'Transparent')
    check.refuted('IndexLife', config(a=('Restat = FALSE', 'Restat = TRUE')), 'Transparent')
    short, long = histories(check, check.pick(12000, 80000))
    found = short[: check.pick(900, 6000)] + long[: check.pick(900, 9000)]
    jobs = [make(rng, h) for h in found]
    rng.shuffle(jobs)
    appending = [h for h in found if any(h[i:i + 2] in (['mount', 'append'], ['mount', 'append in place']) for i in range(len(h)))]
    replaced = [h for h in found if any(h[i:i + 3] == ['mount', 'same size', 'mount verifying'] for i in range(len(h)))]
    for place in ('zero', 'folder', 'file', 'two folders'):
        for top in ('zip', 'tar', 'tar.gz'):
            for h in rng.sample(replaced, min(len(replaced), check.pick(9, 90))):
                jobs.insert(0, {**make(rng, h), 'top': top, 'place': place, 'options': {}, 'depth': 0, 'nested': False})
    check.notes['replaced within the same second or later'] = len(replaced)
    jobs[:0] = [make(rng, rng.choice(appending), True) for _ in range(check.pick(24, 150))]
    speed.prepare()
    traces = [t for _, t in check.map(execute, jobs, deadline=check.budget * 0.6)]
    check.executions += sum(e['k'] == 'mount' for t in traces for e in t['events'])
    for t in traces[-3:]:
        check.sample({'history': text(t)})
    check.validate('IndexTrace', traces, describe, share=tlc.Shared(share))
