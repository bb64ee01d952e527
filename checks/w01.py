"""
W01: a mount with a write overlay behaves like an ordinary file system which initially holds the contents of the mounted
archives, whatever sequence of operations is applied.

Spec: Posix (reference), Overlay/OverlayMC (layered design refines Posix), OverlayTrace (trace validation).
Histories: all histories TLC explores up to a depth (emitted by OverlayMC), TLC simulation walks, and long random
histories with open handles; every one is executed on the real FuseMount object and judged by TLC.
"""

import contextlib
import json
import os
import random
import time

from vf import archives, speed, tlc
from vf.common import quiet_logging, scratch
from vf.fusevfs import Vfs

PROP = 'W01'

# canonical name -> candidates for the real name
NAMES = [
    {},
    {'d': "d'q", 'f': 'f"q"', 'g': 'g h', 'a': "a''", 'b': 'b;--', 'e': '-e', 'h': ' h', 'x': '$x', 'l': '`l`'},
    {'d': 'ab', 'f': 'a_', 'g': 'a%', 'a': 'ab', 'b': 'axb', 'e': 'a', 'h': 'abc', 'x': 'A', 'l': 'Ab'},
    {'d': 'dü', 'f': '文', 'g': '\U0001f600', 'a': 'é', 'b': 'e\u0301', 'e': '*', 'h': '[a]', 'x': '?', 'l': 'ß'},
    {'d': 'new\nline', 'f': 'tab\t', 'g': '.hid', 'a': '..q', 'b': 'b.', 'e': '...', 'h': '~', 'x': '#', 'l': '%41'},
    {'d': 'd' * 200, 'f': 'f' * 255, 'g': 'g.t', 'a': 'a.versions_', 'b': 'b.g', 'e': 'versions', 'h': '0', 'x': '1', 'l': '-'},
    {'d': '.ratarmount', 'f': 'null', 'g': 'deleted', 'a': 'path', 'b': 'name', 'e': '/'.strip('/') or 'e', 'h': 'h', 'x': 'x', 'l': 'l'},
]

BASIC = [
    ('d', 'd', 0o700, b'', ''),
    ('d/a', 'f', 0o600, b'\1', ''),
    ('f', 'f', 0o755, b'\2\3', ''),
]
RICH = [
    ('d', 'd', 0o700, b'', ''),
    ('d/a', 'f', 0o600, b'\1', ''),
    ('d/e', 'd', 0o555, b'', ''),
    ('d/e/b', 'f', 0o444, b'\4\5\6', ''),
    ('d/l', 'l', 0o777, b'', 'a'),
    ('f', 'f', 0o4755, b'\2\3', ''),
    ('h', 'f', 0o640, b'', ''),
    ('l', 'l', 0o777, b'', 'd/nothing'),
    ('x', 'd', 0o2750, b'', ''),
]
LOWS = {'basic': BASIC, 'rich': RICH}
KINDS = ['tar', 'tar.gz', 'zip', 'folder', 'union', 'tar-noparents', 'folder+tar']


def canon(text):
    return tuple(x for x in text.split('/') if x)


class World:
    """one history: canonical <-> real names and data"""

    def __init__(self, seed, low, kind, options, names, scale, umask):
        self.rng = random.Random(seed)
        self.low, self.kind, self.options, self.scale, self.umask = low, kind, options, scale, umask
        self.map = {**{x: x for x in 'dfgabehxl'}, **NAMES[names]}
        self.back = {v: k for k, v in self.map.items()}
        if len(self.back) != len(self.map):
            self.map = {x: x for x in 'dfgabehxl'}
            self.back = dict(self.map)

    def real(self, path):
        return tuple(self.map.get(x, x) for x in path)

    def unreal(self, path):
        return [self.back.get(x, '?' + x) for x in path]

    def bytes(self, data):
        return b''.join(bytes([x]) * self.scale for x in data)

    def unbytes(self, data):
        k = self.scale
        result = []
        if len(data) % k:
            return [-len(data)]
        for i in range(0, len(data), k):
            result.append(data[i] if data[i : i + k] == data[i : i + 1] * k else -1)
        return result

    def build(self, root):
        tree = [
            archives.entry(
                self.real(canon(p)), t, b''.join(bytes([x]) * self.scale for x in data), tgt, mode,
                mtime=1_000_000_000 + 60 * i, uid=1000 + i, gid=2000 + i,
            )
            for i, (p, t, mode, data, tgt) in enumerate(LOWS[self.low])
        ]
        path = lambda name: os.path.join(root, name)
        if self.kind == 'tar':
            return [archives.write_tar(path('l.tar'), tree)]
        if self.kind == 'tar-noparents':
            return [archives.write_tar(path('l.tar'), tree, dirs=any(e['p'] == self.real(('x',)) for e in tree) and self.low == 'rich')]
        if self.kind == 'tar.gz':
            return [archives.compress(archives.write_tar(path('l.tar'), tree), 'gz')]
        if self.kind == 'zip':
            return [archives.write_zip(path('l.zip'), tree)]
        if self.kind == 'folder':
            return [archives.write_folder(path('lower'), tree)]
        # Two sources: the second one decides for a path both have.
        first = [e if e['t'] != 'f' else {**e, 'data': b'shadowed', 'mode': 0o600} for e in tree[:-1]]
        second = [e for i, e in enumerate(tree) if i % 2 == 0 or e['t'] in 'fd']
        keep = {e['p'] for e in second}
        first = [e for e in first if e['p'] not in keep or e['t'] != 'l']
        first += [e for e in tree if e['p'] not in keep and e['p'] not in {f['p'] for f in first}]
        if self.kind == 'union':
            return [archives.write_tar(path('1.tar'), first), archives.write_tar(path('2.tar'), second)]
        return [archives.write_folder(path('lower'), first), archives.write_tar(path('2.tar'), second)]

    # ---- observation -> canonical tree

    def tree(self, vfs, since):
        result = []
        for e in vfs.tree():
            if e['path'][0] == '.ratarmount-control':
                continue
            a = e.get('attr', {})
            mtime = a.get('st_mtime', 0) // 10**9
            out = {
                'p': self.unreal(e['path']),
                't': e['t'] if not e['twice'] else '!twice',
                'mode': a.get('st_mode', 0) & 0o7777,
                'data': self.unbytes(e['content']) if 'content' in e else [],
                'tgt': e.get('target', ''),
                'mtime': -1 if mtime >= since else mtime,
                'uid': a.get('st_uid', -9),
                'gid': a.get('st_gid', -9),
                'size': 0,
            }
            if e['t'] == 'f':
                size = a['st_size']
                out['size'] = size // self.scale if size % self.scale == 0 else -1
            result.append(out)
        return result


EV = {'op': '', 'p': [], 'q': [], 'mode': 0, 'tgt': '', 'len': 0, 'u': -1, 'g': -1, 't': 0, 'uid': 0, 'gid': 0, 'h': 0,
      'off': 0, 'data': [], 'out': [], 'res': 'ok', 'tree': []}


def execute(job):
    """runs one history on the real code, returns the trace"""
    quiet_logging()
    world = World(*[job[k] for k in ('seed', 'low', 'kind', 'options', 'names', 'scale', 'umask')])
    since = int(time.time()) - 2
    uid, gid = os.getuid(), os.getgid()
    old = os.umask(0o022)
    events = []
    try:
        with scratch('vf-w01-') as root:
            sources = world.build(root)
            mountPoint = os.path.join(root, 'mp')
            os.mkdir(mountPoint)
            with contextlib.closing(_Plain(sources, mountPoint, world.options)) as plain:
                low = world.tree(plain.vfs, since)
            os.umask(world.umask)
            vfs = Vfs(sources, mountPoint, writeOverlay=os.path.join(root, 'overlay'), **world.options)
            try:
                _run(job, world, vfs, events, since, uid, gid)
            finally:
                vfs.unmount()
    finally:
        os.umask(old)
    for e in low:
        e.pop('size')
    # The contents are known from the construction, do not trust what was read.
    expected = {canon(p): (t, list(data), tgt) for p, t, _, data, tgt in LOWS[world.low]}
    lowView = {tuple(e['p']): (e['t'], e['data'], e['tgt']) for e in low}
    if expected != lowView:
        events = [{**EV, 'op': 'lower', 'res': 'wrong lower tree', 'tree': []}]
    for e in low:
        if e['t'] == 'd' and world.kind not in ('tar', 'tar.gz', 'zip') or world.kind == 'tar-noparents':
            # Attributes of merged or made up directories are not specified here.
            if e['t'] == 'd':
                e.update(mode=-2, mtime=-2, uid=-2, gid=-2)
    return {'job': job, 'low': low, 'ev': events}


class _Plain:
    def __init__(self, sources, mountPoint, options):
        self.vfs = Vfs(sources, mountPoint, **options)

    def close(self):
        self.vfs.unmount()


def _run(job, world, vfs, events, since, uid, gid):
    lens = {}

    def record(op, res, tree=True, **kw):
        e = {**EV, 'op': op, 'res': res, 'uid': uid, 'gid': gid, **kw}
        if tree:
            e['tree'] = world.tree(vfs, since)
        events.append(e)

    handles = {}
    counter = 0
    rng = world.rng

    def one(op):
        nonlocal counter
        if op['op'] in ('rmdir', 'rename'):
            # libfuse keeps deleted files which are still open as hidden files, folders with such files are not empty
            for handle in [h for h, (_, path) in vfs.handles.items() if path and path[-1].startswith('.fuse_hidden')]:
                release(handle)
        name = op['op']
        p = tuple(op.get('p', ()))
        q = tuple(op.get('q', ()))
        rp, rq = world.real(p), world.real(q)
        kw = {'p': list(p)}
        if name == 'create':
            counter += 1
            res = vfs.call(vfs.create, rp, op['mode'], counter)
            record('create', res, mode=op['mode'], h=counter, **kw)
            if res == 'ok':
                if op.get('keep'):
                    handles[counter] = p
                else:
                    release(counter)
        elif name == 'mknod':
            record(name, vfs.call(vfs.mknod, rp, op['mode']), mode=op['mode'], **kw)
        elif name == 'mkdir':
            record(name, vfs.call(vfs.mkdir, rp, op['mode']), mode=op['mode'], **kw)
        elif name == 'symlink':
            record(name, vfs.call(vfs.symlink, rp, op['tgt']), tgt=op['tgt'], **kw)
        elif name in ('unlink', 'rmdir'):
            record(name, vfs.call(getattr(vfs, name), rp), **kw)
        elif name in ('rename', 'link'):
            record(name, vfs.call(getattr(vfs, name), rp, rq), q=list(q), **kw)
        elif name == 'truncate':
            record(name, vfs.call(vfs.truncate, rp, op['len'] * world.scale), len=op['len'], **kw)
        elif name == 'chmod':
            record(name, vfs.call(vfs.chmod, rp, op['mode']), mode=op['mode'], **kw)
        elif name == 'chown':
            record(name, vfs.call(vfs.chown, rp, op['u'], op['g']), u=op['u'], g=op['g'], **kw)
        elif name == 'utimens':
            record(name, vfs.call(vfs.utimens, rp, op['t']), t=op['t'], **kw)
        elif name == 'append':
            counter += 1
            res = vfs.call(vfs.open, rp, os.O_WRONLY, counter)
            record('open', res, h=counter, **kw)
            if res == 'ok':
                size = vfs.attr(rp)['st_size'] // world.scale
                write(counter, size, op['data'])
                release(counter)
        elif name == 'rewrite':
            # open(O_TRUNC), which the kernel splits into truncate and open
            res = vfs.call(vfs.truncate, rp, 0)
            record('truncate', res, **kw)
            if res == 'ok':
                counter += 1
                record('open', vfs.call(vfs.open, rp, os.O_RDWR, counter), h=counter, **kw)
                write(counter, 0, op['data'])
                read(counter, 0, 5)
                release(counter)
        elif name == 'open':
            counter += 1
            res = vfs.call(vfs.open, rp, op['flags'], counter)
            record('open', res, h=counter, **kw)
            if res == 'ok':
                handles[counter] = (p, op['flags'])
        elif name == 'remount':
            for handle in list(handles):
                release(handle)
            res = vfs.call(vfs.remount)
            record('remount', res)
            if res != 'ok':
                raise RuntimeError(res)
        else:
            raise ValueError(name)

    def write(handle, off, data):
        record('write', vfs.call(vfs.write, handle, off * world.scale, world.bytes(data)), h=handle, off=off, data=list(data))

    def read(handle, off, length):
        out = []
        try:
            out = world.unbytes(vfs.read(handle, off * world.scale, length * world.scale))
            res = 'ok'
        except Exception as e:  # pylint: disable=broad-except
            res = 'EXC:' + type(e).__name__
        record('read', res, tree=False, h=handle, off=off, len=length, out=out)

    def release(handle):
        handles.pop(handle, None)
        record('release', vfs.call(vfs.release, handle), h=handle)

    def same_inode(op):
        # renaming one name of a file to another name of it does nothing, the mount cannot know
        return op['op'] == 'rename' and op['p'] != op['q'] and linked & {tuple(op['p']), tuple(op['q'])} == {
            tuple(op['p']), tuple(op['q'])}

    linked = set()
    for op in job['ops']:
        if op['op'] == 'link':
            linked |= {tuple(op['p']), tuple(op['q'])}
        elif op['op'] == 'rename':
            if same_inode(op):
                continue
            if any(x[: len(op['p'])] == tuple(op['p']) for x in linked):
                linked.add(tuple(op['q']))
                linked |= {tuple(op['q']) + x[len(op['p']) :] for x in linked if x[: len(op['p'])] == tuple(op['p'])}
        if op['op'] == 'random':
            # a random operation chosen by looking at what currently exists
            op = choose(rng, events, job, handles)
            if op['op'] == 'rename':
                if same_inode(op):
                    continue
                if any(x[: len(op['p'])] == tuple(op['p']) for x in linked):
                    linked |= {tuple(op['q']) + x[len(op['p']) :] for x in linked if x[: len(op['p'])] == tuple(op['p'])}
            if op['op'] == 'link':
                linked |= {tuple(op['p']), tuple(op['q'])}
        if op['op'] in ('hwrite', 'hread', 'hrelease'):
            if not handles:
                continue
            handle = sorted(handles)[op['which'] % len(handles)]
            if op['op'] == 'hwrite':
                if isinstance(handles[handle][-1], int) and not handles[handle][-1] & (os.O_WRONLY | os.O_RDWR):
                    read(handle, op['off'], op['len'])
                else:
                    write(handle, op['off'], op['data'])
            elif op['op'] == 'hread':
                if isinstance(handles[handle][-1], int) and handles[handle][-1] & os.O_WRONLY:
                    continue
                read(handle, op['off'], op['len'])
            else:
                release(handle)
            continue
        one(op)
    for handle in list(handles):
        release(handle)


TOP = ['d', 'f', 'g', 'h', 'l', 'x']
SUB = ['a', 'b', 'e', 'l']


def some_path(rng, existing):
    if existing and rng.random() < 0.7:
        return list(rng.choice(existing)['p'])
    p = [rng.choice(TOP)]
    while rng.random() < 0.5 and len(p) < 3:
        p.append(rng.choice(SUB))
    return p


def free_path(rng, existing):
    folders = [[]] + [e['p'] for e in existing if e['t'] == 'd']
    p = list(rng.choice(folders))
    return p + [rng.choice(TOP if not p else SUB)] if len(p) < 3 else p


def choose(rng, events, job, handles):
    existing = []
    for e in reversed(events):
        if e['tree']:
            existing = e['tree']
            break
    else:
        existing = [{'p': list(canon(p)), 't': t} for p, t, *_ in LOWS[job['low']]]
    files = [e for e in existing if e['t'] == 'f'] or existing
    dirs = [e for e in existing if e['t'] == 'd'] or existing
    kind = rng.choices(
        ['create', 'mknod', 'mkdir', 'symlink', 'unlink', 'rmdir', 'rename', 'link', 'truncate', 'chmod', 'chown',
         'utimens', 'append', 'rewrite', 'open', 'remount', 'hwrite', 'hread', 'hrelease'],
        [8, 2, 7, 4, 9, 5, 14, 4, 5, 5, 3, 4, 6, 4, 7, 3, 9, 7, 4],
    )[0]
    fresh = rng.random() < 0.75
    if kind in ('create', 'mknod'):
        return {'op': kind, 'p': free_path(rng, existing) if fresh else some_path(rng, existing),
                'mode': rng.choice([0o600, 0o755, 0o777, 0o640, 0o4711]), 'keep': rng.random() < 0.3}
    if kind == 'mkdir':
        return {'op': kind, 'p': free_path(rng, existing) if fresh else some_path(rng, existing),
                'mode': rng.choice([0o700, 0o755, 0o777, 0o1777])}
    if kind == 'symlink':
        return {'op': kind, 'p': free_path(rng, existing) if fresh else some_path(rng, existing),
                'tgt': rng.choice(['a', 'd/a', '../f', '/nowhere', 'x'])}
    if kind == 'unlink':
        return {'op': kind, 'p': list(rng.choice(files)['p']) if files and fresh else some_path(rng, existing)}
    if kind == 'rmdir':
        return {'op': kind, 'p': list(rng.choice(dirs)['p']) if dirs and fresh else some_path(rng, existing)}
    if kind in ('rename', 'link'):
        return {'op': kind, 'p': some_path(rng, existing),
                'q': free_path(rng, existing) if rng.random() < 0.5 else some_path(rng, existing)}
    if kind == 'truncate':
        return {'op': kind, 'p': list(rng.choice(files)['p']) if files and fresh else some_path(rng, existing),
                'len': rng.choice([0, 1, 2, 5])}
    if kind == 'chmod':
        return {'op': kind, 'p': some_path(rng, existing), 'mode': rng.choice([0o400, 0o777, 0o500, 0o2711])}
    if kind == 'chown':
        return {'op': kind, 'p': some_path(rng, existing), **rng.choice([{'u': 5, 'g': -1}, {'u': -1, 'g': 6}, {'u': 0, 'g': 7}])}
    if kind == 'utimens':
        return {'op': kind, 'p': some_path(rng, existing), 't': rng.choice([0, 1, 999, 123456])}
    if kind in ('append', 'rewrite'):
        return {'op': kind, 'p': list(rng.choice(files)['p']) if files and fresh else some_path(rng, existing),
                'data': [rng.randint(1, 9) for _ in range(rng.choice([1, 2, 3]))]}
    if kind == 'open':
        return {'op': kind, 'p': list(rng.choice(files)['p']) if files and rng.random() < 0.9 else some_path(rng, existing),
                'flags': rng.choice([os.O_RDONLY, os.O_WRONLY, os.O_RDWR])}
    if kind == 'remount':
        return {'op': kind}
    return {'op': kind, 'which': rng.randint(0, 7), 'off': rng.choice([0, 0, 1, 2, 4]), 'len': rng.choice([1, 2, 6]),
            'data': [rng.randint(1, 9) for _ in range(rng.choice([1, 2]))]}


OPTIONS = [
    {},
    {'enableFileVersions': False},
    {'recursive': True},
    {'recursive': True, 'enableFileVersions': False},
    {'controlInterface': True},
    {'recursive': True, 'lazyMounting': True},
]


def jobs_from(rng, histories, low, remount=0.25):
    for ops in histories:
        ops = [dict(o) for o in ops]
        if rng.random() < remount:
            ops.insert(rng.randint(1, len(ops)), {'op': 'remount'})
        yield {
            'seed': rng.randint(0, 1 << 30), 'low': low, 'kind': rng.choice(KINDS), 'options': rng.choice(OPTIONS),
            'names': rng.choice([0, 0, *range(len(NAMES))]), 'scale': rng.choice([1, 1, 7]),
            'umask': rng.choice([0o022, 0o022, 0o077, 0o000]), 'ops': ops,
        }


def random_jobs(rng, count, length):
    for _ in range(count):
        yield {
            'seed': rng.randint(0, 1 << 30), 'low': 'rich', 'kind': rng.choice(KINDS), 'options': rng.choice(OPTIONS),
            'names': rng.randint(0, len(NAMES) - 1), 'scale': rng.choice([1, 1, 7, 20000]),
            'umask': rng.choice([0o022, 0o077, 0o000]), 'ops': [{'op': 'random'}] * length,
        }


def describe(trace, verdict):
    ops = [(e['op'], e['p'], e['q'] or '', e['res']) for e in trace['ev'][: verdict['i']]]
    return f"{verdict['err']} after {ops[-6:]} (kind {trace['job']['kind']}, options {trace['job']['options']})"


def main(check):
    quiet_logging()
    rng = check.rng
    # 1. The design refines the reference.
    check.model('OverlayMC', check.pick('OverlayMC3.cfg', 'OverlayMC4.cfg'), timeout=600)
    # 2. Behaviours of the specification.
    with open(os.path.join(tlc.SPECS, 'OverlayMC3.cfg')) as f:
        text = f.read().replace('Emit = FALSE', 'Emit = TRUE')
    r = tlc.run('OverlayMC', cfg_text=text)
    histories = sorted(r.json('H'), key=json.dumps)
    short = [h for h in histories if len(h) <= 2]
    longer = [h for h in histories if len(h) == 3]
    rng.shuffle(short)
    rng.shuffle(longer)
    jobs = list(jobs_from(rng, short[: check.pick(5000, 99999)], 'basic'))
    jobs += list(jobs_from(rng, longer[: check.pick(3000, 15000)], 'basic'))
    jobs += list(random_jobs(rng, check.pick(1200, 4000), 40))
    rng.shuffle(jobs)
    check.notes['histories'] = {'emitted_by_tlc': len(histories), 'replayed': len(jobs)}
    traces = []
    speed.prepare()
    for job, trace in check.map(execute, jobs, deadline=check.budget * 0.55):
        traces.append(trace)
    check.executions += sum(len(t['ev']) for t in traces)
    check.sample({'job': traces[0]['job'], 'events': [(e['op'], e['p'], e['res']) for e in traces[0]['ev']]})
    check.validate('OverlayTrace', traces, describe)
