"""
S01: sources mounted into and unmounted from a running mount by its control interface.

Spec: Subvolumes (the nested folders which the code keeps refine a map from mount points to sources), DynGen generates
histories of commands and of what is done with the files meanwhile, DynTrace judges what is visible after each.
"""

import io
import json
import os
import random
import tarfile
import zipfile

from vf import speed, tlc
from vf.common import quiet_logging, scratch
from vf.fusevfs import Vfs, errname

CONTROL = ('.ratarmount-control', 'command')
FILES = {1: ('f',), 2: ('d', 'h'), 3: ('d',)}
XATTR = 'user.x'


class Contents:
    """what there is to mount"""

    def __init__(self, rng, root):
        self.rng = rng
        self.tokens = {}
        self.nodes = {}
        self.names = {}
        self.places = {}
        for i, kind in enumerate(rng.sample(['folder', 'tar', 'zip', 'tar.gz', 'tar'], 4), 1):
            nested = i == 4 and kind != 'folder'
            members = [(('f',), self.token()), (('d', 'h'), self.token())]
            members += [((n,), self.token()) for n in 'xyz' if rng.random() < 0.4]
            members += [(('a', n), self.token()) for n in 'fx' if rng.random() < 0.4]
            members += [(('d', 'b', 'h'), self.token())] * (rng.random() < 0.3)
            folders = {p[:k] for p, _ in members for k in range(1, len(p))}
            attributes = {p: rng.choice([0, rng.randint(1, 99)]) if kind.startswith('tar') else 0 for p, _ in members}
            self.nodes[i] = [{'p': list(p), 't': 'd', 'd': 0, 'x': 0} for p in sorted(folders)]
            self.nodes[i] += [{'p': list(p), 't': 'f', 'd': t, 'x': attributes[p]} for p, t in members]
            data = {p: self.data(t) for p, t in members}
            inner = None
            if nested:
                t = self.token()
                inner = self.tar({('i', 'k'): self.data(t)}, {})
                self.tokens[inner] = t2 = len(self.tokens) + 1
                data[('n.tar',)] = inner
                whole = list(self.nodes[i])
                self.nodes[i] = whole + [{'p': ['n.tar'], 't': 'f', 'd': t2, 'x': 0}]
                self.nodes[5] = whole + [{'p': ['n.tar'], 't': 'd', 'd': 0, 'x': 0}, {'p': ['n.tar', 'i'], 't': 'd', 'd': 0, 'x': 0},
                                         {'p': ['n.tar', 'i', 'k'], 't': 'f', 'd': t, 'x': 0}]
            elif i == 4:
                self.nodes[5] = self.nodes[4]
            self.names[i] = rng.choice(['a', 'src', 'src', f'c{i}.{kind}', 'b'])
            self.places[i] = []
            for copy in '12':
                path = os.path.join(root, f's{i}{copy}', self.names[i])
                os.makedirs(os.path.dirname(path))
                self.places[i].append(path)
                if kind == 'folder':
                    for p, content in data.items():
                        os.makedirs(os.path.dirname(os.path.join(path, *p)), exist_ok=True)
                        with open(os.path.join(path, *p), 'wb') as f:
                            f.write(content)
                    continue
                with open(path, 'wb') as f:
                    f.write(self.zip(data) if kind == 'zip' else self.tar(data, attributes, 'w:gz' if kind == 'tar.gz' else 'w'))

    def token(self):
        t = len(self.tokens) + 1
        self.tokens[b'content %d\n' % t * self.rng.choice([1, 1, 7, 5000])] = t
        return t

    def data(self, token):
        return next(d for d, t in self.tokens.items() if t == token)

    @staticmethod
    def tar(data, attributes, mode='w'):
        f = io.BytesIO()
        with tarfile.open(fileobj=f, mode=mode, format=tarfile.PAX_FORMAT) as t:
            for p, content in data.items():
                info = tarfile.TarInfo('/'.join(p))
                info.size = len(content)
                if attributes.get(p):
                    info.pax_headers = {'SCHILY.xattr.' + XATTR: str(attributes[p])}
                t.addfile(info, io.BytesIO(content))
        return f.getvalue()

    @staticmethod
    def zip(data):
        f = io.BytesIO()
        with zipfile.ZipFile(f, 'w', zipfile.ZIP_DEFLATED) as z:
            for p, content in data.items():
                z.writestr('/'.join(p), content)
        return f.getvalue()


class Started:
    """what would have been started"""

    def __init__(self, calls, arguments):
        calls.append(arguments)

    def poll(self):
        return 0

    def wait(self, timeout=None):  # pylint: disable=unused-argument
        return 0

    def terminate(self):
        pass

    kill = terminate


class History:
    def __init__(self, job, root):
        self.rng = random.Random(job['seed'])
        self.root = root
        self.contents = Contents(self.rng, root)
        self.mountPoint = os.path.join(root, self.rng.choice(['mp', 'mount point', 'a']))
        os.mkdir(self.mountPoint)
        self.calls = []
        self.opened = {}
        self.written = []  # handles of command files opened already
        self.number = 0

    def start(self, kind):
        rng = self.rng
        count = {'empty': 0, 'folders': rng.choice([2, 3]), 'union': rng.choice([1, 2]), 'one': 1}[kind]
        ids = [rng.randint(1, 4) for _ in range(count)]
        options = {'disableUnionMount': True} if kind in ('folders', 'one') else {}
        if kind == 'folders' and rng.random() < 0.3:
            options['indexFilePath'] = os.path.join(self.root, 'first.index.sqlite')
        paths, src = self.sources(ids)
        self.vfs = Vfs(paths, self.mountPoint, controlInterface=True, **options)
        return {'op': 'start', 'src': src, 'sub': kind in ('folders', 'one'), 'dyn': kind in ('empty', 'folders')}

    def sources(self, ids, recursive=False):
        paths, src, used = [], [], []
        for i in ids:
            path = self.contents.places[i][used.count(i) % 2]
            paths.append(path)
            used.append(i)
            src.append({'id': 5 if recursive and i == 4 else i, 'name': self.contents.names[i]})
        return paths, src

    def spell(self, p):
        rng = self.rng
        rel = rng.choice(['/', '/', '//', '/./']).join(p)
        rel = rng.choice(['', '', './', '../', 'b/../', '../../']) + rel + rng.choice(['', '', '/'])
        if rng.random() < 0.4:
            return os.path.join(self.mountPoint, rel if '..' not in rel or rel.startswith('b/') else rel.lstrip('./'))
        return rel

    # ---- commands

    def open_command(self):
        # what a shell does for > redirection
        self.vfs.fuse('truncate', Vfs.s(CONTROL), 0)
        self.number += 1
        handle = f'command {self.number}'
        self.vfs.open(CONTROL, os.O_WRONLY, handle)
        return handle

    def command(self, arguments, raw=None):
        rng = self.rng
        handle = self.written.pop() if self.written else self.open_command()
        if rng.random() < 0.25:
            self.written.append(self.open_command())
        delimiter = rng.choice([b' ', b' ', b'\0', b'\n'])
        if any(' ' in a for a in arguments) and delimiter == b' ':
            delimiter = b'\0'
        data = delimiter.join(a.encode() for a in ['ratarmount', *arguments]) if raw is None else raw
        if delimiter == b' ' and raw is None and rng.random() < 0.7:
            data += b'\n'
        offset = 0
        while offset < len(data):
            size = rng.choice([1, 5, 4096, 4096, 4096])
            self.vfs.write(handle, offset, data[offset : offset + size])
            offset += size
        try:
            self.vfs.release(handle)
        except Exception:  # pylint: disable=broad-except
            # The kernel does not tell anybody.
            self.vfs.handles.pop(handle, None)

    def options(self):
        rng = self.rng
        options = []
        if rng.random() < 0.2:
            options.append(rng.choice(['--index-file=', '--index-file ']) + os.path.join(self.root, f'{self.number}.index'))
        if rng.random() < 0.2:
            options.append('--index-minimum-file-count=0')
        if rng.random() < 0.1:
            options.append('--lazy')
        return [x for o in options for x in o.split(' ', 1)]

    def do_mount(self, op):
        rng = self.rng
        recursive = rng.random() < 0.3
        paths, src = self.sources(op['src'], recursive)
        bad = op['bad']
        if bad in ('missing', 'second missing'):
            paths[-1] = os.path.join(self.root, 'missing')
        elif bad == 'relative':
            paths[-1] = 'relative.tar'
        elif bad == 'inside':
            paths[-1] = os.path.join(self.mountPoint, 'x.tar')
        elif bad == 'broken':
            paths[-1] = os.path.join(self.root, 'broken')
            with open(paths[-1], 'wb') as f:
                f.write(b'This is no archive.\n' * 30)
        flags = self.options() + ['-r'] * recursive + ['--disable-union-mount'] * op['sub']
        self.command([*flags, *paths, self.spell(op['p'])])
        return {'op': 'mount', 'p': op['p'], 'src': src, 'sub': op['sub'], 'bad': bool(bad)}

    def do_unmount(self, op):
        rng = self.rng
        points = [self.spell(p) for p in op['ps']]
        foreign = [rng.choice([os.path.join(self.root, 'elsewhere'), self.mountPoint, '/nowhere/at/all', self.mountPoint + 'x'])
                   for _ in range(op['foreign'])]
        both = points + foreign
        rng.shuffle(both)
        self.command([rng.choice(['-u', '--unmount']), *both])
        return {'op': 'unmount', 'ps': op['ps'], 'foreign': foreign}

    def do_other(self, op):
        start = []
        raw = None
        arguments = []
        source = self.contents.places[1][0]
        k = op['k']
        if k == 1:
            arguments = [self.rng.choice(['--help', '-h'])]
        elif k == 2:
            arguments = ['--there-is-no-such-option', source, 'a']
        elif k == 3:
            raw = self.rng.choice([b'rm -rf a', b'ratarmountx a b', b'', b'ratarmoun', b'\0'])
        elif k == 4:
            start = arguments = [*self.options(), source, self.rng.choice([os.path.join(self.root, 'elsewhere'), self.mountPoint])]
        elif k == 5:
            arguments = [self.rng.choice(['relative.tar', 'a/f', '../x']), os.path.join(self.root, 'elsewhere')]
        else:
            arguments = [self.rng.choice(['q', self.mountPoint + '/q', 'a/q'])]
        self.command(arguments, raw)
        return {'op': 'other', 'start': start}

    # ---- files

    def do_open(self, op):
        path = (*op['p'], *FILES[op['f']])
        self.number += 1
        handle = f'file {self.number}'
        r = self.vfs.call(self.vfs.open, path, os.O_RDONLY, handle)
        if r == 'ok':
            old = self.opened.pop(op['h'], None)
            if old:
                self.vfs.release(old)
            self.opened[op['h']] = handle
        return {'op': 'open', 'h': op['h'], 'p': list(path), 'r': r}

    def do_read(self, op):
        handle = self.opened.get(op['h'])
        r = 0
        if handle:
            try:
                r = self.contents.tokens.get(self.vfs.read(handle, 0, 1 << 20), -1)
            except Exception:  # pylint: disable=broad-except
                r = -2
        return {'op': 'read', 'h': op['h'], 'r': r}

    # ---- what is visible

    def view(self):
        result = []
        for e in self.vfs.tree():
            if e['path'][0] == CONTROL[0]:
                continue
            node = {'p': list(e['path']), 't': e['t'], 'd': 0, 'x': 0}
            if e['twice']:
                node['t'] = '!twice'
            if e['t'] == 'f':
                node['d'] = self.contents.tokens.get(e['content'], -1)
                if e['attr']['st_size'] != len(e['content']):
                    node['t'] = '!size'
            if e['t'] in 'fd':
                try:
                    node['x'] = self.attribute(Vfs.s(e['path']))
                except Exception as error:  # pylint: disable=broad-except
                    node['t'] = '!attribute ' + errname(error)
            result.append(node)
        return result

    def attribute(self, path):
        keys = self.vfs.fuse('listxattr', path)
        if XATTR not in keys:
            try:
                self.vfs.fuse('getxattr', path, XATTR)
            except OSError:
                return 0
            return -3
        return int(self.vfs.fuse('getxattr', path, XATTR))


def execute(job):
    quiet_logging()
    from ratarmount import FuseMount as module

    trace = {'job': job, 'fault': '', 'cts': [], 'ev': []}
    with scratch('vf-dynamic-') as root:
        history = History(job, root)

        class Subprocess:
            """stands in for the module: the commands are not to be started"""

            PIPE = -1

            @staticmethod
            def Popen(arguments, **_):
                assert arguments[1:3] == ['-m', 'ratarmount']
                return Started(history.calls, arguments[3:])

        real, module.subprocess = module.subprocess, Subprocess
        trace['cts'] = [history.contents.nodes[i] for i in range(1, 6)]
        history.vfs = None
        try:
            trace['ev'].append(history.start(job['start']))
            trace['ev'][-1].update(calls=[], view=history.view())
            for op in job['history']:
                history.calls.clear()
                event = {'mount': history.do_mount, 'unmount': history.do_unmount, 'other': history.do_other,
                         'open': history.do_open, 'read': history.do_read}[op['op']](op)
                trace['ev'].append({**event, 'calls': [list(c) for c in history.calls], 'view': history.view()})
        except Exception as e:  # pylint: disable=broad-except
            import traceback

            trace['fault'] = f'{errname(e)} {str(e)[:100]} in event {len(trace["ev"]) + 1} {traceback.format_exc()[-400:]}'
        finally:
            if history.vfs:
                history.vfs.unmount()
            module.subprocess = real
    return trace


def text(trace):
    result = []
    for e in trace['ev']:
        e = {k: v for k, v in e.items() if k not in ('view', 'calls')}
        result.append(json.dumps(e))
    return ' '.join(result)


def describe(trace, verdict):
    return f"{str(verdict['err'])[:500]} for {text(trace)[:1200]} seed {trace['job']['seed']}"


def main(check):
    rng = check.rng
    check.model('Subvolumes')
    with open(os.path.join(tlc.SPECS, 'Subvolumes.cfg'), encoding='utf-8') as f:
        config = f.read()
    for old, new in (('Prune = TRUE', 'Prune = FALSE'), ('Test = "pure"', 'Test = "creates"')):
        assert old in config, config
        check.refuted('Subvolumes', config.replace(old, new), 'Refines')
    with open(os.path.join(tlc.SPECS, 'DynGen.cfg'), encoding='utf-8') as f:
        config = f.read()
    r = tlc.run('DynGen', cfg_text=config, workers=4, extra=['-simulate', f'num={check.pick(350, 2500)}', '-depth', '30', '-seed', str(check.seed)])
    histories = r.json('H')
    check.states += r.generated
    jobs = [{'history': h, 'seed': rng.getrandbits(40), 'start': rng.choice(['empty', 'empty', 'empty', 'folders', 'folders', 'union', 'one'])}
            for h in histories]
    speed.prepare()
    traces = [t for _, t in check.map(execute, jobs, deadline=check.budget * 0.5)]
    check.executions += sum(len(t['ev']) for t in traces)
    check.notes['events'] = {k: sum(e['op'] == k for t in traces for e in t['ev']) for k in ('mount', 'unmount', 'other', 'open', 'read')}
    for t in traces[-3:]:
        check.sample({'history': text(t)})
    check.validate('DynTrace', traces, describe)
