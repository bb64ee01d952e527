"""
Drives the FUSE operations object of ratarmount in process, the way the kernel and libfuse would: path walks, existence
checks, O_TRUNC as a separate truncate, names hidden for open files which are unlinked, handle bookkeeping.
No kernel mount is involved.
"""

import contextlib
import errno
import gc
import os
import stat
import sys


def errname(exception) -> str:
    if isinstance(exception, OSError) and exception.errno:
        return errno.errorcode.get(exception.errno, str(exception.errno))
    if isinstance(exception, FileNotFoundError):
        return 'ENOENT'
    # Anything else reaches the caller of the mount as some errno chosen by the FUSE binding.
    return 'EXC:' + type(exception).__name__


class Hidden(Exception):
    def __init__(self, name):
        super().__init__(name)
        self.name = name


@contextlib.contextmanager
def quiet():
    """Silences Python-level stdout/stderr of the code under test."""
    with open(os.devnull, 'w') as null, contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
        yield


class Vfs:
    """paths are tuples of real names"""

    def __init__(self, paths, mountPoint, **options):
        from ratarmount.FuseMount import FuseMount

        self.make = lambda: FuseMount(list(paths), mountPoint, **options)
        self.handles = {}  # user handle -> [fuse fh, current path or hidden path]
        self.hiddenCount = 0
        self.ops = None
        self.mount()

    def mount(self):
        with quiet():
            self.ops = self.make()

    def unmount(self):
        if self.ops is None:
            return
        with quiet():
            for handle in list(self.handles):
                with contextlib.suppress(Exception):
                    self.release(handle)
            self.ops.__exit__(None, None, None)
            overlay = getattr(self.ops, 'writeOverlay', None)
            connection = getattr(overlay, 'sqlConnection', None)
            if connection is not None:
                connection.close()
            self.ops = None
            overlay = None
            gc.collect()

    def remount(self):
        self.unmount()
        self.mount()

    # ---- what the kernel does before calling into the file system

    @staticmethod
    def s(path):
        return '/' + '/'.join(path)

    def attr(self, path):
        with quiet():
            return self.ops.getattr(self.s(path))

    def exists(self, path):
        """lookup through the kernel: every component is looked up separately"""
        self.walk(path)
        try:
            self.attr(path)
            return True
        except OSError as e:
            if e.errno == errno.ENOENT:
                return False
            raise

    def walk(self, path):
        for i in range(len(path)):
            a = self.attr(path[:i])
            if stat.S_ISLNK(a['st_mode']):
                raise Hidden('ESYM')
            if not stat.S_ISDIR(a['st_mode']):
                raise OSError(errno.ENOTDIR, 'walk')

    def lookup(self, path):
        self.walk(path)
        return self.attr(path)

    def call(self, function, *args):
        """returns "ok" or the name of the error"""
        try:
            function(*args)
            return 'ok'
        except Hidden as e:
            return e.name
        except Exception as e:  # pylint: disable=broad-except
            return errname(e)

    def fuse(self, name, *args):
        with quiet():
            return getattr(self.ops, name)(*args)

    def must_not_exist(self, path):
        if self.exists(path):
            raise OSError(errno.EEXIST, 'exists')

    def must_not_follow(self, path):
        a = self.lookup(path)
        if stat.S_ISLNK(a['st_mode']):
            raise Hidden('ESYM')
        return a

    # ---- operations

    def create(self, path, mode, handle):
        self.must_not_exist(path)
        fh = self.fuse('create', self.s(path), stat.S_IFREG | mode)
        self.handles[handle] = [fh, path]

    def mknod(self, path, mode):
        self.must_not_exist(path)
        self.fuse('mknod', self.s(path), stat.S_IFREG | mode, 0)

    def mkdir(self, path, mode):
        self.must_not_exist(path)
        self.fuse('mkdir', self.s(path), mode)

    def symlink(self, path, target):
        self.must_not_exist(path)
        self.fuse('symlink', self.s(path), target)

    def hide_if_open(self, path):
        """libfuse renames open files instead of unlinking them"""
        users = [h for h in self.handles.values() if h[1] == path]
        if not users:
            return False
        self.hiddenCount += 1
        hidden = (*path[:-1], f'.fuse_hidden{self.hiddenCount:08x}')
        self.fuse('rename', self.s(path), self.s(hidden))
        for h in users:
            h[1] = hidden
        return True

    def unlink(self, path):
        a = self.lookup(path)
        if stat.S_ISDIR(a['st_mode']):
            raise OSError(errno.EISDIR, 'unlink')
        if not self.hide_if_open(path):
            self.fuse('unlink', self.s(path))

    def rmdir(self, path):
        a = self.lookup(path)
        if not stat.S_ISDIR(a['st_mode']):
            raise OSError(errno.ENOTDIR, 'rmdir')
        if not path:
            raise OSError(errno.EBUSY, 'rmdir')
        self.fuse('rmdir', self.s(path))

    def rename(self, old, new):
        self.walk(old)
        self.walk(new)
        a = self.attr(old)
        if not old or not new:
            raise OSError(errno.EBUSY, 'rename')
        if new[: len(old)] == old and new != old:
            raise OSError(errno.EINVAL, 'rename')
        if old[: len(new)] == new and new != old:
            raise OSError(errno.ENOTEMPTY, 'rename')
        if old == new:
            return
        if self.exists(new):
            b = self.attr(new)
            aDir, bDir = stat.S_ISDIR(a['st_mode']), stat.S_ISDIR(b['st_mode'])
            if aDir and not bDir:
                raise OSError(errno.ENOTDIR, 'rename')
            if bDir and not aDir:
                raise OSError(errno.EISDIR, 'rename')
            self.hide_if_open(new)
        self.fuse('rename', self.s(old), self.s(new))
        for h in self.handles.values():
            if h[1][: len(old)] == old:
                h[1] = new + h[1][len(old) :]

    def link(self, old, new):
        a = self.lookup(old)
        self.must_not_exist(new)
        if stat.S_ISDIR(a['st_mode']):
            raise OSError(errno.EPERM, 'link')
        self.fuse('link', self.s(new), self.s(old))

    def truncate(self, path, length):
        a = self.must_not_follow(path)
        if stat.S_ISDIR(a['st_mode']):
            raise OSError(errno.EISDIR, 'truncate')
        self.fuse('truncate', self.s(path), length)

    def chmod(self, path, mode):
        a = self.must_not_follow(path)
        # The kernel passes the complete mode including the file type.
        self.fuse('chmod', self.s(path), stat.S_IFMT(a['st_mode']) | mode)

    def chown(self, path, uid, gid):
        self.lookup(path)
        self.fuse('chown', self.s(path), uid, gid)

    def utimens(self, path, seconds):
        self.lookup(path)
        self.fuse('utimens', self.s(path), (seconds * 10**9, seconds * 10**9))

    def open(self, path, flags, handle):
        a = self.must_not_follow(path)
        if stat.S_ISDIR(a['st_mode']):
            raise OSError(errno.EISDIR, 'open')
        fh = self.fuse('open', self.s(path), flags)
        self.handles[handle] = [fh, path]

    def write(self, handle, offset, data):
        fh, path = self.handles[handle]
        n = self.fuse('write', self.s(path), data, offset, fh)
        if n != len(data):
            raise OSError(errno.EIO, f'short write {n}')

    def read(self, handle, offset, size):
        fh, path = self.handles[handle]
        return self.fuse('read', self.s(path), size, offset, fh)

    def release(self, handle):
        fh, path = self.handles[handle]
        self.fuse('flush', self.s(path), fh)
        self.fuse('release', self.s(path), fh)
        del self.handles[handle]
        if path and path[-1].startswith('.fuse_hidden') and not any(h[1] == path for h in self.handles.values()):
            self.fuse('unlink', self.s(path))

    # ---- observation

    def listdir(self, path):
        with quiet():
            entries = list(self.ops.readdir(self.s(path), 0))
        names = {}
        for e in entries:
            name, mode = (e[0], e[1]) if isinstance(e, tuple) else (e, None)
            if name in ('.', '..') or name.startswith('.fuse_hidden'):
                continue
            names.setdefault(name, []).append(mode)
        return names

    def content(self, path, size=None):
        """reads the complete file in pieces through a fresh handle"""
        fh = self.fuse('open', self.s(path), os.O_RDONLY)
        try:
            result = bytearray()
            while True:
                chunk = self.fuse('read', self.s(path), 128 * 1024, len(result), fh)
                if not chunk:
                    return bytes(result)
                result += chunk
                if len(result) > 1 << 27:
                    return bytes(result)
        finally:
            self.fuse('release', self.s(path), fh)

    def tree(self):
        """[(path, type, attributes, content or target)], everything reachable from the root"""
        result = []
        todo = [()]
        while todo:
            path = todo.pop()
            for name, modes in self.listdir(path).items():
                p = (*path, name)
                entry = {'path': p, 'twice': len(modes) > 1}
                try:
                    a = self.attr(p)
                except Exception as e:  # pylint: disable=broad-except
                    result.append({**entry, 't': '!' + errname(e)})
                    continue
                mode = a['st_mode']
                entry['attr'] = a
                # The type listed by readdir must agree with the one reported for the path itself.
                if any(m is not None and stat.S_IFMT(m) not in (0, stat.S_IFMT(mode)) for m in modes):
                    result.append({**entry, 't': '!listing'})
                    continue
                if stat.S_ISDIR(mode):
                    entry['t'] = 'd'
                    todo.append(p)
                elif stat.S_ISLNK(mode):
                    entry['t'] = 'l'
                    entry['target'] = self.fuse('readlink', self.s(p))
                elif stat.S_ISREG(mode):
                    entry['t'] = 'f'
                    try:
                        entry['content'] = self.content(p)
                    except Exception as e:  # pylint: disable=broad-except
                        entry['t'] = '!read ' + errname(e)
                else:
                    entry['t'] = '?'
                result.append(entry)
        return sorted(result, key=lambda e: e['path'])
