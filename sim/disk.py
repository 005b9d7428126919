"""Simulated disk: the LD_PRELOAD shim records every file-system call the real
code (CPython and libhdf5) makes below a scratch directory and injects faults;
FS is a small model of what a file system keeps after a crash."""
import ctypes
import errno
import os
import struct

_lib = ctypes.CDLL(None)
try:
    assert _lib.sim_present() == 42
    _lib.sim_add_fault.argtypes = [ctypes.c_long, ctypes.c_long, ctypes.c_int,
                                   ctypes.c_long, ctypes.c_int, ctypes.c_int]
    _lib.sim_log.restype = ctypes.c_void_p
    for _f in ('sim_ops', 'sim_reads', 'sim_fired', 'sim_mmaps',
               'sim_log_len'):
        getattr(_lib, _f).restype = ctypes.c_long
except AttributeError:
    raise SystemExit('disk shim is not loaded')

OPEN, WRITE, TRUNC, FSYNC, CLOSE, RENAME, UNLINK, LINK, MKDIR, RMDIR, READ = \
    range(1, 12)
NAMES = {OPEN: 'open', WRITE: 'write', TRUNC: 'truncate', FSYNC: 'fsync',
         CLOSE: 'close', RENAME: 'rename', UNLINK: 'unlink', LINK: 'link',
         MKDIR: 'mkdir', RMDIR: 'rmdir', READ: 'read'}
BIG = 10 ** 9
ERR = {'ENOSPC': errno.ENOSPC, 'EIO': errno.EIO, 'EACCES': errno.EACCES,
       'EMFILE': errno.EMFILE, 'EINTR': errno.EINTR, 'EDQUOT': errno.EDQUOT,
       'EROFS': errno.EROFS, 'ENOMEM': errno.ENOMEM}
#: which calls can meaningfully fail with which error
APPLIES = {
    'ENOSPC': (OPEN, WRITE, TRUNC, FSYNC, CLOSE, RENAME, LINK, MKDIR),
    'EDQUOT': (OPEN, WRITE, TRUNC, FSYNC, CLOSE, RENAME),
    'EIO': (OPEN, WRITE, TRUNC, FSYNC, CLOSE, RENAME, UNLINK),
    'EACCES': (OPEN, RENAME, UNLINK, LINK, MKDIR),
    'EMFILE': (OPEN,),
    'EROFS': (OPEN, RENAME, UNLINK, TRUNC, LINK, MKDIR),
    'ENOMEM': (OPEN, WRITE, RENAME, FSYNC),
    # CPython retries interrupted calls, libhdf5 retries reads and writes
    'EINTR': (WRITE, OPEN),
}


class Disk(object):
    """Context manager: record all operations below root."""

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.ops = []

    def __enter__(self):
        _lib.sim_begin(self.root.encode())
        return self

    def fault(self, at, until, err, shortn=-1, kinds=None, on_read=False):
        mask = 0
        for k in kinds or ():
            mask |= 1 << k
        _lib.sim_add_fault(at, until, err, shortn, int(on_read), mask)

    def clear(self):
        _lib.sim_clear_faults()

    @property
    def nops(self):
        return _lib.sim_ops()

    @property
    def fired(self):
        return _lib.sim_fired()

    def read_log(self):
        n = _lib.sim_log_len()
        raw = ctypes.string_at(_lib.sim_log(), n) if n else b''
        ops, o = [], 0
        while o < n:
            kind, fd, a, b, err = struct.unpack_from('<iiqqi', raw, o)
            o += 28
            strs = []
            for _ in range(2):
                m, = struct.unpack_from('<i', raw, o)
                strs.append(raw[o + 4:o + 4 + m].decode())
                o += 4 + m
            m, = struct.unpack_from('<q', raw, o)
            data = raw[o + 8:o + 8 + m]
            o += 8 + m
            ops.append((kind, fd, a, b, err, strs[0], strs[1], data))
        return ops

    def __exit__(self, *exc):
        _lib.sim_clear_faults()
        _lib.sim_end()
        self.ops = self.read_log()


class Inode(object):
    __slots__ = ('writes', 'synced')

    def __init__(self):
        self.writes = []    # ('w', off, data) | ('t', size)
        self.synced = 0     # all entries before this index are durable

    def image(self, entries=None):
        buf = bytearray()
        for e in self.writes if entries is None else entries:
            if e[0] == 't':
                n = e[1]
                if n <= len(buf):
                    del buf[n:]
                else:
                    buf.extend(b'\0' * (n - len(buf)))
            else:
                _, off, d = e
                if len(buf) < off:
                    buf.extend(b'\0' * (off - len(buf)))
                buf[off:off + len(d)] = d
        return bytes(buf)


class FS(object):
    """What the recorded operations did, as inodes and directory entries."""

    def __init__(self, initial):
        """initial: {relative name: bytes} durable contents"""
        self.names = {}
        self.links = {}
        for n, b in initial.items():
            i = Inode()
            i.writes.append(('w', 0, b))
            i.synced = 1
            self.names[n] = i
        self.fds = {}
        self.meta = []      # history of directory states (names -> inode)
        self.meta.append(dict(self.names))
        self.meta_durable = 0

    def apply(self, op):
        kind, fd, a, b, err, s1, s2, data = op
        if err:
            if kind == CLOSE:
                self.fds.pop(fd, None)
            return
        if kind == OPEN:
            s1 = os.path.normpath(s1)
            if a & os.O_DIRECTORY or s1 == '.':
                self.fds[fd] = 'dir'
                return
            if s1 not in self.names:
                if not a & os.O_CREAT:
                    self.fds[fd] = 'dir'
                    return
                self.names[s1] = Inode()
                self.meta.append(dict(self.names))
            ino = self.names[s1]
            if a & os.O_TRUNC:
                ino.writes.append(('t', 0))
            self.fds[fd] = ino
        elif kind == WRITE:
            ino = self.fds.get(fd)
            if isinstance(ino, Inode) and b > 0:
                ino.writes.append(('w', a, data[:b]))
        elif kind == TRUNC:
            ino = self.fds.get(fd) if not s1 else self.names.get(s1)
            if isinstance(ino, Inode):
                ino.writes.append(('t', a))
        elif kind == FSYNC:
            ino = self.fds.get(fd)
            if isinstance(ino, Inode):
                ino.synced = len(ino.writes)
                # a journalling file system commits the namespace, too,
                # but we do not rely on that
            elif ino == 'dir':
                self.meta_durable = len(self.meta) - 1
        elif kind == CLOSE:
            self.fds.pop(fd, None)
        elif kind == RENAME:
            s1, s2 = os.path.normpath(s1), os.path.normpath(s2)
            if s1 in self.names:
                self.names[s2] = self.names.pop(s1)
                self.meta.append(dict(self.names))
        elif kind == UNLINK:
            self.names.pop(os.path.normpath(s1), None)
            self.meta.append(dict(self.names))
        elif kind == LINK:
            s1, s2 = os.path.normpath(s1), os.path.normpath(s2)
            if s1 in self.names:
                self.names[s2] = self.names[s1]
                self.meta.append(dict(self.names))

    def current(self):
        """contents after the process was killed (page cache survives)"""
        return {n: i.image() for n, i in self.names.items()}

    def after_power_loss(self, rng, mode='random'):
        """One state that may be on disk after a power failure: some prefix of
        the directory operations (at least the durable ones), for every file
        its synced data plus any subset, possibly torn, of later writes."""
        k = rng.randint(self.meta_durable, len(self.meta) - 1) \
            if mode == 'random' else (len(self.meta) - 1 if mode in
                                      ('latest', 'meta-only')
                                      else self.meta_durable)
        out = {}
        for n, ino in self.meta[k].items():
            entries = list(ino.writes[:ino.synced])
            rest = ino.writes[ino.synced:]
            if mode == 'latest':
                entries += rest
            elif mode == 'meta-only':
                # lengths reached the disk, data did not
                size = len(ino.image())
                entries.append(('t', size))
            elif mode == 'random':
                style = rng.random()
                for e in rest:
                    r = rng.random()
                    if style < 0.3 or r < 0.5:
                        if e[0] == 'w' and rng.random() < 0.4 and e[2]:
                            c = rng.randint(0, len(e[2]))
                            c -= c % 512 if rng.random() < 0.5 else 0
                            entries.append(('w', e[1], e[2][:c]))
                            if rng.random() < 0.5:
                                entries.append(
                                    ('t', max(len(ino.image(entries)),
                                              e[1] + len(e[2]))))
                        else:
                            entries.append(e)
            out[n] = ino.image(entries)
        return out


def snapshot(root):
    out = {}
    for n in sorted(os.listdir(root)):
        p = os.path.join(root, n)
        if os.path.isfile(p):
            with open(p, 'rb') as f:
                out[n] = f.read()
    return out


def materialise(state, root):
    for n, b in state.items():
        with open(os.path.join(root, n), 'wb') as f:
            f.write(b)
