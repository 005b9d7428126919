"""Saving and loading helpers shared by the storage checks."""
import json
import os
import pickle
import select
import signal
import sys
import time

import numpy as np

import brainstorm as bs
import zoo
from core import Violation


def in_child(fn, timeout=30.):
    """Run fn() in a forked process (libhdf5 may crash on damaged files).
    Returns ('ok', value) | ('error', text) | ('died', status)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open('/dev/null', os.O_RDWR)
            os.dup2(dn, 2)
            try:
                out = ('ok', fn())
            except BaseException as e:
                out = ('error', '%s: %s' % (type(e).__name__, e))
            b = pickle.dumps(out)
            while b:
                n = os.write(w, b)
                b = b[n:]
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    end = time.time() + timeout
    while True:
        left = end - time.time()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            break
        c = os.read(r, 1 << 16)
        if not c:
            break
        buf += c
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    try:
        return pickle.loads(buf)
    except Exception:
        return ('died', st)


def describe(net):
    """Everything that identifies a network, as plain data."""
    from brainstorm.describable import get_description
    return {
        'arch': json.loads(json.dumps(net.architecture, sort_keys=True,
                                      default=str)),
        'handler': get_description(net.handler),
        'params': net.get('parameters').tobytes(),
        'dtype': str(net.get('parameters').dtype),
        'views': {k: (v.shape, v.tobytes())
                  for k, v in zoo.views(net).items()},
        'gm': _mods(net.gradient_modifiers),
        'wm': _mods(net.weight_modifiers),
        'output_name': net.output_name,
    }


def _mods(m):
    from brainstorm.describable import get_description
    return json.dumps(get_description(m), sort_keys=True)


def load_description(path):
    return describe(bs.Network.from_hdf5(path))


def same_network(a, b):
    """list of aspects in which two descriptions differ"""
    return [k for k in sorted(a) if a[k] != b[k]]


class Judge(object):
    """Decides whether file contents are a complete, given network."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.cache = {}
        self.loads = 0

    def load(self, content):
        key = content
        if key not in self.cache:
            self.loads += 1
            p = os.path.join(self.scratch, 'judge.h5')
            with open(p, 'wb') as f:
                f.write(content)
            self.cache[key] = in_child(lambda: load_description(p))
            os.unlink(p)
        return self.cache[key]

    def is_network(self, content, want):
        """None if content is exactly that network, else a reason"""
        if content is None:
            return 'the file is missing'
        st, val = self.load(content)
        if st != 'ok':
            return 'the file can not be loaded (%s %s)' % (st, val)
        d = same_network(want, val)
        if d:
            return 'the loaded network differs in %s' % d
        return None
