"""C05: log and feature files are complete snapshots."""
import copy
import errno
import os
import random

import brainstorm as bs
import disk
import h5py
import numpy as np
import zoo
from brainstorm.data_iterators import Minibatches, Undivided
from brainstorm.hooks import SaveLogs
from brainstorm.tools import extract_and_save
from checks.common import (REAL_ALL, Probe, gen_iter, gen_stepper, make_iter,
                           make_stepper, need, tol_for, trainer)
from checks.c20 import uncut
from core import BadPlan, Violation
from netfile import in_child

ID = 'C05'
QUICK = 3000
LEVEL = 'exploration'
RULE = ('Training with hooks that log nested scripted values and save the '
        'logs on a seeded schedule, or extraction of features with a seeded '
        'division of the data; storage faults at seeded operations (training '
        'or extraction raises and is repeated), and every crash prefix plus '
        'power-loss states of seeded saves. Non-trivial: a save over an '
        'existing file, or a fault fired.')
MEASURE = 'distinct (what is saved, fault kind, outcome, structure) tuples'
REAL = REAL_ALL + ['h5py/libhdf5', 'CPython I/O', 'kernel file system']
STUB = ['failing system calls', 'crash states (model of the file system)']
ASSUMPTIONS = ['log values are numbers or text, as the shipped hooks produce']


def gen(rng, tier):
    kind = rng.choice(['logs', 'logs', 'features'])
    faults = {}
    for i in range(8):
        if rng.random() < 0.25:
            faults[str(i)] = [rng.choice(['ENOSPC', 'EIO', 'EACCES', 'EDQUOT',
                                          'EMFILE', 'short']),
                              round(rng.random(), 2),
                              rng.choice([1, 1, 3, disk.BIG])]
    it = gen_iter(rng, maxn=6, maxT=3,
                  shuffle=0 if kind == 'features' else None)
    return {'kind': kind,
            'net': zoo.gen_net(rng, maxdepth=2),
            'cut': rng.choice([0, 1, 1]),
            'seed': rng.randint(0, 10 ** 6),
            'it': it, 'stepper': gen_stepper(rng),
            'shape': rng.choice(['flat', 'dict', 'deep', 'text', 'mixed',
                                 'empty']),
            'timescale': rng.choice(['epoch', 'update']),
            'interval': rng.choice([1, 1, 2, 3]),
            'mts': rng.choice(['epoch', 'update']),
            'miv': rng.choice([1, 2]),
            'saves': rng.randint(1, 5),
            'faults': faults,
            'crash': rng.randint(0, 5),
            'crash_seed': rng.randint(0, 10 ** 6),
            'prior': rng.choice([0, 1]),
            'nbuf': rng.choice([1, 2, 3]),
            'train_first': rng.choice([0, 1]),
            # entries in the logs from earlier training
            'long': rng.choice([0] * 9 + [rng.randint(2, 5000)]),
            'bs2': rng.choice([0, 1, 2, 3, 5])}


class Enough(Exception):
    pass


def read_logs(path):
    def rec(g):
        out = {}
        for k in g:
            out[k] = rec(g[k]) if isinstance(g[k], h5py.Group) \
                else g[k][()]
        return out
    with h5py.File(path, 'r') as f:
        a = dict(f.attrs)
        return rec(f)


def load(content, scratch):
    p = os.path.join(scratch, 'judge.h5')
    with open(p, 'wb') as f:
        f.write(content)
    return in_child(lambda: read_logs(p))


def differs(got, want, path=''):
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return '%s is not a group' % path
        if set(got) != set(want):
            return 'names at %r: %s instead of %s' % (path, sorted(got),
                                                      sorted(want))
        for k in want:
            d = differs(got[k], want[k], path + '/' + k)
            if d:
                return d
        return None
    if isinstance(got, dict):
        return '%s is a group' % path
    w = np.array(want)
    g = np.array(got)
    if g.shape != w.shape:
        return '%s has shape %s instead of %s' % (path, g.shape, w.shape)
    if w.dtype.kind in 'USO':
        dec = lambda x: x.decode() if isinstance(x, bytes) else str(x)
        if [dec(x) for x in g.ravel()] != [dec(x) for x in w.ravel()]:
            return '%s: %s instead of %s' % (path, g, w)
        return None
    if g.dtype.kind not in 'fiub' or not zoo.same(g.astype(float),
                                                  w.astype(float)):
        return '%s: %s instead of %s' % (path, g, w)
    return None


def arm(d, f):
    kind, at, ln = f
    op = int(at * 9)
    if kind == 'short':
        d.fault(op, min(disk.BIG, op + ln), 0, 13, [disk.WRITE])
    else:
        d.fault(op, min(disk.BIG, op + ln - 1), disk.ERR[kind], -1,
                disk.APPLIES[kind])


def crash_states(ops, before, rng):
    fs = disk.FS(before)
    for k, op in enumerate(ops):
        fs.apply(op)
        yield k + 1, 'kill', fs.current()
        for m in ('durable', 'latest', 'meta-only', 'random'):
            yield k + 1, 'power loss', fs.after_power_loss(rng, m)


class Store(object):
    """Shared bookkeeping: what the file has to be after each attempt."""

    def __init__(self, plan, ctx, root, base, name):
        self.plan, self.ctx, self.root, self.base = plan, ctx, root, base
        self.name = name
        self.path = os.path.join(root, name)
        self.n = 0
        self.rng = random.Random(plan['crash_seed'])
        self.old = None     # expected value now in the file

    def begin(self):
        self.before = disk.snapshot(self.root)
        self.d = disk.Disk(self.root)
        self.d.__enter__()
        f = self.plan['faults'].get(str(self.n))
        self.armed = f[0] if f else None
        if f:
            arm(self.d, f)

    def end(self, raised, want):
        ctx = self.ctx
        d, self.d = self.d, None
        d.clear()
        d.__exit__()
        i = self.n
        self.n += 1
        fired = [o for o in d.ops if o[4]]
        for o in fired:
            ctx.fault('%s on %s' % (errno.errorcode.get(o[4], o[4]),
                                    disk.NAMES[o[0]]))
        old = self.before.get(self.name)
        now = disk.snapshot(self.root).get(self.name)
        ctx.event('attempt', i, self.armed, raised)
        ctx.state(self.plan['kind'], self.plan['shape'], self.armed, raised,
                  old is None)
        if fired or old is not None:
            ctx.nontrivial = True
        if raised:
            need(now == old, 'old-file-harmed',
                 lambda: 'attempt %d failed with fault %s and the previous '
                 'file is %s' % (i, self.armed, 'gone' if now is None
                                 else 'changed'))
            return
        need(now is not None, 'not-written', 'no file after attempt %d' % i)
        st, val = load(now, self.base)
        need(st == 'ok', 'unreadable', lambda: 'attempt %d returned but the '
             'file can not be read: %s %s' % (i, st, val))
        w = differs(val, want)
        need(w is None, 'wrong-content', lambda: 'attempt %d: %s' % (i, w))
        if i == self.plan['crash']:
            for k, kind, state in crash_states(d.ops, self.before, self.rng):
                ctx.fault('kill' if kind == 'kill' else kind)
                c = state.get(self.name)
                if c == old or c == now:
                    continue
                st, val = load(c, self.base) if c is not None else \
                    ('missing', '')
                w = differs(val, want) if st == 'ok' else st
                need(w is None, 'damaged-after-crash',
                     lambda: '%s after %d of %d file operations: %s'
                     % (kind, k, len(d.ops), w))


def value(shape, i, rs):
    x = float(rs.choice([0., 1.5, -2.25, np.nan, np.inf, 1e-300, 7.]))
    if shape == 'flat':
        return x
    if shape == 'dict':
        return {'a': x, 'b': i}
    if shape == 'deep':
        return {'a': {'b': {'c': x}, 'd': i}, 'e': np.float32(x)}
    if shape == 'empty':
        return {'none': {}, 'b': i} if i > 1 else {}
    if shape == 'text':
        return 'message %d' % i
    return {'x': x, 'y': {'t': 'naïve %d' % i}, 'z': i}


def run(plan, ctx):
    base = ctx.scratch()
    root = os.path.join(base, 'd')
    os.mkdir(root)
    spec = plan['net']
    ctx.event(plan['kind'], spec, plan['it'], plan['stepper'],
              plan['timescale'], plan['interval'], plan['mts'], plan['miv'],
              plan['long'])
    if min(plan['interval'], plan['miv']) < 1:
        raise BadPlan('interval')
    net = zoo.build(spec, seed=plan['seed'])
    it = make_iter(spec, plan['it'])
    s = Store(plan, ctx, root, base, 'out.hdf5')
    if plan['prior']:
        with open(s.path, 'wb') as f:
            f.write(b'something else')
    if plan['kind'] == 'logs':
        logs_run(plan, ctx, net, it, s)
    elif plan['kind'] == 'features':
        features_run(plan, ctx, net, spec, it, s)
    else:
        raise BadPlan('kind')


def logs_run(plan, ctx, net, it, s):
    rs = np.random.RandomState(plan['seed'])
    cnt = [0]
    snap = {}

    def metric(epoch, update, net, stepper, logs):
        cnt[0] += 1
        return value(plan['shape'], cnt[0], rs)

    def pre(epoch, update, net, stepper, logs):
        if s.n >= plan['saves']:
            raise Enough()
        snap['v'] = copy.deepcopy(logs)
        s.begin()

    def post(epoch, update, net, stepper, logs):
        s.end(False, snap['v'])

    s.d = None
    ts, iv = plan['timescale'], plan['interval']
    t = trainer(make_stepper(plan['stepper']),
                [Probe(metric, 'm', plan['mts'], plan['miv']),
                 Probe(pre, 'pre', ts, iv),
                 SaveLogs(s.path, 'save', ts, iv), Probe(post, 'post', ts,
                                                         iv)])
    if plan['long']:
        t.logs['earlier'] = {
            'value': list(rs.standard_normal(plan['long'])),
            'text': ['entry %d' % k for k in range(plan['long'])]}
    for _ in range(plan['saves'] + 2):
        try:
            t.train(net, it)
        except Enough:
            return
        except Violation:
            raise
        except Exception:
            if s.d is None or not s.armed:
                raise
            s.end(True, None)
    raise Violation('no-progress', 'training does not get past the faults')


def features_run(plan, ctx, net, spec, it, s):
    if plan['train_first']:
        t = trainer(make_stepper(plan['stepper']),
                    [bs.hooks.StopAfterEpoch(1)])
        t.train(net, it)
    names = ['proj.outputs.default', zoo.output_path(spec),
             'Input.outputs.default', 'out.inputs.' +
             ('inputs_1' if spec['loss'] == 'SQD' else 'default')]
    bufs = sorted(set(names))[:max(1, plan['nbuf'])]
    data = zoo.make_data(spec, plan['it']['T'], plan['it']['n'],
                         plan['it']['dseed'])
    cut = spec['mask'] and plan['cut']
    # reference: one example at a time
    want = {}
    for b in range(plan['it']['n']):
        net.provide_external_data({k: v[:, b:b + 1] for k, v in data.items()})
        net.forward_pass()
        for n in bufs:
            want.setdefault(n, []).append(net.get(n))
    want = {n: np.concatenate(v, axis=1) for n, v in want.items()}
    for k in range(max(1, plan['saves'])):
        size = plan['bs2'] + k
        if size and plan['it']['n'] >= 1:
            it = Minibatches(size, shuffle=False, cut_according_to='mask'
                             if cut else None, **data)
        else:
            it = Undivided(**data)
        arg = bufs[0] if len(bufs) == 1 else bufs
        got = {}

        s.begin()
        try:
            extract_and_save(net, it, arg, s.path)
            raised = False
        except Exception:
            if not s.armed:
                raise
            raised = True
        if not raised:
            # tolerant comparison of the computed numbers first
            s.d.clear()
            st, val = in_child(lambda: read_logs(s.path))
            need(st == 'ok', 'unreadable', lambda: '%s %s' % (st, val))
            need(set(val) == set(want), 'wrong-content',
                 lambda: 'features %s instead of %s' % (sorted(val),
                                                        sorted(want)))
            for n in want:
                v = val[n]
                if cut and size:
                    T = plan['it']['T']
                    v = uncut(v[:T], want[n][:T], data['mask'])
                    v = np.concatenate([v, want[n][T:]])
                need(zoo.close(v, want[n], tol_for(net)),
                     'wrong-content', lambda: 'feature %s (batch size %d): '
                     '%s' % (n, size, zoo.diff(v, want[n])))
            got = val
        s.end(raised, got)
