"""C04: the keep-best hook always keeps the best network seen."""
import errno
import math
import os
import random

import brainstorm as bs
import disk
import numpy as np
import zoo
from brainstorm.hooks import SaveBestNetwork, StopAfterEpoch
from checks.common import (REAL_ALL, Probe, gen_iter, gen_stepper, make_iter,
                           make_stepper, need, trainer)
from core import BadPlan, Violation
from netfile import Judge, describe

ID = 'C04'
QUICK = 4000
LEVEL = 'exploration'
RULE = ('Real training runs of random networks with a scripted monitored '
        'value (ties, NaN, infinities, slow and sudden changes), the keep-'
        'best hook writing a file or caching, storage faults during seeded '
        'checks (training raises and is continued), every crash prefix of '
        'every save judged against the networks recorded at the checks. '
        'Non-trivial: at least two checks where the best changes or a save '
        'fails.')
MEASURE = ('distinct (criterion, timescale, sequence of better/equal/worse/'
           'nan and save outcomes)')
REAL = REAL_ALL + ['h5py/libhdf5', 'CPython I/O', 'kernel file system']
STUB = ['failing system calls', 'crash states (model of the file system)',
        'the monitored value is scripted by a user hook']
ASSUMPTIONS = ['the monitored log is written at the same schedule as the '
               'keep-best hook checks it, as its documentation demands',
               'a first value that is already the worst possible (inf for '
               'min) may or may not be stored']


def gen(rng, tier):
    n = rng.randint(2, 9)
    vals = []
    for _ in range(n):
        r = rng.random()
        if vals and r < 0.2:
            vals.append(rng.choice(vals))
        elif r < 0.3:
            vals.append('nan')
        elif r < 0.36:
            vals.append(rng.choice(['inf', '-inf']))
        elif r < 0.5:
            vals.append(rng.choice([0., -1e-300, 1e-9, 1e300]))
        else:
            vals.append(round(rng.uniform(-2, 2), 2))
    faults = {}
    for i in range(n):
        if rng.random() < 0.25:
            faults[str(i)] = [rng.choice(['ENOSPC', 'EIO', 'EACCES', 'EDQUOT',
                                          'short']),
                              round(rng.random(), 2),
                              rng.choice([1, 1, 3, disk.BIG])]
    return {'net': zoo.gen_net(rng, maxdepth=2,
                               dtype=rng.choice(['float32', 'float64'])),
            'seed': rng.randint(0, 10 ** 6),
            'it': gen_iter(rng, maxn=5, maxT=2),
            'stepper': gen_stepper(rng),
            'values': vals, 'faults': faults,
            'criterion': rng.choice(['min', 'max']),
            'timescale': rng.choice(['epoch', 'epoch', 'update']),
            'interval': rng.choice([1, 1, 2]),
            'nested': rng.choice([0, 1]),
            'file': rng.choice([1, 1, 1, 0]),
            'crash': rng.choice([0, 1]),
            'prior': rng.choice([0, 0, 1]),
            # the network was used before
            'warm': rng.choice([0, 0, 1]),
            'crash_seed': rng.randint(0, 10 ** 6)}


class Enough(Exception):
    pass


def better(a, b, crit):
    if math.isnan(a):
        return False
    return a < b if crit == 'min' else a > b


def run(plan, ctx):
    base = ctx.scratch()
    root = os.path.join(base, 'd')
    os.mkdir(root)
    judge = Judge(base)
    path = os.path.join(root, 'best.hdf5') if plan['file'] else None
    spec = plan['net']
    crit = plan['criterion']
    if crit not in ('min', 'max') or plan['interval'] < 1:
        raise BadPlan('criterion')
    values = [float(v) for v in plan['values']]
    net = zoo.build(spec, seed=plan['seed'])
    prior = None
    if plan['prior'] and path:
        prior = describe(net)
        net.save_as_hdf5(path)
    it = make_iter(spec, plan['it'])
    if plan['warm']:
        net.provide_external_data(zoo.make_data(spec, 3, 6, plan['seed']))
        net.forward_pass(training_pass=bool(plan['seed'] % 2))
    rng = random.Random(plan['crash_seed'])

    # model
    st = {'n': 0, 'best': None, 'want': prior, 'params': None, 'd': None,
          'pending': None, 'maybe': None}
    log = []

    def metric(epoch, update, net, stepper, logs):
        i = st['n']
        if i >= len(values):
            raise Enough()
        st['n'] += 1
        st['pending'] = (i, values[i])
        return {'a': {'v': values[i], 'w': 0}} if plan['nested'] \
            else values[i]

    def pre(epoch, update, net, stepper, logs):
        i, v = st['pending']
        st['snap'] = describe(net)
        st['snap_params'] = net.get('parameters')
        st['before'] = disk.snapshot(root)
        st['d'] = disk.Disk(root)
        st['d'].__enter__()
        f = plan['faults'].get(str(i))
        st['armed'] = None
        if f and plan['file']:
            kind, at, ln = f
            op = int(at * 9)
            if kind == 'short':
                st['d'].fault(op, min(disk.BIG, op + ln), 0, 13,
                              [disk.WRITE])
            else:
                st['d'].fault(op, min(disk.BIG, op + ln - 1), disk.ERR[kind],
                              -1, disk.APPLIES[kind])
            st['armed'] = kind

    def finish(raised):
        i, v = st['pending']
        st['pending'] = None
        d = st['d']
        st['d'] = None
        if d is None:
            return
        d.clear()
        d.__exit__()
        for o in d.ops:
            if o[4]:
                ctx.fault('%s on %s' % (errno.errorcode.get(o[4], o[4]),
                                        disk.NAMES[o[0]]))
        worst = math.inf if crit == 'min' else -math.inf
        improves = better(v, worst if st['best'] is None else st['best'],
                          crit)
        optional = st['best'] is None and v == worst
        old = st['want']
        if raised:
            need(improves or optional, 'saved-without-improvement',
                 'check %d with value %r raised' % (i, v))
        elif improves:
            st['best'] = v
            st['want'] = st['snap']
            st['params'] = st['snap_params']
        log.append((improves, raised, math.isnan(v)))
        ctx.event('check', i, v, improves, raised)
        if not path:
            return
        now = disk.snapshot(root).get('best.hdf5')
        if optional and not raised and now is not None and \
                judge.is_network(now, st['snap']) is None:
            st['want'] = st['snap']
        want = st['want']
        if want is None:
            need(now is None, 'stored-unexpected',
                 lambda: 'check %d: a file appeared although nothing '
                 'improved' % i)
        else:
            why = judge.is_network(now, want)
            need(why is None, 'not-the-best',
                 lambda: 'after check %d of values %s (%s; %s): %s'
                 % (i, values[:i + 1], crit, 'save failed' if raised else
                    'save ok', why))
        if plan['crash'] and not raised and improves:
            fs = disk.FS(st['before'])
            new = now
            oldc = st['before'].get('best.hdf5')
            for k, op in enumerate(d.ops):
                fs.apply(op)
                for kind, state in (('kill', fs.current()),
                                    ('power', fs.after_power_loss(rng))):
                    ctx.fault('kill' if kind == 'kill' else 'power loss')
                    c = state.get('best.hdf5')
                    if c == new or c == oldc:
                        continue
                    why = judge.is_network(c, st['snap'])
                    need(why is None, 'lost-in-crash',
                         lambda: 'crash (%s) after %d file operations of the '
                         'save at check %d: %s' % (kind, k + 1, i, why))

    def post(epoch, update, net, stepper, logs):
        finish(False)

    ts, iv = plan['timescale'], plan['interval']
    best = SaveBestNetwork('m.a.v' if plan['nested'] else 'm', path, crit,
                           name='best', timescale=ts, interval=iv)
    t = trainer(make_stepper(plan['stepper']),
                [Probe(metric, 'm', ts, iv), Probe(pre, 'pre', ts, iv), best,
                 Probe(post, 'post', ts, iv)])
    for _ in range(len(values) + 2):
        try:
            t.train(net, it)
        except Enough:
            break
        except Violation:
            raise
        except Exception as e:
            if st['d'] is None or st['armed'] is None:
                raise
            finish(True)
            ctx.tally('failed saves')
    else:
        raise Violation('no-progress', 'training does not get past the '
                        'failed saves')
    if st['d'] is not None:
        st['d'].__exit__()
    if sum(1 for a in log if a[0]) > 1 or any(a[1] for a in log):
        ctx.nontrivial = True
    ctx.state(crit, ts, log)
    # what is stored now, after more training
    if st['want'] is not None or st['params'] is not None:
        got = best.load_best_network()
        if path:
            p = got.get('parameters').tobytes()
            need(p == st['want']['params'], 'load-best-differs',
                 'load_best_network() does not return the best network')
        else:
            need(st['params'] is None or zoo.same(got, st['params']),
                 'cached-not-best',
                 lambda: 'the cached parameters are not those of the best '
                 'check: %s' % zoo.diff(got, st['params']))
