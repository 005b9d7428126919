"""C23: a described experiment is re-created as it was declared."""
import base64
import io
import json
import os
import pickle
import re
import subprocess
import sys

import boot
import brainstorm as bs
import h5py
import numpy as np
import world
import zoo
from brainstorm.describable import Describable
from brainstorm.handlers import NumpyHandler
from brainstorm.hooks import Hook
from brainstorm.randomness import global_rnd
from brainstorm.training import schedules as SC
from checks.common import (REAL_ALL, gen_iter, gen_picked, gen_stepper,
                           install_picked, make_iter, make_stepper, need)
from core import BadPlan
from netfile import in_child

ID = 'C23'
QUICK = 2600
LEVEL = 'exploration'
RULE = ('A trainer with a seeded stepper, schedules, scorers and 2..8 hooks '
        '(every kind that exists and user-defined ones with nested '
        'describable parts), and optionally its network with initializers '
        'and modifiers, is described as JSON text before, during (by a hook '
        'at a seeded update) or after training, also after training that '
        'ended by an error of the data source or of storage. Then everything '
        'but the text is given up: the experiment is re-created from it in '
        'the same process, in a forked one, or in one with another hash '
        'seed, and run. The complete record (parameters at every update, '
        'logs, printed output, saved files, calls of user-defined hooks) is '
        'compared with that of an experiment declared directly. The '
        'description is the same at all times, describing changes nothing, '
        'and experiments re-created from one text share no state. '
        'Non-trivial: the re-created experiment makes an update.')
MEASURE = 'distinct (hook kinds, moment, place, network or not)'
REAL = REAL_ALL + ['h5py/libhdf5', 'process boundaries']
STUB = ['hash seed', 'clock', 'data source that fails']
ASSUMPTIONS = ['data and data iterators are handed to train(); they are not '
               'part of the description']

MASK = 'an attribute that a schedule changes'


# ---------------------- user-defined describable objects ------------------ #

class Part(Describable):
    """Something with a configuration, a default and run-time state."""
    __undescribed__ = {'cache': {'n': [0]}, 'seen': 3}
    __default_values__ = {'opts': {'a': [1, 2]}, 'child': None}

    def __init__(self, value, opts=None, child=None):
        self.value = value
        self.opts = {'a': [1, 2]} if opts is None else opts
        self.child = child
        self.cache = {'n': [0]}
        self.seen = 3

    def touch(self):
        self.cache['n'].append(len(self.cache['n']))
        self.cache['x'] = 1
        self.seen += 1
        if isinstance(self.child, Part):
            self.child.touch()

    def show(self):
        return [self.value, sorted(self.opts), [list(v) for k, v in sorted(
            self.opts.items())], dict(self.cache), self.seen,
            self.child.show() if isinstance(self.child, Part)
            else self.child, type(self).__name__]


class SpecialPart(Part):
    __undescribed__ = {'seen': 5, 'extra': None}
    __default_values__ = {'child': 7}

    def __init__(self, value, opts=None, child=7):
        super(SpecialPart, self).__init__(value, opts, child)
        self.seen = 5
        self.extra = None
        self.weights = np.arange(3) * 0.5

    def __init_from_description__(self, description):
        self.weights = np.array(self.weights)

    def show(self):
        return super(SpecialPart, self).show() + [
            self.extra, self.weights.tolist(), str(self.weights.dtype)]


RECORD = []


def raw(a):
    """(the sign of a NaN depends on the alignment of memory)"""
    a = np.array(a)
    if a.dtype.kind == 'f':
        a[np.isnan(a)] = np.nan
    return a.tobytes()


class Tally(Hook):
    """Records what it is called with and works on its parts."""
    __undescribed__ = {'count': 0}

    def __init__(self, parts, name=None, timescale='epoch', interval=1,
                 verbose=None):
        super(Tally, self).__init__(name, timescale, interval, verbose)
        self.parts = parts
        self.count = 0

    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        self.count += 1
        for p in self.parts:
            p.touch()
        RECORD.append((self.__name__, epoch_nr, update_nr, self.count,
                       [p.show() for p in self.parts], self.verbose,
                       self.run_verbosity, sorted(logs)))
        return {'count': self.count}


ASK = [None]


NEW = {}


def new_class(seed):
    """a class of hooks that the experiment defines when it starts"""
    name = str('Tally%d' % seed)
    if name not in NEW:
        NEW.clear()
        NEW[name] = type(name, (Tally,), {
            '__undescribed__': {'count': seed % 7},
            '__default_values__': {'interval': 2},
            '__init__': new_init, 'seed': seed})
    return NEW[name]


def new_init(self, parts, name=None, timescale='epoch', interval=2):
    Tally.__init__(self, parts, name, timescale, interval)
    self.count = self.seed % 7


class Watch(Hook):
    """Records the parameters (and lets the check look in)."""

    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        p = net.get('parameters')
        RECORD.append((self.__name__, epoch_nr, update_nr, str(p.dtype),
                       raw(p)))
        if ASK[0] is not None:
            ASK[0](update_nr)


# ---------------------------------- plan ---------------------------------- #

KINDS = ['loss', 'scores', 'params', 'grads', 'deltas', 'inouts', 'early',
         'threshold', 'nan', 'quit', 'best', 'best', 'logs', 'net', 'bar',
         'tally', 'tally', 'new', 'schedule', 'epochs']


def gen_part(rng, depth=0):
    return [rng.choice(['part', 'special']),
            rng.choice([0, 1, 1.5, True, None, 'x', [1, 'y'], {'k': [2]}]),
            rng.choice([None, None, 0, 1]),
            gen_part(rng, depth + 1) if depth < 2 and rng.random() < 0.4
            else rng.choice(['default', 'default', 5, None, 7])]


def gen(rng, tier):
    hooks = []
    for i in range(rng.randint(2, 8)):
        k = rng.choice(KINDS)
        h = {'k': k, 'ts': rng.choice(['epoch', 'epoch', 'update']),
             'iv': rng.choice([1, 1, 2, 3]),
             'name': rng.choice([None, 'zz', 'a', 'm%d' % i, 'B']) if
             rng.random() < .5 else None,
             'verbose': rng.choice([None, None, 0, 1]),
             'crit': rng.choice(['min', 'max'])}
        if k in ('early', 'threshold', 'best'):
            h['log'] = rng.choice(['base.total_loss', 'base.total_loss',
                                   'rolling_training.total_loss'])
            h['patience'] = rng.choice([1, 1, 2, 4])
            h['threshold'] = rng.choice([0.0, 0.3, 1, 2.5])
            h['file'] = rng.choice([0, 1])
        elif k == 'scores':
            h['scorers'] = [rng.choice(['acc', 'ham', 'mse'])
                            for _ in range(rng.randint(1, 2))]
        elif k in ('tally', 'new'):
            h['parts'] = [gen_part(rng) for _ in range(rng.randint(0, 2))]
        elif k == 'schedule':
            h['sch'] = rng.choice([['linear', 0.1, 0.01, rng.randint(1, 5)],
                                   ['exp', 0.1, rng.choice([0.5, 1.2])],
                                   ['explim', 0.1, 0.5, 0.02, 1.0],
                                   ['multi', 0.1, [2, 4], [0.05, 0.01]],
                                   ['after', 0.1, rng.randint(1, 3)]])
            h['attr'] = rng.choice(['learning_rate', 'learning_rate',
                                    'momentum'])
        elif k == 'epochs':
            h['max'] = rng.randint(1, 4)
        elif k == 'nan':
            h['check'] = rng.choice([[], ['base.total_loss']])
            h['cp'] = rng.choice([0, 1])
        hooks.append(h)
    spec = zoo.gen_net(rng, maxdepth=2)
    return {'net': spec, 'seed': rng.randint(0, 10 ** 6), 'hooks': hooks,
            'stepper': gen_stepper(rng, ('sgd', 'mom', 'nag', 'mom', 'fwd')),
            'it': gen_iter(rng, maxn=6, maxT=2),
            'mon': gen_iter(rng, maxn=4, maxT=2, shuffle=0),
            'scorers': [rng.choice(['acc', 'ham', 'mse'])
                        for _ in range(rng.choice([0, 0, 1, 2]))],
            'wmods': gen_picked(rng), 'gmods': gen_picked(rng, True),
            'init': rng.choice(zoo.INITS), 'fixed': rng.choice([0, 1]),
            'redo': rng.choice([0, 1]),      # the network is described too
            'verbose': rng.choice([0, 1]),
            'epochs': rng.randint(1, 3),
            'when': rng.choice(['fresh', 'during', 'during', 'after', 'after',
                                'after', 'failed', 'nospace']),
            'at': rng.randint(0, 4), 'again': rng.choice([0, 0, 1]),
            'where': rng.choice(['same', 'same', 'same', 'fork', 'child']),
            'hash': rng.choice([1, 2, 3]), 'sort': rng.choice([0, 1]),
            'late': rng.choice([0, 0, 1]), 'twice': rng.choice([0, 1])}


def make_part(p):
    if p[0] not in ('part', 'special'):
        raise BadPlan('part')
    k = {}
    if p[2] is not None:
        k['opts'] = {'a': [1, 2]} if p[2] else {'b': [3.5], 'a': []}
    if p[3] != 'default':
        k['child'] = make_part(p[3]) if isinstance(p[3], list) else p[3]
    return (Part if p[0] == 'part' else SpecialPart)(p[1], **k)


def make_scorer(k, i):
    """(named such that several may be used together)"""
    name = 'sc%d' % i
    if k == 'acc':
        return bs.scorers.Accuracy(name=name)
    if k == 'ham':
        return bs.scorers.Hamming(0.3 + 0.1 * i, name=name)
    if k == 'mse':
        return bs.scorers.MeanSquaredError(name=name)
    raise BadPlan(k)


def make_schedule(s):
    if s[0] == 'linear':
        return SC.Linear(s[1], s[2], s[3])
    if s[0] == 'exp':
        return SC.Exponential(s[1], s[2])
    if s[0] == 'explim':
        return SC.Exponential(s[1], s[2], s[3], s[4])
    if s[0] == 'multi':
        return SC.MultiStep(s[1], list(s[2]), list(s[3]))
    if s[0] == 'after':
        return SC.DecreaseAfterEpoch(s[1], s[2])
    raise BadPlan(s[0])


def make_hook(h, i, seed):
    k = h['k']
    if h['iv'] < 1:
        raise BadPlan('interval')
    a = {'name': h['name'], 'timescale': h['ts'], 'interval': h['iv']}
    v = dict(a, verbose=None if h['verbose'] is None else bool(h['verbose']))
    H = bs.hooks
    if k == 'loss':
        return H.MonitorLoss('mon', **v)
    if k == 'scores':
        return H.MonitorScores('mon', [make_scorer(s, j) for j, s in
                                       enumerate(h['scorers'])], **v)
    if k == 'params':
        return H.MonitorLayerParameters('proj', **v)
    if k == 'grads':
        return H.MonitorLayerGradients('proj', **v)
    if k == 'deltas':
        return H.MonitorLayerDeltas('proj', **v)
    if k == 'inouts':
        return H.MonitorLayerInOuts('proj', **v)
    # the logs of an epoch are only there after it
    if k in ('early', 'threshold', 'best') and 'rolling' in h['log']:
        v['timescale'] = 'epoch'
    if k == 'early':
        return H.EarlyStopper(h['log'], h['patience'], h['crit'], **v)
    if k == 'threshold':
        return H.StopAfterThresholdReached(h['log'], h['threshold'],
                                           h['crit'], **v)
    if k == 'nan':
        return H.StopOnNan(h['check'], bool(h['cp']), **v)
    if k == 'quit':
        return H.StopOnSigQuit(**v)
    if k == 'best':
        return H.SaveBestNetwork(h['log'], 'best%d.h5' % i if h['file'] else
                                 None, h['crit'], **v)
    if k == 'logs':
        return H.SaveLogs('logs%d.h5' % i, **a)
    if k == 'net':
        return H.SaveNetwork('net%d.h5' % i, **a)
    if k == 'bar':
        return H.ProgressBar()
    if k == 'tally':
        return Tally([make_part(p) for p in h['parts']], **v)
    if k == 'new':
        return new_class(seed)([make_part(p) for p in h['parts']], **a)
    if k == 'schedule':
        if h['sch'][0] == 'multi':
            v['interval'] = 1
        return H.ModifyStepperAttribute(make_schedule(h['sch']), h['attr'],
                                        **v)
    if k == 'epochs':
        return H.StopAfterEpoch(h['max'], **v)
    raise BadPlan(k)


def declare(plan):
    t = bs.Trainer(make_stepper(plan['stepper']),
                   verbose=bool(plan['verbose']))
    t.add_hook(Watch('watch', 'update', 1))
    t.add_hook(bs.hooks.MonitorLoss('mon', 'base', 'update', 1,
                                    verbose=False))
    for i, h in enumerate(plan['hooks']):
        if h['k'] == 'schedule' and h['attr'] == 'momentum' and \
                plan['stepper'][0] not in ('mom', 'nag'):
            continue
        if h['k'] == 'schedule' and plan['stepper'][0] == 'fwd':
            continue
        hook = make_hook(h, i, plan['seed'])
        if hook.__name__ not in t.hooks:
            t.add_hook(hook)
    t.add_hook(bs.hooks.StopAfterEpoch(plan['epochs'], name='end',
                                       verbose=False))
    t.train_scorers = [make_scorer(k, i)
                       for i, k in enumerate(plan['scorers'])]
    return t


def declare_net(plan):
    """returns (network, initializers)"""
    spec = plan['net']
    net = zoo.build(spec, seed=plan['seed'], init=False)
    _, fixed = zoo.graph(spec)
    ini = dict(fixed)
    kind = plan['init']
    if 'CONV' in zoo.names_in(spec) and kind not in ('uniform', 'number'):
        kind = 'gauss'
    ini.update(zoo.make_init(kind))
    net.initialize(ini, seed=plan['seed'])
    zoo.tame(net)
    install_picked(net, plan['wmods'], plan['gmods'])
    return net, ini


def reseed(net, plan):
    net.rnd.set_seed(plan['seed'] + 5)
    net.handler.rnd.set_seed(plan['seed'] + 6)
    for what in (net.weight_modifiers, net.gradient_modifiers):
        for l in sorted(what):
            for v in sorted(what[l]):
                for m in what[l][v]:
                    m.rnd.set_seed(3)


class Fails(object):
    """data source that fails at one batch"""

    def __init__(self, it, at):
        self.it, self.at, self.n = it, at, 0
        self.data_shapes, self.length = it.data_shapes, it.length

    def __call__(self, handler):
        for d in self.it(handler):
            if self.n == self.at:
                raise IOError('data source failed')
            self.n += 1
            yield d


def experiment(plan, t, net, d, fails=None):
    """Train; returns the record of everything observable."""
    cwd = os.getcwd()
    out, sys.stdout = sys.stdout, io.StringIO()
    del RECORD[:]
    err = None
    reseed(net, plan)
    it = make_iter(plan['net'], plan['it'])
    if fails is not None:
        it = Fails(it, fails)
    os.chdir(d)
    world.CLOCK.reset()
    try:
        try:
            t.train(net, it, mon=make_iter(plan['net'], plan['mon']))
        except (IOError, OSError) as e:
            err = type(e).__name__
        text = sys.stdout.getvalue()
        rec = [('record', list(RECORD)), ('error', err),
               ('counters', (t.current_epoch_nr, t.current_update_nr)),
               ('hooks', [(n, h.__name__, type(h).__name__)
                          for n, h in t.hooks.items()]),
               ('logs', logs_of(t.logs)),
               ('parameters', raw(net.get('parameters'))),
               ('printed', re.sub(r'Took: [^\n]*', 'Took', text)),
               ('files', files(d)),
               ('kept', [(n, kept(h)) for n, h in t.hooks.items()
                         if isinstance(h, bs.hooks.SaveBestNetwork)])]
    finally:
        sys.stdout = out
        os.chdir(cwd)
    return rec


def kept(h):
    p = getattr(h, 'parameters', None)
    return (None if p is None else raw(p), repr(h.best_so_far),
            h.best_t)


def logs_of(x):
    if isinstance(x, dict):
        return [(k, logs_of(v)) for k, v in x.items()]
    return [repr(v) for v in x]


def files(d):
    r = []
    for n in sorted(os.listdir(d)):
        with h5py.File(os.path.join(d, n), 'r') as f:
            r.append((n, content(f)))
    return r


def content(g):
    r = []
    for k in sorted(g):
        v = g[k]
        if isinstance(v, h5py.Group):
            r.append((k, content(v)))
        else:
            x = v[()]
            if k == 'description':
                # (the order of the layers in the text has no meaning)
                x = json.dumps(json.loads(np.asarray(x).tobytes() if
                                          isinstance(x, np.void) else x),
                               sort_keys=True)
            elif x.dtype == object:
                x = repr(x)
            else:
                x = x.shape, str(x.dtype), raw(x)
            r.append((k, x))
    return r


def told(plan, obj):
    """the description as text"""
    return json.dumps(bs.get_description(obj), sort_keys=bool(plan['sort']))


def normal(text, plan):
    """description without what a schedule legitimately changes"""
    d = json.loads(text)
    for h in plan['hooks']:
        if h['k'] == 'schedule' and h['attr'] in d['stepper']:
            d['stepper'][h['attr']] = MASK
    return json.dumps(d, sort_keys=True)


def warm(plan):
    """something has been created from a description before the experiment
    defines its own classes"""
    bs.create_from_description(bs.get_description(Part(1)))
    new_class(plan['seed'])


def recreate(plan, text, ntext, ptext, d):
    """Run the experiment again from what was written down."""
    warm(plan)
    t = bs.create_from_description(json.loads(text))
    if ntext is None:
        net = declare_net(plan)[0]
    else:
        desc = json.loads(ntext)
        net = bs.create_from_description(desc)
        again = bs.create_from_description(json.loads(ntext))
        x, y = json.loads(told(plan, net)), json.loads(told(plan, again))
        need(x == y == desc, 'description-changes', lambda: 'the network '
             're-created from %s is described as %s' % (desc, x))
        net.output_name = zoo.output_path(plan['net'])
        net.handler.set_from_numpy(net.buffer.parameters,
                                   np.frombuffer(*ptext))
    other = None
    if plan['twice']:
        # another one from the same text, which is used before
        other = bs.create_from_description(json.loads(text))
        e = os.path.join(d, 'other')
        os.mkdir(e)
        first = experiment(plan, other, declare_net(plan)[0], e)
        del first
        for n in os.listdir(e):
            os.unlink(os.path.join(e, n))
        os.rmdir(e)
    if plan['late']:
        t.add_hook(Watch('late', 'epoch', 1))
    before = told(plan, t)
    if plan['again']:
        t = bs.create_from_description(json.loads(before))
    rec = experiment(plan, t, net, d)
    rec.append(('description before', json.loads(before)))
    rec.append(('description after', json.loads(normal(told(plan, t),
                                                       plan))))
    return rec


_servers = {}


def server(hashseed):
    key = os.getpid(), hashseed
    if key not in _servers:
        _servers[key] = subprocess.Popen(
            [sys.executable, '-W', 'ignore', os.path.join(boot.SIM,
                                                          'child.py'), 'c23'],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, universal_newlines=True,
            env=boot.child_env(hashseed))
    return _servers[key]


def ask(hashseed, args):
    p = server(hashseed)
    p.stdin.write(base64.b64encode(pickle.dumps(args)).decode() + '\n')
    p.stdin.flush()
    while True:
        line = p.stdout.readline()
        need(line, 'recreate-fails', 'the process died')
        if line.startswith('RESULT '):
            return pickle.loads(base64.b64decode(line[7:]))


def main_child():
    out = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    while True:
        line = sys.stdin.readline()
        if not line:
            return
        args = pickle.loads(base64.b64decode(line))

        def work():
            world.reset()
            return recreate(*args)
        r = in_child(work)
        out.write('RESULT ' + base64.b64encode(pickle.dumps(r)).decode() +
                  '\n')
        out.flush()


def run(plan, ctx):
    spec = plan['net']
    if plan['epochs'] < 1 or plan['mon']['n'] < 1:
        raise BadPlan('empty')
    warm(plan)
    # ---- the experiment as declared, never described
    net, ini = declare_net(plan)
    t = declare(plan)
    if plan['late']:
        t.add_hook(Watch('late', 'epoch', 1))
    want = experiment(plan, t, net, ctx.scratch())
    del t
    # ---- the experiment that is written down at some moment
    net, _ = declare_net(plan)
    t = declare(plan)
    fresh = told(plan, t)
    need(fresh == told(plan, t), 'description-changes',
         'describing a trainer twice gives two results')
    start = net.get('parameters')
    nfresh = told(plan, net)
    texts = []

    def ask_now(update):
        if update == plan['at']:
            texts.append(told(plan, t))
            if plan['redo']:
                told(plan, net)
    if plan['when'] == 'during':
        ASK[0] = ask_now
        try:
            got = experiment(plan, t, net, ctx.scratch())
        finally:
            ASK[0] = None
    elif plan['when'] == 'failed':
        got = experiment(plan, t, net, ctx.scratch(), fails=plan['at'])
        if dict(got)['error']:
            ctx.fault('data source error')
            got = None
    elif plan['when'] == 'nospace':
        d = ctx.scratch()
        # nothing can be stored: the directory is gone
        sub = os.path.join(d, 'gone')
        os.mkdir(sub)
        got = gone(plan, t, net, sub)
        if dict(got)['error']:
            ctx.fault('storage error')
            got = None
    elif plan['when'] == 'after':
        got = experiment(plan, t, net, ctx.scratch())
    elif plan['when'] == 'fresh':
        got = None
    else:
        raise BadPlan(plan['when'])
    if got is not None and not plan['late'] and plan['when'] != 'nospace':
        compare(want, got, 'describing-interferes', 'the experiment that was '
                'described')
    if not texts:
        texts.append(told(plan, t))
        need(texts[0] == told(plan, t), 'description-changes',
             'describing a trainer twice gives two results')
    text = texts[0]
    need(normal(text, plan) == normal(fresh, plan), 'description-changes',
         lambda: 'described %s (%s): %s; as declared: %s' % (
             plan['when'], plan['at'], normal(text, plan),
             normal(fresh, plan)))
    ntext = told(plan, net) if plan['redo'] else None
    if ntext is not None:
        x, y = json.loads(ntext), json.loads(nfresh)
        for d in (x, y):
            strip_seen(d)
        need(x == y, 'description-changes', lambda: 'the network is '
             'described as %s, before training as %s' % (x, y))
        ntext = nfresh
    # scheduled attributes: the schedule sets them before the first update
    # only if it is due at the start, which it always is
    d = ctx.scratch()
    args = (plan, text, ntext, (start.tobytes(), start.dtype), d)
    if plan['where'] == 'same':
        rec = recreate(*args)
    elif plan['where'] == 'fork':
        st, rec = in_child(lambda: recreate(*args))
        need(st == 'ok', 'recreate-fails', lambda: '%s %s' % (st, rec))
        ctx.fault('process gone, text kept')
    else:
        st, rec = ask(plan['hash'], args)
        need(st == 'ok', 'recreate-fails', lambda: '%s %s' % (st, rec))
        ctx.fault('process gone, other hash seed')
    got = dict(rec)
    before = json.dumps(got.pop('description before'), sort_keys=True)
    after = json.dumps(got.pop('description after'), sort_keys=True)
    if not plan['late']:
        need(normal(before, plan) == normal(fresh, plan),
             'description-changes', lambda: 're-created as %s, declared as %s'
             % (normal(before, plan), normal(fresh, plan)))
    need(after == normal(before, plan), 'description-changes',
         lambda: 'after training the re-created trainer is described as %s, '
         'before as %s' % (after, normal(before, plan)))
    compare(want, rec[:-2], 'differs-from-declared',
            'the experiment re-created from its description')
    ctx.event(want)
    if dict(want)['counters'][1]:
        ctx.nontrivial = True
    # ---- initializers
    other = bs.create_from_description(json.loads(json.dumps(
        bs.get_description(ini))))
    a, _ = declare_net(plan)
    a.initialize(ini, seed=plan['seed'] + 1)
    p = a.get('parameters')
    a.initialize(other, seed=plan['seed'] + 1)
    q = a.get('parameters')
    need(p.tobytes() == q.tobytes(), 'initializers-differ',
         'initializers re-created from their description draw other values')
    ctx.state(sorted({h['k'] for h in plan['hooks']}), plan['when'],
              plan['where'], plan['redo'])


def strip_seen(d):
    """freezing remembers the first weights it sees; they are kept"""
    for what in ('weight_modifiers', 'gradient_modifiers'):
        for l in d[what].values():
            for mods in l.values():
                for m in mods:
                    if m['@type'] == 'FreezeValues':
                        m.pop('weights', None)


def gone(plan, t, net, sub):
    """train while the directory of the files does not exist anymore"""
    real = os.chdir
    state = [0]

    def chdir(d):
        real(d)
        if not state[0]:
            state[0] = 1
            os.rmdir(d)
    os.chdir = chdir
    files_ = globals()['files']
    globals()['files'] = lambda d: []
    try:
        return experiment(plan, t, net, sub)
    finally:
        os.chdir = real
        globals()['files'] = files_


def compare(want, got, sig, what):
    for (k, x), (l, y) in zip(want, got):
        need(k == l and x == y, sig, lambda: '%s has other %s: %s, declared: '
             '%s' % ((what, k) + brief(y, x)))


def brief(x, y):
    """shortened to the first part that differs"""
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)) and \
            len(x) == len(y):
        for a, b in zip(x, y):
            if a != b:
                return brief(a, b)
    return tuple(re.sub(r'\\x[0-9a-f]{2}', '~', repr(v))[:600]
                 for v in (x, y))
