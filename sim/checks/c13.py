"""C13: equal seeds give identical experiments."""
import base64
import hashlib
import json
import os
import pickle
import random
import subprocess
import sys

import boot
import brainstorm as bs
import numpy as np
import world
import zoo
from brainstorm import data_iterators as di
from brainstorm import value_modifiers as vm
from brainstorm.handlers import NumpyHandler
from brainstorm.randomness import global_rnd
from brainstorm.tools import evaluate, extract, shuffle_data, split
from checks.common import (REAL_ALL, Probe, add_jitter, gen_iter, gen_picked, gen_stepper,
                           install_picked, make_stepper, need, trainer)
from core import BadPlan
from netfile import describe, in_child

ID = 'C13'
QUICK = 900
LEVEL = 'exploration'
RULE = ('A complete experiment (splitting and shuffling the data, building '
        'the network, initialising with seeded mixtures of all initializers, '
        'overlapping modifier patterns, augmenting and shuffling iterators, '
        'dropout, training with monitors, evaluation, saving) is recorded '
        'in full, then repeated: in the same process after other activity, '
        'in a process with another hash seed, and with other memory '
        'contents, clock and object addresses. The records are compared bit '
        'for bit. A repetition with another seed has to make other random '
        'choices, and separate components must not repeat each other. '
        'Non-trivial: every run (all contain random choices).')
MEASURE = 'distinct (layer kinds, initializers, iterators, environment)'
REAL = REAL_ALL + ['h5py/libhdf5', 'process boundaries']
STUB = ['content of freshly allocated memory', 'wall clock', 'hash seed']
ASSUMPTIONS = ['the handler is created with a seed (the default handler '
               'draws its own at import)', 'same machine and numpy build']


def gen(rng, tier):
    spec = zoo.gen_net(rng, maxdepth=3)
    inits = []
    for pat in ['default', 'h*', 'h0', 'h1', 'proj']:
        if pat == 'default' or rng.random() < 0.35:
            inits.append([pat, rng.choice(zoo.INITS)])
    aug = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        aug.append(rng.choice(['flip', 'crop', 'noise', 'salt']
                              if len(spec['in']) == 3 else
                              ['noise', 'salt']))
    line = ' '.join(rng.choice(['F3', 'Fs2', 'R3', 'L2', 'B', 'D.3', 'Ft4'])
                    for _ in range(rng.randint(1, 4)))
    return {'net': spec, 'line': line,
            'seed': rng.choice([0] + [rng.randint(1, 10 ** 6)] * 4),
            'inits': inits, 'aug': aug,
            'it': gen_iter(rng, maxn=7, maxT=3, undivided=False),
            'mon': gen_iter(rng, maxn=6, maxT=3),
            'stepper': gen_stepper(rng),
            'wmods': add_jitter(rng, gen_picked(rng)),
            'gmods': add_jitter(rng, gen_picked(rng, True), True),
            'overlap': rng.choice([0, 1]),
            'own': rng.choice([0, 0, 1]),      # component seeds
            'tools': rng.choice([0, 1]), 'epochs': rng.randint(1, 3),
            'hash': rng.choice([1, 2, 3]),
            'shift': rng.randint(0, 5),
            'envs': rng.choice([['same', 'child'], ['child'],
                                ['same', 'fork', 'child']]),
            'poison': rng.choice([None, 'nan', 'garbage'])}


def wrap(it, aug, spec, plan):
    its = [it]
    for n, k in enumerate(aug):
        if k == 'noise':
            it = di.AddGaussianNoise(it, {'default': 0.3},
                                     {'default': 0.1})
        elif k == 'salt':
            it = di.AddSaltNPepper(it, {'default': 0.4}, {'default': 0.3})
        elif k == 'flip':
            it = di.Flip(it, {'default': 0.5})
        elif k == 'crop':
            h, w = spec['in'][:2]
            it = di.Pad(it, {'default': 1})
            it = di.RandomCrop(it, {'default': (h, w)})
        else:
            raise BadPlan(k)
        its.append(it)
    if plan['own']:
        for n, i in enumerate(its):
            i.rnd.set_seed(plan['it']['seed'] + n)
    return it


def experiment(plan, d, offset=0):
    """Run the experiment; returns the list of everything observable."""
    spec = plan['net']
    rec = []

    def add(name, x):
        if isinstance(x, np.ndarray):
            x = (x.shape, str(x.dtype), digest(x))
        rec.append((name, x))
    global_rnd.set_seed(plan['seed'] + offset)
    it = plan['it']
    if it['n'] < 1 or it['T'] < 1 or it['bs'] < 1 or plan['epochs'] < 1:
        raise BadPlan('empty')
    data = zoo.make_data(spec, it['T'], it['n'], it['dseed'])
    if plan['tools']:
        ks = sorted(data)
        sh = shuffle_data(*[data[k] for k in ks],
                          seed=plan['seed'] + offset)
        data = dict(zip(ks, sh))
        for k in ks:
            add('shuffled ' + k, data[k])
        if it['n'] > 3:
            for part in split(data['default'], ratios=(3, 1)):
                add('split', np.concatenate([np.ravel(p) for p in
                                             (part if isinstance(part, (
                                                 list, tuple)) else
                                              [part])]))
    inp, fixed = zoo.graph(spec)
    net = bs.Network.from_layer(inp)
    net.output_name = zoo.output_path(spec)
    net.set_handler(NumpyHandler(np.dtype(spec['dtype']).type,
                                 seed=plan['seed'] + offset))
    ini = dict(fixed)
    for pat, kind in plan['inits']:
        if 'CONV' in zoo.names_in(spec):
            kind = 'uniform' if kind == 'uniform' else 'gauss'
        i = zoo.make_init(kind)
        if pat == 'default':
            ini.update(i)
        elif pat not in fixed and (pat != 'h*' or not fixed):
            if pat in net.layers or (pat == 'h*' and any(
                    l.startswith('h') for l in net.layers)):
                if pat == 'h*' or not any(p == 'h*' and p in ini
                                          for p in ini) or \
                        not pat.startswith('h'):
                    ini[pat] = {'default': i['default'],
                                'fallback': bs.initializers.Gaussian(0.2)}
    if plan['own']:
        net.initialize(ini, seed=plan['seed'] + offset)
    else:
        net.initialize(ini)
    add('architecture', json.dumps(net.architecture, sort_keys=True,
                                   default=str))
    add('layers', list(net.layers))
    add('initial', net.get('parameters'))
    views = zoo.views(net)
    if plan['overlap']:
        net.set_weight_modifiers({'default': [vm.ClipValues(-0.8, 0.9)],
                                  'pro*': vm.ConstrainL2Norm(0.7),
                                  '*roj': vm.ClipValues(-0.4, 0.5),
                                  'proj': vm.ConstrainL2Norm(0.6)})
        net.set_gradient_modifiers({'pro*': vm.L2Decay(0.1),
                                    '*roj': vm.ClipValues(-0.2, 0.2),
                                    'proj': vm.L1Decay(0.2)})
    else:
        install_picked(net, plan['wmods'], plan['gmods'])
    base = di.Minibatches(it['bs'], shuffle=bool(it['shuffle']), **data)
    train_it = wrap(base, plan['aug'], spec, plan)
    m = plan['mon']
    if m['n'] < 1 or m['T'] < 1:
        raise BadPlan('empty')
    mon = di.Minibatches(max(1, m['bs']), shuffle=bool(m['shuffle']),
                         **zoo.make_data(spec, m['T'], m['n'], m['dseed']))
    for b in train_it(None):
        for k in sorted(b):
            add('batch ' + k, b[k])

    def see(epoch, update, net, stepper, logs):
        add('parameters', net.get('parameters'))
        add('inputs', net.get_input('default'))
    t = trainer(make_stepper(plan['stepper']),
                [Probe(see, 'see', 'update', 1),
                 bs.hooks.MonitorLoss('mon', 'mon'),
                 bs.hooks.MonitorLayerParameters('proj', 'mp'),
                 bs.hooks.StopAfterEpoch(plan['epochs'])])
    t.train(net, train_it, mon=mon)
    add('logs', repr(tolist(t.logs)))
    r = evaluate(net, mon)
    # without a seed: the choices of the network itself
    net.initialize(ini)
    add('initialized again', net.get('parameters'))
    line = bs.tools.create_net_from_spec(
        'classification', 3, 2, plan['line'])
    add('from line', line.get('parameters'))
    add('evaluation', [(k, repr(float(v))) for k, v in r.items()])
    net.save_as_hdf5(os.path.join(d, 'n.hdf5'))
    other = bs.Network.from_hdf5(os.path.join(d, 'n.hdf5'))
    add('loaded', other.get('parameters'))
    desc = dict(describe(other), params=None, views=zoo.views(other))
    add('description', json.dumps(plain(desc), sort_keys=True))
    return rec, views


def digest(x):
    """Of the values; the bits of a nan depend on the memory layout."""
    if x.dtype.kind == 'f' and np.isnan(x).any():
        x = np.where(np.isnan(x), np.array(np.nan, x.dtype), x)
    return hashlib.md5(np.ascontiguousarray(x).tobytes()).hexdigest()


def plain(x):
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return digest(x)
    return repr(x)


def tolist(x):
    if isinstance(x, dict):
        return [(k, tolist(v)) for k, v in x.items()]
    return [repr(float(v)) if isinstance(v, (int, float, np.floating)) else
            repr(v) for v in x]


def disturbed(plan, d):
    """The same experiment in another environment."""
    world.CLOCK.now = 2e9
    world.CLOCK.jumps = random.Random(3)
    global_rnd.set_seed(plan['seed'] + 991)
    junk = [object() for _ in range(plan['shift'] * 100)]
    for i in range(plan['shift']):
        n = zoo.build(plan['net'], seed=i)
        n.provide_external_data(zoo.make_data(plan['net'], 2, 2, i))
        n.forward_pass(training_pass=True)
        np.random.seed(i)
    with world.device(poison=plan['poison'], pseed=plan['seed'] + 5):
        out = experiment(plan, d)[0]
    del junk
    world.CLOCK.jumps = None
    return out


# one process per hash seed and worker; it forks for every experiment
_servers = {}


def server(hashseed):
    key = os.getpid(), hashseed
    if key not in _servers:
        _servers[key] = subprocess.Popen(
            [sys.executable, '-W', 'ignore', os.path.join(boot.SIM,
                                                          'child.py'), 'c13'],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, universal_newlines=True,
            env=boot.child_env(hashseed))
    return _servers[key]


def ask(hashseed, plan, d):
    p = server(hashseed)
    p.stdin.write(base64.b64encode(pickle.dumps((plan, d))).decode() + '\n')
    p.stdin.flush()
    while True:
        line = p.stdout.readline()
        need(line, 'repetition-fails', 'the process died')
        if line.startswith('RESULT '):
            return pickle.loads(base64.b64decode(line[7:]))


def main_child():
    out = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    while True:
        line = sys.stdin.readline()
        if not line:
            return
        plan, d = pickle.loads(base64.b64decode(line))

        def work():
            world.reset()
            return disturbed(plan, d)
        r = in_child(work)
        out.write('RESULT ' + base64.b64encode(pickle.dumps(r)).decode() +
                  '\n')
        out.flush()


def compare(a, b, env):
    for i, (x, y) in enumerate(zip(a, b)):
        need(x == y, 'not-repeatable', lambda: 'repeated in environment %s, '
             'item %d (%s) differs: %s / %s' % (env, i, x[0], str(x[1])[:300],
                                                str(y[1])[:300]))
    need(len(a) == len(b), 'not-repeatable', 'records of different length')


def run(plan, ctx):
    spec = plan['net']
    a, views = experiment(plan, ctx.scratch())
    ctx.nontrivial = True
    for k, v in a:
        ctx.event(k, v)
    for env in plan['envs']:
        if env == 'same':
            b = disturbed(plan, ctx.scratch())
            ctx.fault('repeated in the same process')
        elif env == 'fork':
            d = ctx.scratch()
            st, b = in_child(lambda: disturbed(plan, d))
            need(st == 'ok', 'repetition-fails', lambda: '%s %s' % (st, b))
            ctx.fault('repeated in a forked process')
        else:
            st, b = ask(plan['hash'], plan, ctx.scratch())
            need(st == 'ok', 'repetition-fails', lambda: '%s %s' % (st, b))
            ctx.fault('repeated with other hash seed')
        if plan['poison']:
            ctx.fault('memory content ' + plan['poison'])
        compare(a, b, env)
    # another seed, other choices
    c, _ = experiment(plan, ctx.scratch(), offset=1 + plan['shift'])
    first = {k: v for k, v in reversed(a)}
    second = {k: v for k, v in reversed(c)}
    kinds = {k for p, k in plan['inits']}
    if kinds <= {'gauss', 'uniform', 'fanin', 'faninout'}:
        need(first['initial'] != second['initial'], 'seed-ignored',
             'another seed gives the same initial parameters')
        big = {}
        for k, v in views.items():
            if v.size >= 2 and len(np.unique(v)) > 1 and \
                    not k.endswith(('.timing', '.mu', '.sigma')):
                h = (v.shape, v.tobytes())
                need(h not in big, 'repeated-draws',
                     lambda: 'parameters %s and %s are initialised with the '
                     'same random values' % (k, big[h]))
                big[h] = k
    if plan['aug'][-1:] == ['noise'] and not plan['own']:
        need(first['batch default'] != second['batch default'],
             'seed-ignored', 'another seed gives the same noise')
    ctx.state(sorted(set(zoo.names_in(spec))), plan['inits'], plan['aug'],
              plan['envs'])
