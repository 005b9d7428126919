"""C12: networks in one process do not influence each other."""
import os
import random

import brainstorm as bs
import numpy as np
import world
import zoo
from brainstorm import value_modifiers as vm
from brainstorm.handlers import NumpyHandler, default_handler
from brainstorm.tools import evaluate, extract
from checks.common import (REAL_ALL, gen_iter, gen_picked, gen_stepper,
                           install_picked, make_iter, make_stepper, need,
                           snapshot, tol_for, trainer)
from core import BadPlan
from sched import Scheduler

ID = 'C12'
QUICK = 1000
LEVEL = 'exploration'
RULE = ('2..4 workers, each with a network, trainer and iterators, execute '
        'seeded scripts (building, initialising, training with monitors, '
        'evaluation, extraction, passes with context, saving and loading, '
        'handler switch) as threads of a seeded cooperative scheduler that '
        'switches at API calls, at single device operations or at single '
        'source lines; they share layer building blocks or architecture, '
        'data arrays, iterators, initializers, modifiers and the handler '
        'in seeded combinations. Each worker has to return what it '
        'returns alone. Non-trivial: at least 10 switches between workers.')
MEASURE = 'distinct schedules (sequence of workers at the switches)'
REAL = REAL_ALL + ['h5py/libhdf5', 'Python threads (one runs at a time)']
STUB = ['thread scheduling', 'content of freshly allocated memory']
ASSUMPTIONS = ['a handler or iterator whose random numbers are consumed is '
               'not shared', 'initializers are shared only between workers '
               'interleaved at API calls or device operations',
               'comparisons with relative tolerance 1e-9 (float64) or 3e-4 '
               '(float32)']

SCRIPT = ['train', 'train', 'eval', 'eval', 'extract', 'ctx', 'saveload',
          'switch', 'pass', 'init', 'mods']


def gen(rng, tier):
    spec = zoo.gen_net(rng, maxdepth=3)
    ws = []
    for i in range(rng.choice([2, 2, 3, 4])):
        ws.append({'net': spec if rng.random() < 0.6 else
                   zoo.gen_net(rng, maxdepth=3,
                               dtype=rng.choice(['float64', 'float64',
                                                 'float32'])),
                   'seed': rng.randint(0, 10 ** 6),
                   'it': gen_iter(rng, maxn=5, maxT=3),
                   'mon': gen_iter(rng, maxn=5, maxT=4, shuffle=0),
                   'stepper': gen_stepper(rng),
                   'init': rng.choice(zoo.INITS),
                   'wmods': rng.choice([gen_picked(rng), [
                       [rng.randint(0, 3), [['norm', 0.2]]],
                       [rng.randint(0, 30), [['norm', 0.1]]]]]),
                   'gmods': gen_picked(rng, True),
                   'script': [rng.choice(SCRIPT)
                              for _ in range(rng.randint(1, 4))]})
    # the first one may use the handler that networks have by default
    default = rng.choice([0, 0, 1])
    if default and rng.random() < 0.5:
        ws[0]['net'] = dict(ws[0]['net'], layers=ws[0]['net']['layers'] +
                            [['DO', 0.5]])
    return {'workers': ws, 'default': default, 'sseed': rng.randint(0, 10 ** 6),
            'grain': rng.choice(['api', 'op', 'op', 'op', 'line']),
            'p': rng.choice([0.02, 0.1, 0.3, 0.7]),
            'share': {k: rng.choice([0, 1]) for k in
                      ('graph', 'arch', 'data', 'iter', 'init', 'mods',
                       'handler')},
            'poison': rng.choice([None, 'nan', 'garbage'])}


class Shared(object):
    """Objects that several workers may use."""

    def __init__(self, plan):
        self.plan = plan
        self.cache = {}

    def get(self, what, key, make):
        if not self.plan['share'][what]:
            return make()
        k = what, repr(key)
        if k not in self.cache:
            self.cache[k] = make()
        return self.cache[k]


def iterator(sh, spec, it):
    if it['n'] < 1 or it['T'] < 1:
        raise BadPlan('empty')
    key = (spec['in'], spec['out'], spec['loss'], spec['mask'], it['n'],
           it['T'], it['dseed'])
    data = sh.get('data', key, lambda: zoo.make_data(spec, it['T'], it['n'],
                                                     it['dseed']))

    def make():
        if not it['bs']:
            return bs.data_iterators.Undivided(**data)
        i = bs.data_iterators.Minibatches(it['bs'],
                                          shuffle=bool(it['shuffle']), **data)
        i.rnd.set_seed(it['seed'])
        return i
    if it['bs'] and it['shuffle']:
        return make()
    return sh.get('iter', (key, it['bs']), make)


def build(w, sh, plan, first=False):
    spec = w['net']
    key = {k: v for k, v in spec.items() if k != 'dtype'}
    inp, inits = sh.get('graph', key, lambda: zoo.graph(spec))
    arch = sh.get('arch', key, lambda: bs.Network.from_layer(
        inp).architecture)
    if plan['share']['graph']:
        net = bs.Network.from_layer(inp)
    else:
        net = bs.Network.from_architecture(arch)
    net.output_name = zoo.output_path(spec)

    def mk():
        return NumpyHandler(np.dtype(spec['dtype']).type, seed=w['seed'])
    if first and plan['default']:
        h = default_handler
        h.rnd.set_seed(w['seed'])
    elif zoo.is_random(spec):
        h = mk()
    else:
        h = sh.get('handler', spec['dtype'], mk)
    if net.handler is not h:
        net.set_handler(h)
    kind = w['init']
    if 'CONV' in zoo.names_in(spec):
        kind = 'gauss'
    grain = plan['grain']

    def mkinit():
        d = dict(inits)
        d.update(zoo.make_init(kind))
        return d
    d = mkinit() if grain == 'line' else sh.get('init', (key, kind), mkinit)
    return net, d


def script(w, i, sh, plan, d, step):
    spec = w['net']
    out = []
    net, inits = build(w, sh, plan, i == 0)
    step()
    net.initialize(inits, seed=w['seed'])
    step()

    def mods():
        if plan['share']['mods']:
            m = sh.get('mods', 'c', lambda: vm.ClipValues(-0.8, 0.9))
            f = sh.get('mods', 'f', lambda: vm.FreezeValues())
            g = sh.get('mods', 'g', lambda: vm.L2Decay(0.1))
            lst = sh.get('mods', 'l', lambda: [m])
            net.set_weight_modifiers({'default': lst, 'proj':
                                      {'bias': f, 'default': [m]}})
            net.set_gradient_modifiers({'default': g})
        else:
            install_picked(net, w['wmods'], w['gmods'])
    mods()
    step()
    for n, k in enumerate(w['script']):
        out.append(('before ' + k, net.get('parameters')))
        if k == 'train':
            t = trainer(make_stepper(w['stepper']),
                        [bs.hooks.MonitorLoss('mon', 'mon'),
                         bs.hooks.StopAfterEpoch(2)])
            t.train(net, iterator(sh, spec, w['it']),
                    mon=iterator(sh, spec, w['mon']))
            out.append(('losses', np.array(
                t.logs['rolling_training']['total_loss'])))
            out.append(('monitored', np.array(t.logs['mon']['total_loss'])))
        elif k == 'eval':
            r = evaluate(net, iterator(sh, spec, w['mon']))
            out.append(('evaluation', np.array([r[x] for x in sorted(r)])))
        elif k == 'extract':
            it = w['mon']
            if spec['mask']:
                it = dict(it, bs=0)
            r = extract(net, iterator(sh, spec, it), [zoo.output_path(spec)])
            out.append(('extracted', list(r.values())[0]))
        elif k == 'ctx':
            it = w['mon']
            data = zoo.make_data(spec, it['T'], it['n'], it['dseed'])
            net.provide_external_data(data)
            step()
            net.forward_pass()
            step()
            c = net.get_context()
            step()
            net.provide_external_data(data)
            step()
            net.forward_pass(context=c)
            step()
            out.append(('outputs', net.get(zoo.output_path(spec))))
        elif k == 'pass':
            it = w['mon']
            net.provide_external_data(zoo.make_data(
                spec, it['T'], it['n'], it['dseed']))
            step()
            net.forward_pass(training_pass=True)
            step()
            net.backward_pass()
            step()
            s = snapshot(net, True)
            out.append(('pass', np.concatenate(
                [np.ravel(s[x]) for x in sorted(s)])))
        elif k == 'saveload':
            f = os.path.join(d, 'w%d-%d.hdf5' % (i, n))
            net.save_as_hdf5(f)
            step()
            net = bs.Network.from_hdf5(f)
            net.handler.rnd.set_seed(w['seed'])
        elif k == 'switch':
            net.set_handler(NumpyHandler(np.dtype(spec['dtype']).type,
                                         seed=w['seed'] + 1))
        elif k == 'init':
            net.initialize(inits, seed=w['seed'] + 1)
        elif k == 'mods':
            mods()
            step()
            net.apply_weight_modifiers()
        else:
            raise BadPlan(k)
        step()
    out.append(('final', net.get('parameters')))
    return out, tol_for(net)


def finite(x):
    return np.all(np.isfinite(x)) and (x.size == 0 or np.abs(x).max() < 1e4)


def run(plan, ctx):
    ws = plan['workers']
    # each one alone
    alone = []
    for i, w in enumerate(ws):
        d = ctx.scratch()
        world.seed_all(plan['sseed'])
        with world.device():
            none = dict(plan, share={k: 0 for k in plan['share']})
            none['share']['mods'] = plan['share']['mods']
            none['share']['graph'] = plan['share']['graph']
            alone.append(script(w, i, Shared(none), none, d, lambda: None))
    # together
    rng = random.Random(plan['sseed'])
    s = Scheduler(rng, pswitch=plan['p'] if plan['grain'] != 'api' else 1.,
                  line_prob=plan['p'] / 20. if plan['grain'] == 'line' else 0)
    sh = Shared(plan)
    d = ctx.scratch()
    step = s.yield_
    for i, w in enumerate(ws):
        s.add(lambda i=i, w=w: script(w, i, sh, plan, d, step))
    world.seed_all(plan['sseed'] + 1)
    hook = (lambda n, name: s.yield_()) if plan['grain'] != 'api' else None
    with world.device(poison=plan['poison'], pseed=plan['sseed'], hook=hook):
        results = s.run()
    ctx.event(plan['grain'], s.trace[:2000])
    ctx.fault('thread switch (%s)' % plan['grain'], len(s.trace))
    ctx.state(s.trace)
    ctx.nontrivial = len(s.trace) >= 10
    for k, v in plan['share'].items():
        if v:
            ctx.tally('shared ' + k)
    for i, r in enumerate(results):
        if r[0] == 'error':
            raise r[1]
    for i, ((a, tol), r) in enumerate(zip(alone, results)):
        b = r[1][0]
        need([x[0] for x in a] == [x[0] for x in b], 'steps',
             'worker %d did other steps' % i)
        for (name, x), (_, y) in zip(a, b):
            ctx.data(y)
            if not finite(x):
                break       # diverged
            need(zoo.close(y, x, tol), 'interference',
                 lambda: 'worker %d (%s), %s: interleaved with the others it '
                 'differs from running alone: %s'
                 % (i, zoo.names_in(ws[i]['net']), name, zoo.diff(y, x)))
