"""C11: failing memory or device operations are reported and recoverable."""
import os

import brainstorm as bs
import numpy as np
import world
import zoo
from brainstorm.handlers import NumpyHandler
from brainstorm.tools import evaluate, extract
from checks.c10 import gen_final, make_context, observed
from checks.common import (REAL_ALL, Probe, gen_iter, gen_picked, gen_stepper,
                           install_picked, make_iter, make_stepper, need,
                           tol_for, trainer)
from core import BadPlan

ID = 'C11'
QUICK = 3000
LEVEL = 'exploration'
RULE = ('A network goes through 1..5 operations (pass, evaluation, '
        'extraction, training with monitors, applying modifiers, handler '
        'switch, saving, context, initialisation); in most of them one device '
        'operation, or every one of a window, or every allocation of a '
        'window, fails at a seeded position anywhere inside. The error has to '
        'reach the caller; the parameters have to be those that an '
        'undisturbed twin goes through; afterwards the network '
        'is compared with a fresh network with those parameters in a pass, '
        'an evaluation and a training run with the same trainer. '
        'Non-trivial: an injected failure fired.')
MEASURE = 'distinct (operation, failing device operation, layer kinds)'
REAL = REAL_ALL + ['h5py/libhdf5']
STUB = ['failing device operations and allocations',
        'content of freshly allocated memory']
ASSUMPTIONS = ['a failing device operation leaves its output as it was']


def gen(rng, tier):
    ops = []
    final = gen_final(rng)
    near = rng.choice([0, 0.7])
    for _ in range(rng.randint(1, 5 if tier == 'quick' else 8)):
        k = rng.choice(['pass', 'pass', 'pass', 'eval', 'extract', 'train',
                        'train', 'train', 'mods', 'switch', 'save', 'ctx',
                        'init'])
        op = {'k': k, 'it': gen_iter(rng, maxT=5, shuffle=0),
              'final': gen_final(rng), 'dtype': rng.choice(['float64',
                                                            'float64',
                                                            'float32']),
              'mon': rng.choice([0, 1]), 'seed': rng.randint(0, 10 ** 6),
              'pos': rng.random(),
              'mode': rng.choice(['one', 'one', 'few', 'window', 'alloc',
                                  'onealloc', 'onealloc', 'none'])}
        if rng.random() < near:
            op['final'] = dict(op['final'], T=final['T'], B=final['B'])
            if rng.random() < 0.3:
                op['final']['dseed'] = final['dseed']
        ops.append(op)
        if rng.random() < 0.3:      # simply retried
            ops.append(dict(op, mode=rng.choice(['none', 'one',
                                                 'onealloc'])))
    return {'net': zoo.gen_net(rng, maxdepth=3,
                               dtype=rng.choice(['float64', 'float64',
                                                 'float32'])),
            'seed': rng.randint(0, 10 ** 6),
            'wmods': nofreeze(gen_picked(rng)),
            'gmods': gen_picked(rng, True), 'stepper': gen_stepper(rng),
            'feed': rng.choice(zoo.FEEDS), 'ops': ops, 'final': final, 'it': gen_iter(rng,
                                                                shuffle=0),
            'poison': rng.choice([None, 'nan', 'garbage'])}


def nofreeze(plan):
    """(FreezeValues without values remembers the first values it sees)"""
    if isinstance(plan, dict):
        return dict(plan, pool=[['clip', -0.4, 0.3] if m[0] == 'freeze' else m
                                for m in plan['pool']])
    return [[i, [m for m in mods if m[0] != 'freeze']] for i, mods in plan]


class Sim(object):
    """One network with its trainer."""

    def __init__(self, plan, ctx, params=None, dtype=None):
        self.plan, self.spec = plan, plan['net']
        self.ctx = ctx
        self.dir = None
        self.feed = zoo.Feed(plan['feed'])
        self.net = zoo.build(self.spec, seed=plan['seed'])
        if dtype:
            self.net.set_handler(NumpyHandler(np.dtype(dtype).type, seed=3))
        install_picked(self.net, plan['wmods'], plan['gmods'])
        if params is not None:
            zoo.set_params(self.net, params)
        self.stop_at = None
        self.left = None
        self.trainer = trainer(make_stepper(plan['stepper']),
                               [Probe(self._stop, 'stop', 'update', 1),
                                bs.hooks.MonitorLoss('mon', 'mon', 'update',
                                                     2)])

    def _stop(self, epoch, update, net, stepper, logs):
        if self.left == 0:
            raise StopIteration()
        self.left -= 1

    def train(self, it, updates, mon):
        self.left = updates
        self.trainer.train(self.net, make_iter(self.spec, it),
                           mon=make_iter(self.spec, mon))

    def do(self, op):
        k, net, spec = op['k'], self.net, self.spec
        f = op['final']
        if f['T'] < 1 or f['B'] < 1:
            raise BadPlan('size')
        net.handler.rnd.set_seed(op['seed'])
        if k == 'pass':
            net.provide_external_data(self.feed(zoo.make_data(
                spec, f['T'], f['B'], f['dseed']), (f['dseed'], 'normal')))
            net.forward_pass(training_pass=bool(f['train']))
            if f['bwd']:
                net.backward_pass()
        elif k == 'eval':
            evaluate(net, make_iter(spec, op['it']))
        elif k == 'extract':
            it = dict(op['it'], bs=0) if spec['mask'] else op['it']
            extract(net, make_iter(spec, it), [zoo.output_path(spec)])
        elif k == 'train':
            self.train(op['it'], 3, op['it'])
        elif k == 'mods':
            net.apply_weight_modifiers()
            net.apply_gradient_modifiers()
        elif k == 'switch':
            net.set_handler(NumpyHandler(np.dtype(op['dtype']).type, seed=3))
        elif k == 'save':
            net.save_as_hdf5(os.path.join(self.dir, 'net.hdf5'))
        elif k == 'ctx':
            net.provide_external_data(self.feed(zoo.make_data(
                spec, f['T'], f['B'], f['dseed']), (f['dseed'], 'normal')))
            net.forward_pass()
            c = net.get_context()
            net.forward_pass(context=c)
        elif k == 'init':
            net.initialize(default=bs.initializers.Gaussian(0.4),
                           seed=op['seed'])
        else:
            raise BadPlan(k)


def twin(plan, ctx, sim, op):
    """Run the operation undisturbed on a copy; returns the number of device
    operations, all parameter values it goes through and the numbers of the
    device operations that allocate."""
    p = sim.net.get('parameters')
    t = Sim(plan, ctx, p, dtype=p.dtype)
    t.dir = ctx.scratch()
    seen = [p]

    allocs = []

    def hook(n, name):
        if name in world.ALLOC:
            allocs.append(n)
        now = np.array(t.net.buffer.parameters)
        if not zoo.same(now, seen[-1]):
            seen.append(now)
    with world.device(hook=hook):
        t.do(op)
        n = world.DEV.n
    seen.append(t.net.get('parameters'))
    return n, seen, allocs


def run(plan, ctx):
    spec = plan['net']
    poison = plan['poison']
    with world.device(poison=poison, pseed=plan['seed']):
        sim = Sim(plan, ctx)
        sim.dir = ctx.scratch()
    kinds = []
    for op in plan['ops']:
        before = sim.net.get('parameters')
        handler = sim.net.handler
        if not np.all(np.isfinite(before)) or np.abs(before).max() > 1e6:
            return      # diverged
        n, states, allocs = twin(plan, ctx, sim, op)
        at = min(int(op['pos'] * n), max(n - 1, 0))
        mode = op['mode']
        if mode == 'onealloc':
            mode = 'one'
            if allocs:
                at = allocs[int(op['pos'] * len(allocs)) % len(allocs)]
        fired = []
        err = None
        with world.device(poison=poison, pseed=plan['seed'] + 1) as dev:
            if mode == 'one':
                dev.faults = {at: True}
            elif mode == 'few':
                dev.faults = {at: True, at + 1: True, at + 3: True}
            elif mode in ('window', 'alloc'):
                dev.fail_from, dev.fail_until = at, at + 50
                if mode == 'alloc':
                    dev.only = 'alloc'
            try:
                sim.do(op)
            except world.INJECTED as e:
                err = e
            fired = list(dev.fired)
        ctx.event(op['k'], fired, err is not None)
        if fired:
            ctx.nontrivial = True
            ctx.fault('allocation' if fired[0][1] in world.ALLOC else
                      'device operation', len(fired))
            ctx.state(op['k'], fired[0][1], sorted(set(zoo.names_in(spec))))
            kinds.append((op['k'], fired[0][1]))
        need(bool(fired) == (err is not None), 'swallowed',
             lambda: 'a failing %s during %s did not surface'
             % (fired[0][1], op['k']))
        after = sim.net.get('parameters')
        if op['k'] == 'switch' and err is not None:
            need(sim.net.handler is handler, 'half-switched',
                 'the handler was switched although the switch failed')
            need(zoo.same(before, after), 'parameters-changed',
                 'a failed switch changed the parameters')
        elif op['k'] == 'switch':
            need(zoo.close(before, after, 1e-5), 'parameters-changed',
                 'a switch changed the parameters')
        else:
            # compare with the undisturbed twin
            ok = states if err is not None else states[-1:]
            need(any(zoo.close(after, w, tol_for(sim.net)) for w in ok),
                 'parameters-changed',
                 lambda: 'after %s failed at device operations %s the '
                 'parameters are not those of an undisturbed run at any '
                 'point: %s' % (op['k'], fired, zoo.diff(after, ok[-1])))
        if op['k'] == 'save' and err is None:
            got = bs.Network.from_hdf5(os.path.join(sim.dir, 'net.hdf5'))
            need(zoo.close(got.get('parameters'), after, 1e-6), 'bad-file',
                 'saved parameters differ')
    # faults are over: the network has to be as good as new
    P = sim.net.get('parameters')
    if not np.all(np.isfinite(P)) or np.abs(P).max() > 1e6:
        return
    fresh = Sim(plan, ctx, P, dtype=P.dtype)
    f = plan['final']
    if f['T'] < 1 or f['B'] < 1:
        raise BadPlan('size')
    tol = tol_for(sim.net)
    c = None
    if f['ctx']:
        c = make_context(dict(spec, dtype=str(P.dtype)), plan['seed'], P, f)
    with world.device(poison=poison, pseed=plan['seed'] + 2):
        a = observed(sim.net, spec, P, f, c, sim.feed)
        b = observed(fresh.net, spec, P, f, c)
        for k in sorted(b):
            ctx.data(a[k])
            need(zoo.close(a[k], b[k], tol), 'not-recovered',
                 lambda: '%s after the failures %s differs from a fresh '
                 'network: %s' % (k, kinds, zoo.diff(a[k], b[k])))
        for s in (sim, fresh):
            zoo.set_params(s.net, P)
        x = evaluate(sim.net, make_iter(spec, plan['it']))
        y = evaluate(fresh.net, make_iter(spec, plan['it']))
        for k in y:
            need(zoo.close(x[k], y[k], tol), 'not-recovered',
                 lambda: 'evaluation after %s: %s = %r, fresh network %r'
                 % (kinds, k, x[k], y[k]))
        for s in (sim, fresh):
            s.net.handler.rnd.set_seed(11)
            s.train(plan['it'], 3, plan['it'])
        p, q = sim.net.get('parameters'), fresh.net.get('parameters')
        if np.all(np.isfinite(q)) and np.abs(q).max() < 1e3:
            need(zoo.close(p, q, tol * 100), 'not-recovered',
                 lambda: 'training after the failures %s differs from a fresh '
                 'network: %s' % (kinds, zoo.diff(p, q)))
