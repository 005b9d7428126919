"""C19: switching the compute handler keeps the network."""
import os

import brainstorm as bs
import numpy as np
import world
import zoo
from brainstorm.handlers import NumpyHandler
from brainstorm.handlers.debug_handler import DebugHandler
from brainstorm.tools import evaluate, extract
from checks.c09 import flat
from checks.c10 import bad, gen_final, make_context
from checks.common import (REAL_ALL, gen_iter, gen_picked, gen_stepper,
                           install_picked, make_iter, make_stepper, need,
                           snapshot, trainer)
from core import BadPlan

ID = 'C19'
QUICK = 3600
LEVEL = 'exploration'
RULE = ('A network goes through a seeded history of 1..8 handler switches '
        '(new instances, precisions and back, the checking handler, the same '
        'object again, a switch that fails) mixed with passes, training with '
        'modifiers, saving and loading. After each switch the parameters are '
        'compared (exactly when the precision allows it); after seeded '
        'switches a pass and a training run are compared with a network '
        'that used this handler from the start, and the saved file with the '
        'network. Non-trivial: a pass or training ran before a switch.')
MEASURE = 'distinct (sequence of handlers and operations, layer kinds)'
REAL = REAL_ALL + ['h5py/libhdf5']
STUB = ['content of freshly allocated memory', 'failing device operation']
ASSUMPTIONS = ['relative tolerance 1e-9 (float64) or 1e-3 (float32) for '
               'what is computed afterwards']

KINDS = ['f64', 'f64', 'f32', 'f32', 'd64', 'd32', 'same']


def gen(rng, tier):
    ops = []
    for _ in range(rng.randint(1, 8)):
        k = rng.choice(['switch', 'switch', 'switch', 'pass', 'train', 'save',
                        'fail', 'init', 'eval'])
        if k in ('switch', 'fail'):
            ops.append([k, rng.choice(KINDS), rng.randint(0, 999),
                        rng.randint(0, 12)])
        elif k == 'pass':
            ops.append([k, rng.randint(1, 5), rng.randint(1, 4),
                        rng.randint(0, 999), rng.choice([0, 1, 1])])
        elif k == 'train':
            ops.append([k, gen_iter(rng), gen_stepper(rng)])
        elif k == 'init':
            ops.append([k, rng.randint(0, 999)])
        elif k == 'eval':
            ops.append([k, gen_iter(rng, shuffle=0), rng.randint(0, 9)])
        else:
            ops.append([k])
    return {'net': zoo.gen_net(rng, maxdepth=4,
                               dtype=rng.choice(['float64', 'float64',
                                                 'float32'])),
            'seed': rng.randint(0, 10 ** 6), 'wmods': gen_picked(rng),
            'gmods': gen_picked(rng, True), 'ops': ops,
            'feed': rng.choice(zoo.FEEDS), 'last': rng.choice(KINDS[:-1]),
            'final': gen_final(rng), 'it': gen_iter(rng),
            'stepper': gen_stepper(rng),
            'poison': rng.choice([None, 'garbage'])}


def handler(kind, seed):
    h = NumpyHandler({'6': np.float64, '3': np.float32}[kind[1]], seed=seed)
    return DebugHandler(h) if kind[0] == 'd' else h


def inner(h):
    return getattr(h, 'handler', h)


def dtype_of(net):
    return net.get('parameters').dtype


def each_mod(mods):
    for layer in sorted(mods):
        for view in sorted(mods[layer]):
            for m in mods[layer][view]:
                yield m


def like(plan, net):
    """A network that used this handler from the start."""
    spec = plan['net']
    h = net.handler
    new = NumpyHandler(inner(h).dtype, seed=1)
    if isinstance(h, DebugHandler):
        new = DebugHandler(new)
    ref = zoo.build(spec, handler=new, seed=plan['seed'])
    install_picked(ref, plan['wmods'], plan['gmods'])
    for a, b in zip(each_mod(net.weight_modifiers),
                    each_mod(ref.weight_modifiers)):
        # (what FreezeValues found at its first use)
        if getattr(a, 'weights', None) is not None:
            b.weights = np.array(a.weights)
    zoo.set_params(ref, net.get('parameters'))
    return ref


def compare(plan, ctx, net, where, feed):
    spec, f = plan['net'], plan['final']
    if not np.all(np.isfinite(net.get('parameters'))):
        return
    ref = like(plan, net)
    P = net.get('parameters')
    tol = 1e-9 if P.dtype == np.float64 else 1e-3
    try:
        _compare(plan, ctx, net, where, ref, P, tol, feed)
    except _Diverged:
        ctx.tally('diverging network')


class _Diverged(Exception):
    pass


class _guard(object):
    """The checking handler complains about diverging networks."""

    def __init__(self, on):
        self.on = on

    def __enter__(self):
        pass

    def __exit__(self, t, e, tb):
        if self.on and t is ValueError and 'NaN or Inf' in str(e):
            raise _Diverged()


def _compare(plan, ctx, net, where, ref, P, tol, feed):
    spec, f = plan['net'], plan['final']
    res = []
    for n in (ref, net):
        inner(n.handler).rnd.set_seed(f['hseed'])
        data = zoo.make_data(spec, f['T'], f['B'], f['dseed'])
        n.provide_external_data(data if n is ref else feed(data, f['dseed']))
        with _guard(n is ref):
            n.forward_pass(training_pass=bool(f['train']))
            if n is ref and not zoo.tame(n, 1e3):
                raise _Diverged()
            if f['train'] and f['bwd']:
                n.backward_pass()
        res.append(snapshot(n, bool(f['train'] and f['bwd'])))
    for k in sorted(res[0]):
        ctx.data(res[0][k])
        need(k in res[1] and zoo.close(res[1][k], res[0][k], tol),
             'computes-differently', lambda: '%s: %s differs from a network '
             'that used the handler from the start: %s' % (
                 where, k, zoo.diff(res[1].get(k, 0), res[0][k])))
    need(res[0]['parameters'].dtype == res[1]['parameters'].dtype,
         'precision', 'the precision is not that of the handler')
    path = []
    for n in (ref, net):
        inner(n.handler).rnd.set_seed(f['hseed'] + 1)
        zoo.set_params(n, P)
        t = trainer(make_stepper(plan['stepper']),
                    [bs.hooks.StopAfterEpoch(1)])
        with _guard(n is ref):
            t.train(n, make_iter(spec, plan['it']))
        path.append(n.get('parameters'))
        if not zoo.tame(n, 1e3) or np.max(np.abs(path[-1])) > 1e3:
            return
    need(zoo.close(path[1], path[0], tol * 10), 'trains-differently',
         lambda: '%s: after training the parameters differ from those of a '
         'network that used the handler from the start: %s'
         % (where, zoo.diff(path[1], path[0])))


def looks(plan, net, op, where):
    """Evaluation, extraction and monitors with the present handler."""
    spec = plan['net']
    P = net.get('parameters')
    if np.max(np.abs(P)) > 50:
        return
    res = []
    ref = like(plan, net)
    with_p = sorted({l for l, v in zoo.param_views(net)})
    for n in (ref, net):
        hooks = [bs.hooks.MonitorLayerParameters(with_p[op[2] % len(with_p)],
                                                 'p', verbose=False),
                 bs.hooks.MonitorLayerInOuts('proj', 'i', verbose=False),
                 bs.hooks.MonitorLayerGradients('proj', 'g', verbose=False),
                 bs.hooks.MonitorLayerDeltas('proj', 'd', verbose=False)]
        with _guard(n is ref):
            r = dict(evaluate(n, make_iter(spec, op[1])))
            r['out'] = extract(n, make_iter(spec, dict(op[1], bs=0) if
                                            spec['mask'] else op[1]), zoo.output_path(
                spec))[zoo.output_path(spec)]
            if n is ref and not zoo.tame(n, 1e3):
                return
            n.forward_pass(training_pass=False, context=n.get_context())
            n.backward_pass()
            r['after'] = n.get(zoo.output_path(spec))
            for h in hooks:
                h.start(n, None, False, {})
                for k, v in flat(h(0, 0, n, None, {})).items():
                    r[h.__name__ + '/' + k] = v
        res.append(r)
    tol = 1e-8 if P.dtype == np.float64 else 3e-3
    for k in sorted(res[0]):
        need(zoo.close(res[1][k], res[0][k], tol), 'looks-different',
             lambda: '%s: %s differs from a network that used the handler '
             'from the start: %s' % (where, k, zoo.diff(res[1][k],
                                                        res[0][k])))


def run(plan, ctx):
    spec, f = plan['net'], plan['final']
    if f['T'] < 1 or f['B'] < 1:
        raise BadPlan('size')
    d = ctx.scratch()
    feed = zoo.Feed(plan['feed'])
    with world.device(poison=plan['poison'], pseed=plan['seed']):
        net = zoo.build(spec, seed=plan['seed'])
        install_picked(net, plan['wmods'], plan['gmods'])
        used = False
        ops = plan['ops'] + [['switch', plan['last'], 5, 0]]
        for i, op in enumerate(ops):
            k = op[0]
            where = 'after %s (operation %d)' % (op[:2], i)
            ctx.event(op)
            ctx.tally('op ' + k + (' ' + op[1] if k == 'switch' else ''))
            if not np.all(np.isfinite(net.get('parameters'))) or \
                    np.max(np.abs(net.get('parameters'))) > 1e4:
                return          # a diverging training run
            if k in ('switch', 'fail'):
                h = net.handler if op[1] == 'same' else handler(op[1], op[2])
                before = zoo.views(net)
                old = net.handler
                if k == 'fail':
                    world.DEV.faults = {world.DEV.n + op[3]: True}
                    try:
                        net.set_handler(h)
                        failed = False
                    except world.INJECTED:
                        failed = True
                        ctx.fault('failed switch')
                    finally:
                        world.DEV.faults = {}
                    if failed:
                        now = zoo.views(net)
                        for v in before:
                            need(zoo.same(now[v], before[v]), 'lost',
                                 lambda: '%s: the failed switch changed the '
                                 'parameters %s' % (where, v))
                        continue
                else:
                    net.set_handler(h)
                need(net.handler is h, 'handler', 'not switched')
                now = zoo.views(net)
                dt = inner(h).dtype
                need(sorted(now) == sorted(before), 'views',
                     'the parameters have other names')
                for v in before:
                    need(now[v].dtype == dt, 'precision', lambda: '%s: %s is '
                         '%s' % (where, v, now[v].dtype))
                    need(zoo.same(now[v], before[v].astype(dt)), 'lost',
                         lambda: '%s: parameters %s are not kept: %s' % (
                             where, v, zoo.diff(now[v], before[v])))
                ctx.nontrivial = ctx.nontrivial or used
                if op[2] % 3 == 0 or i == len(ops) - 1:
                    compare(plan, ctx, net, where, feed)
            elif k == 'pass':
                if op[1] < 1 or op[2] < 1:
                    raise BadPlan('size')
                net.provide_external_data(feed(zoo.make_data(
                    spec, op[1], op[2], op[3]), op[3]))
                net.forward_pass(training_pass=bool(op[4]))
                if op[4]:
                    net.backward_pass()
                used = True
            elif k == 'train':
                t = trainer(make_stepper(op[2]), [bs.hooks.StopAfterEpoch(1)])
                try:
                    t.train(net, make_iter(spec, op[1]))
                except ValueError as e:
                    if 'NaN or Inf encountered' in str(e):
                        return  # the checking handler found a divergence
                    raise
                used = True
            elif k == 'init':
                net.initialize(default=bs.initializers.Gaussian(0.4),
                               seed=op[1])
            elif k == 'eval':
                try:
                    looks(plan, net, op, where)
                except _Diverged:
                    ctx.tally('diverging network')
                used = True
            elif k == 'save':
                p = os.path.join(d, 'n%d' % i)
                net.save_as_hdf5(p)
                other = bs.Network.from_hdf5(p)
                a, b = zoo.views(net), zoo.views(other)
                need(sorted(a) == sorted(b), 'saved-views', 'other names')
                for v in a:
                    need(zoo.same(a[v], b[v]), 'saved-differently',
                         lambda: '%s: the saved parameters %s differ: %s'
                         % (where, v, zoo.diff(b[v], a[v])))
                need(zoo.same(net.get('parameters'), other.get('parameters')),
                     'saved-differently', 'all parameters')
            else:
                raise BadPlan(k)
    if plan['poison']:
        ctx.fault('memory content ' + plan['poison'])
    ctx.state([o[:2] if o[0] in ('switch', 'fail') else o[0] for o in ops],
              sorted(set(zoo.names_in(spec))))
