"""C10: results do not depend on what the network did before."""
import brainstorm as bs
import numpy as np
import world
import zoo
from brainstorm.handlers import NumpyHandler
from brainstorm.tools import evaluate
from checks.common import (REAL_ALL, gen_iter, gen_picked, gen_stepper,
                           install_picked, make_iter, make_stepper, need,
                           sizes, snapshot, tol_for, trainer)
from core import BadPlan

ID = 'C10'
QUICK = 9000
LEVEL = 'exploration'
RULE = ('A network goes through a seeded history of 1..8 operations (passes '
        'of other sizes, with and without backward pass and context, with '
        'huge, infinite or NaN data in new or reused arrays, data provided but not used, passes '
        'aborted by a failing device operation, evaluations, training runs, '
        'saved contexts, repeated initialisation) in memory whose fresh '
        'content is chosen by the simulator; then parameters, random state, '
        'data and context are fixed and one pass is compared with that of a '
        'fresh network (outputs of all layers, losses, context, gradients, '
        'input deltas). Non-trivial: the history contains a pass.')
MEASURE = 'distinct (history kinds and size changes, layer kinds, observed pass)'
REAL = REAL_ALL
STUB = ['content of freshly allocated memory', 'failing device operation']
ASSUMPTIONS = ['comparisons with relative tolerance 1e-9 (float64) or 3e-4 '
               '(float32): the alignment of buffers may change rounding']

DATA = ['normal', 'normal', 'normal', 'huge', 'inf', 'nan', 'zero']


def gen_op(rng):
    k = rng.choice(['pass', 'pass', 'pass', 'pass', 'prov', 'eval', 'train',
                    'bwd', 'ctx', 'abort', 'abort', 'init', 'clear'])
    if k in ('pass', 'abort'):
        return [k, rng.randint(1, 6), rng.randint(1, 5),
                rng.randint(0, 10 ** 6), rng.choice([0, 1, 1]),
                rng.choice([0, 1, 1]), rng.choice([0, 0, 1]),
                rng.choice(DATA), rng.randint(0, 120)]
    if k == 'prov':
        return [k, rng.randint(1, 6), rng.randint(1, 5),
                rng.randint(0, 10 ** 6), rng.choice(DATA)]
    if k == 'eval':
        return [k, gen_iter(rng)]
    if k == 'train':
        return [k, gen_iter(rng), gen_stepper(rng)]
    if k == 'init':
        return [k, rng.randint(0, 10 ** 6)]
    return [k]


def gen_final(rng):
    return {'T': rng.randint(1, 5), 'B': rng.randint(1, 4),
            'dseed': rng.randint(0, 10 ** 6), 'hseed': rng.randint(0, 9999),
            'train': rng.choice([0, 1, 1]), 'bwd': rng.choice([0, 1, 1]),
            'ctx': rng.choice([0, 0, 1, 2])}


def gen(rng, tier):
    plan = _gen(rng, tier)
    f = plan['final']
    for op in plan['ops'] if rng.random() < 0.6 else []:
        if op[0] in ('pass', 'abort', 'prov'):
            if rng.random() < 0.6:
                op[1], op[2] = f['T'], f['B']
            if rng.random() < 0.3:
                op[3] = f['dseed']
    return plan


def _gen(rng, tier):
    return {'feed': rng.choice(zoo.FEEDS), 'net': zoo.gen_net(rng, maxdepth=4,
                               dtype=rng.choice(['float64'] * 5 +
                                                ['float32'])),
            'seed': rng.randint(0, 10 ** 6), 'gmods': gen_picked(rng, True),
            'ops': [gen_op(rng) for _ in range(rng.randint(
                1, 8 if tier == 'quick' else 14))],
            'final': dict(gen_final(rng), data=rng.choice(DATA + ['normal'] *
                                                          6)),
            'poison': rng.choice([None, 'nan', 'inf', 'garbage', 'garbage'])}


def bad(data, kind):
    x = data['default']
    if kind == 'huge':
        data['default'] = x * 1e30
    elif kind == 'inf':
        x.flat[::2] = np.inf
    elif kind == 'nan':
        x.flat[::2] = np.nan
    elif kind == 'zero':
        x[...] = 0.
    elif kind != 'normal':
        raise BadPlan(kind)
    return data


def history(net, spec, plan, ctx, ops, feed=lambda data, seed: data):
    """Let the network do the given operations."""
    last = None
    valid = False       # a backward pass needs a forward pass
    for op in ops:
        k = op[0]
        ctx.event(op)
        ctx.tally('op ' + k)
        if k in ('pass', 'abort', 'prov'):
            T, B = op[1], op[2]
            if T < 1 or B < 1:
                raise BadPlan('size')
            kind = op[7] if k != 'prov' else op[4]
            data = feed(bad(zoo.make_data(spec, T, B, op[3]), kind),
                        (op[3], kind))
        if k == 'prov':
            net.provide_external_data(data)
            valid = False
        elif k in ('pass', 'abort'):
            c = None
            if op[6] and last is not None and last[1] == B:
                c = last[0]
            if k == 'abort':
                world.DEV.faults = {world.DEV.n + op[8]: True}
            valid = False
            try:
                net.provide_external_data(data)
                net.forward_pass(training_pass=bool(op[4]), context=c)
                if op[5]:
                    net.backward_pass()
                last = (net.get_context(), B)
                valid = True
            except world.INJECTED:
                ctx.fault('aborted pass')
            finally:
                world.DEV.faults = {}
            ctx.nontrivial = True
        elif k == 'eval':
            evaluate(net, make_iter(spec, op[1]))
        elif k == 'train':
            t = trainer(make_stepper(op[2]), [bs.hooks.StopAfterEpoch(1)])
            t.train(net, make_iter(spec, op[1]))
        elif k == 'bwd':
            if valid:
                net.backward_pass()
        elif k == 'ctx':
            if sizes(net)[0] > 0:
                last = (net.get_context(), sizes(net)[1])
        elif k == 'clear':
            last = None
        elif k == 'init':
            net.initialize(default=bs.initializers.Gaussian(0.7),
                           seed=op[1])
        else:
            raise BadPlan(k)


def observed(net, spec, P, f, context, feed=lambda data, seed: data):
    zoo.set_params(net, P)
    net.handler.rnd.set_seed(f['hseed'])
    kind = f.get('data', 'normal')
    net.provide_external_data(feed(bad(zoo.make_data(
        spec, f['T'], f['B'], f['dseed']), kind), (f['dseed'], kind)))
    net.forward_pass(training_pass=bool(f['train']), context=context)
    if f['bwd'] and f['train']:
        net.backward_pass()
    return snapshot(net, bool(f['bwd'] and f['train']))


def make_context(spec, seed, P, f, backward=False):
    """A context as a run over earlier data would leave it."""
    net = zoo.build(spec, seed=seed)
    zoo.set_params(net, P)
    net.handler.rnd.set_seed(f['hseed'] + 7)
    net.provide_external_data(zoo.make_data(spec, 2, f['B'], f['dseed'] + 1))
    net.forward_pass(training_pass=f['ctx'] == 2)
    if backward:
        net.backward_pass()
    return net.get_context()


def run(plan, ctx):
    spec, f = plan['net'], plan['final']
    if f['T'] < 1 or f['B'] < 1:
        raise BadPlan('size')
    ref = zoo.build(spec, seed=plan['seed'])
    install_picked(ref, [], plan['gmods'])
    P = ref.get('parameters')
    c = make_context(spec, plan['seed'], P, f) if f['ctx'] else None
    want = observed(ref, spec, P, f, c)
    if f['ctx'] == 2:
        # taken after the backward pass (as in truncated backpropagation)
        c = make_context(spec, plan['seed'], P, f, True)
    with world.device(poison=plan['poison'], pseed=plan['seed']):
        if plan['poison']:
            ctx.fault('memory content ' + plan['poison'])
        net = zoo.build(spec, seed=plan['seed'])
        install_picked(net, [], plan['gmods'])
        feed = zoo.Feed(plan['feed'])
        history(net, spec, plan, ctx, plan['ops'], feed)
        got = observed(net, spec, P, f, c, feed)
        again = observed(net, spec, P, f, c, feed)
    tol = tol_for(net)
    for sig, g in (('history-matters', got), ('repetition-matters', again)):
        need(sorted(g) == sorted(want), 'items', 'items differ')
        for k in sorted(want):
            need(zoo.close(g[k], want[k], tol), sig,
                 lambda: '%s after the history %s differs from that of a '
                 'fresh network: %s' % (k, [o[0] for o in plan['ops']],
                                        zoo.diff(g[k], want[k])))
            ctx.data(g[k])
    ctx.state([o[0] for o in plan['ops']],
              [np.sign(o[1] * o[2] - f['T'] * f['B']) for o in plan['ops']
               if len(o) > 3], sorted(set(zoo.names_in(spec))),
              f['train'], f['bwd'], f['ctx'])
