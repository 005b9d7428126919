"""C18: the gradient is that of the loss reported by the same pass."""
import brainstorm as bs
import numpy as np
import world
import zoo
from brainstorm.handlers import NumpyHandler
from checks.c10 import gen_op, history
from checks.common import REAL_ALL, need
from core import BadPlan

ID = 'C18'
QUICK = 3400
LEVEL = 'exploration'
RULE = ('Seeded networks (all layers with parameters, stochastic and '
        'recurrent ones, shared outputs, several losses), data, masks and '
        'contexts. After a seeded history of other work, in memory with '
        'adversarial content, one training pass is made and its gradient is '
        'compared, along random directions in each single parameter array, '
        'in all together and in the inputs, with differences of the loss '
        'that a fresh network reports for shifted parameters with the same '
        'replayed random draws. Non-trivial: at least three directions '
        'could be compared.')
MEASURE = 'distinct (layer kinds, loss, mask, context, work before)'
REAL = REAL_ALL
STUB = ['content of freshly allocated memory', 'failing device operation']
ASSUMPTIONS = ['clock periods and the running averages of BatchNorm are no '
               'trained parameters', 'directions in which the loss is not '
               'smooth at the step sizes used (kinks) are left out',
               'probabilities closer to 0 or 1 than 1e-5 are left out: the '
               'reported cross entropy is clipped at 1e-6, its gradient is '
               'not (a numerical safeguard)',
               'differences of float64 networks, relative tolerance 1e-4 '
               '(2e-2 of the largest gradient for float32)']
NOGRAD = ('timing', 'mu', 'sigma')


def gen(rng, tier):
    spec = zoo.gen_net(rng, maxdepth=4, smooth=rng.random() < 0.6,
                       dtype=rng.choice(['float64'] * 6 + ['float32']))
    return {'net': spec, 'seed': rng.randint(0, 10 ** 6),
            'ops': [gen_op(rng) for _ in range(rng.choice([0, 1, 2, 4]))],
            'T': rng.randint(1, 5), 'B': rng.randint(1, 4),
            'dseed': rng.randint(0, 10 ** 6),
            'hseed': rng.randint(0, 10 ** 6),
            'ctx': rng.choice([0, 0, 1, 2]), 'vseed': rng.randint(0, 10 ** 6),
            'again': rng.choice([0, 1]), 'mask': rng.choice(['tail', 'gaps']),
            'inputs': rng.choice([0, 1]),
            'poison': rng.choice([None, 'nan', 'garbage'])}


class Pass(object):
    def __init__(self, plan, spec):
        self.spec = dict(spec, dtype='float64')
        self.net = zoo.build(self.spec, seed=plan['seed'])
        self.plan = plan

    def loss(self, P, data, c):
        net = self.net
        zoo.set_params(net, P)
        net.handler.rnd.set_seed(self.plan['hseed'])
        net.provide_external_data(data)
        net.forward_pass(training_pass=True, context=c)
        return net.get_loss_values()['total_loss']


def run(plan, ctx):
    spec = plan['net']
    T, B = plan['T'], plan['B']
    if T < 1 or B < 1:
        raise BadPlan('size')
    data = zoo.make_data(spec, T, B, plan['dseed'])
    if spec['mask'] and plan['mask'] == 'gaps':
        rs = np.random.RandomState(plan['dseed'])
        data['mask'] = (rs.random_sample((T, B, 1)) < 0.7).astype(float)
    num = Pass(plan, spec)
    P = num.net.get('parameters')
    if spec['dtype'] == 'float32':
        P = P.astype(np.float32).astype(np.float64)
        data = {k: v.astype(np.float32).astype(np.float64)
                for k, v in data.items()}
    c = c64 = None
    if plan['ctx']:
        num.loss(P, zoo.make_data(spec, 2, B, plan['dseed'] + 1), None)
        if plan['ctx'] == 2:
            # taken after the backward pass
            num.net.backward_pass()
        c64 = num.net.get_context()
        if spec['dtype'] == 'float32':
            c64 = [None if x is None else x.astype(np.float32)
                   .astype(np.float64) for x in c64]
        c = [None if x is None else x.astype(spec['dtype']) for x in c64]
    L0 = num.loss(P, data, c64)
    if not zoo.tame(num.net, 300):
        ctx.tally('diverging network')
        return
    if spec['loss'] in ('SCE', 'SIG', 'BCE'):
        y = num.net.get(zoo.output_path(spec))
        if y.min() < 1e-5 or y.max() > 1 - 1e-5:
            ctx.tally('saturated output')
            return
    with world.device(poison=plan['poison'], pseed=plan['seed']):
        net = zoo.build(spec, seed=plan['seed'])
        history(net, spec, plan, ctx, plan['ops'])
        zoo.set_params(net, P.astype(spec['dtype']))
        net.handler.rnd.set_seed(plan['hseed'])
        net.provide_external_data(data)
        net.forward_pass(training_pass=True, context=c)
        loss = net.get_loss_values()['total_loss']
        net.backward_pass()
        g = {k: np.array(v) for k, v in zoo.views(net, 'gradients').items()}
        gall = net.get('gradients')
        din = net.handler.get_numpy_copy(net.buffer.Input.output_deltas
                                         .default)
        if plan['again']:
            net.backward_pass()
            need(zoo.close(net.get('gradients'), gall, 1e-12 if
                           spec['dtype'] == 'float64' else 1e-5),
                 'second-backward',
                 lambda: 'running the backward pass again gives another '
                 'gradient: %s' % zoo.diff(net.get('gradients'), gall))
    f32 = spec['dtype'] == 'float32'
    need(zoo.close(loss, L0, 1e-9 if not f32 else 1e-3), 'loss',
         lambda: 'the loss is %r, that of a fresh network %r' % (loss, L0))
    ctx.data(gall)
    # directions in the parameters
    rs = np.random.RandomState(plan['vseed'])
    names = sorted(k for k in g if k.split('.')[-1] not in NOGRAD)
    zoo.set_params(num.net, P)
    views = {k: num.net.buffer[k.split('.')[0]].parameters[k.split('.')[1]]
             for k in names}
    compared = 0

    def shifted(dirs, eps):
        zoo.set_params(num.net, P)
        for k, d in dirs.items():
            l, v = k.split('.')
            buf = num.net.buffer[l].parameters[v]
            num.net.handler.set_from_numpy(
                buf, num.net.handler.get_numpy_copy(buf) + eps * d)
        return num.net.get('parameters')

    scale = max([1e-3] + [float(np.max(np.abs(v))) for v in g.values()
                          if v.size])
    todo = [{k: None} for k in names] + [dict.fromkeys(names)] * 2
    for dirs in todo:
        for k in dirs:
            d = rs.standard_normal(views[k].shape)
            if rs.random_sample() < 0.3:
                # a single number
                e = np.zeros(d.size)
                e[rs.randint(d.size)] = 1.
                d = e.reshape(d.shape)
            dirs[k] = d
        ana = sum(float(np.sum(g[k] * dirs[k])) for k in dirs)
        compared += compare(plan, ctx, ana, lambda e: num.loss(
            shifted(dirs, e), data, c64), sorted(dirs), f32, scale)
    # a direction in the inputs
    if plan['inputs']:
        d = rs.standard_normal(data['default'].shape)
        ana = float(np.sum(din * d))
        compared += compare(plan, ctx, ana, lambda e: num.loss(
            P, dict(data, default=data['default'] + e * d), c64), ['inputs'],
            f32, max(scale, float(np.max(np.abs(din)))))
    ctx.tally('directions', compared)
    if plan['poison']:
        ctx.fault('memory content ' + plan['poison'])
    ctx.nontrivial = compared >= 3
    ctx.state(sorted(set(zoo.names_in(spec))), spec['loss'], spec['mask'],
              plan['ctx'], [o[0] for o in plan['ops']])


def compare(plan, ctx, ana, f, what, f32, scale):
    ests = []
    for eps in (1e-4, 1e-5, 3e-6):
        up, down = f(eps), f(-eps)
        ests.append((up - down) / (2 * eps))
    a, b, c = ests
    tol = 1e-4 * (abs(c) + scale) if not f32 else 2e-2 * (abs(c) + scale)
    if not (abs(a - c) < tol / 2 and abs(b - c) < tol / 2):
        # another try closer by
        eps = 1e-6
        up, down = f(eps), f(-eps)
        d = (up - down) / (2 * eps)
        if not (abs(b - c) < tol / 4 and abs(c - d) < tol / 4):
            ctx.tally('not smooth')
            return 0
        c = d
    # one-sided differences have to agree, otherwise there is a kink
    eps = 3e-6
    up, mid, down = f(eps), f(0.), f(-eps)
    if abs((up - mid) - (mid - down)) / eps > tol:
        ctx.tally('kink')
        return 0
    need(abs(ana - c) <= tol, 'wrong-gradient', lambda: 'gradient along a '
         'direction in %s is %r, but the loss changes with %r (%r)'
         % (what, ana, c, ests))
    return 1
