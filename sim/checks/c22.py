"""C22: scheduled hyper-parameters have the documented value."""
import math

import brainstorm as bs
import numpy as np
import zoo
from brainstorm.hooks import ModifyStepperAttribute
from brainstorm.training import schedules as S
from checks.common import (REAL_ALL, Probe, gen_iter, make_iter, make_stepper,
                           need, trainer)
from core import BadPlan, Violation

ID = 'C22'
QUICK = 18000
LEVEL = 'exploration'
RULE = ('Training with 1..2 scheduled attributes (all shipped schedules, '
        'seeded parameters, timescales, intervals), other hooks, stops and '
        'continuations at seeded updates; the value in force is recorded by '
        'the stepper at every single update and compared with the documented '
        'formula for the number of completed updates/epochs, and the change '
        'of the parameters is compared with the update rule at that value. '
        'Non-trivial: the value changed at least once during training.')
MEASURE = 'distinct (schedule, timescale, interval, stop positions)'
REAL = REAL_ALL
STUB = []
ASSUMPTIONS = ['between two calls of the schedule the value stays the one of '
               'the last multiple of the interval (as documented)']


def gen_sched(rng):
    k = rng.choice(['linear', 'exp', 'multi', 'dec'])
    ts = rng.choice(['epoch', 'update'])
    iv = 1 if k == 'multi' else rng.choice([1, 1, 2, 3])
    a = rng.choice([0.5, 0.1, 1.0, 0.9])
    if k == 'linear':
        p = [a, rng.choice([0.0, 0.99, 0.1, a]), rng.randint(1, 6)]
    elif k == 'exp':
        p = [a, rng.choice([0.5, 0.9, 1.5, 1.0]),
             rng.choice([None, 0.05, 0.3]), rng.choice([None, 2.0, 1.0])]
    elif k == 'multi':
        steps = sorted(rng.sample(range(1, 9), rng.randint(0, 3)))
        p = [a, steps, [round(rng.uniform(0, 1), 2) for _ in steps]]
    else:
        p = [a, rng.randint(1, 4)]
    return {'kind': k, 'p': p, 'ts': ts, 'iv': iv}


def gen(rng, tier):
    kind = rng.choice(['sgd', 'mom', 'nag'])
    return {'net': zoo.gen_net(rng, maxdepth=1),
            'seed': rng.randint(0, 10 ** 6),
            'it': gen_iter(rng, maxn=6, maxT=2),
            'stepper': kind,
            'scale': rng.choice([0, 1]),
            'lr': gen_sched(rng),
            'mom?': gen_sched(rng) if kind != 'sgd' and rng.random() < 0.5
            else None,
            'other': rng.choice([0, 1, 2]),
            'stops': [rng.randint(1, 7) for _ in range(rng.randint(1, 4))],
            'how': rng.choice(['update', 'epoch', 'raise'])}


class Boom(Exception):
    pass


def make(s):
    p = s['p']
    if s['kind'] == 'linear':
        return S.Linear(*p)
    if s['kind'] == 'exp':
        return S.Exponential(p[0], p[1],
                             -np.inf if p[2] is None else p[2],
                             np.inf if p[3] is None else p[3])
    if s['kind'] == 'multi':
        if len(p[1]) != len(p[2]) or p[1] != sorted(set(p[1])) or \
                (p[1] and p[1][0] < 1) or s['iv'] != 1:
            raise BadPlan('steps')
        return S.MultiStep(p[0], list(p[1]), list(p[2]))
    if s['kind'] == 'dec':
        return S.DecreaseAfterEpoch(*p)
    raise BadPlan(s['kind'])


def value(s, epochs, updates):
    """documented value after so many completed epochs / updates"""
    n = epochs if s['ts'] == 'epoch' else updates
    c = n // s['iv']
    p = s['p']
    if s['kind'] == 'linear':
        if c >= p[2]:
            return p[1]
        return p[0] + (p[1] - p[0]) * c / p[2]
    if s['kind'] == 'exp':
        v = p[0] * p[1] ** c
        if p[2] is not None:
            v = max(v, p[2])
        if p[3] is not None:
            v = min(v, p[3])
        return v
    if s['kind'] == 'multi':
        v = p[0]
        for a, b in zip(p[1], p[2]):
            if n >= a:
                v = b
        return v
    return decreasing(p, c * s['iv'])


def decreasing(p, e):
    return p[0] if e + 1 <= p[1] else p[0] * p[1] / (e + 1.)


def values(s, epochs, updates, ran):
    """The documented values. (An epoch-based schedule that is asked after
    every update may count the running epoch or not; ran: the number of
    epochs before that of each update)"""
    if s['kind'] != 'dec' or s['ts'] == 'epoch':
        return [value(s, epochs, updates)]
    n = updates // s['iv'] * s['iv']
    if not n:
        return [decreasing(s['p'], 0)]
    return [decreasing(s['p'], ran[n - 1]), decreasing(s['p'], ran[n - 1] + 1)]


def nearest(options, got):
    return min(options, key=lambda v: abs(v - got))


def run(plan, ctx):
    spec = plan['net']
    for s in (plan['lr'], plan['mom?']):
        if s and (s['iv'] < 1 or s['ts'] not in ('epoch', 'update')):
            raise BadPlan('interval')
        if s and s['kind'] == 'linear' and s['p'][2] < 1:
            raise BadPlan('changes')
        if s and s['kind'] == 'dec' and s['p'][1] < 1:
            raise BadPlan('T')
    net = zoo.build(spec, seed=plan['seed'])
    it = make_iter(spec, plan['it'])
    kind, scale = plan['stepper'], plan.get('scale', 0)
    if kind == 'sgd' and plan['mom?']:
        raise BadPlan('no momentum')
    base = make_stepper([kind, 77.0, 0.25, scale])
    used = []
    orig = type(base).run

    class Recording(type(base)):
        def run(self):
            h = net.handler
            before = h.get_numpy_copy(net.buffer.parameters)
            u = [self.learning_rate, getattr(self, 'momentum', 0.)]
            r = orig(self)
            u += [before, h.get_numpy_copy(net.buffer.gradients),
                  h.get_numpy_copy(net.buffer.parameters)]
            used.append(u)
            return r

    base.__class__ = Recording
    hooks = [ModifyStepperAttribute(make(plan['lr']), 'learning_rate',
                                    plan['lr']['ts'], plan['lr']['iv'],
                                    'lr')]
    if plan['mom?']:
        s = plan['mom?']
        hooks.append(ModifyStepperAttribute(make(s), 'momentum', s['ts'],
                                            s['iv'], 'mom'))
    st = {'stop': None, 'u0': 0, 'e0': 0}

    def stopu(epoch, update, net, stepper, logs):
        if plan['how'] != 'epoch' and update == st['u0'] + st['stop']:
            if plan['how'] == 'raise':
                raise Boom()
            raise StopIteration()

    def stope(epoch, update, net, stepper, logs):
        if epoch >= st['e0'] + st['stop'] and plan['how'] == 'epoch':
            raise StopIteration()

    # the stop hooks come last, so that the schedules of that moment have run
    for k in range(plan['other']):
        hooks.append(Probe(lambda *a: 1, 'other%d' % k, 'update', k + 2))
    hooks += [Probe(stopu, 'su', 'update', 1), Probe(stope, 'se', 'epoch', 1)]
    t = trainer(base, hooks)
    nb = len(list(make_iter(spec, plan['it'])(net.handler)))
    moving = 'BN' in zoo.names_in(spec)     # has statistics as parameters
    eps = 1e-9 if spec['dtype'] == 'float64' else 1e-4
    pos = 0
    ran = []
    changed = set()
    for stop in plan['stops']:
        if stop < 1:
            raise BadPlan('stop')
        st.update(stop=stop, u0=t.current_update_nr, e0=t.current_epoch_nr)
        e_start, u_start = t.current_epoch_nr, t.current_update_nr
        try:
            t.train(net, it)
        except Boom:
            pass
        new = used[pos:]
        pos = len(used)
        need(len(new) == t.current_update_nr - u_start, 'updates',
             '%d updates recorded' % len(new))
        vel = 0.
        skip = moving
        for i, (lr, mom, before, g, after) in enumerate(new):
            e = e_start + i // nb       # epochs counted before this one
            u = u_start + i
            # the epoch counter at a stop in the middle of an epoch has
            # already been advanced: it counts as begun and ended there
            ran.append(e)
            want = nearest(values(plan['lr'], e, u, ran), lr)
            need(zoo.close(lr, want), 'wrong-value',
                 lambda: 'update %d (epochs before: %d): learning rate %r, '
                 'documented %r' % (u + 1, e, lr, want))
            changed.add(lr)
            wmom = 0. if kind == 'sgd' else 0.25
            if plan['mom?']:
                wmom = nearest(values(plan['mom?'], e, u, ran), mom)
                need(zoo.close(mom, wmom), 'wrong-value',
                     lambda: 'update %d (epochs before: %d): momentum %r, '
                     'documented %r' % (u + 1, e, mom, wmom))
            else:
                need(mom == wmom, 'other-attribute', 'momentum changed to %r'
                     % mom)
            # the effect of the values (the gradient is the one the step
            # has used, which may be large enough for the rounding of the
            # values to matter)
            want, wmom = lr, mom if kind != 'sgd' else 0.
            if scale and kind != 'sgd':
                want = want * (1. - wmom)
            vel = wmom * vel - want * np.array(g, float)
            size = np.abs(before).max() + np.abs(vel).max() + \
                np.abs(want * g).max()
            if skip or not np.isfinite(size) or size > 1e6:
                skip = True         # diverged
                continue
            need(np.abs(after - (before + vel)).max() <= eps * size,
                 'wrong-update', lambda: 'update %d: with learning rate %r '
                 'and momentum %r: %s' % (u + 1, want, wmom, zoo.diff(
                     after, before + vel)))
        ctx.event(stop, [u[:2] for u in new])
        ctx.fault('stop by ' + plan['how'])
    if len(changed) > 1:
        ctx.nontrivial = True
    ctx.state(plan['lr']['kind'], plan['lr']['ts'], plan['lr']['iv'],
              plan['stops'], nb)
