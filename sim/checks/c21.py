"""C21: stopping rules stop exactly at the right check."""
import math

import brainstorm as bs
import numpy as np
import zoo
from brainstorm.hooks import (EarlyStopper, StopAfterEpoch,
                              StopAfterThresholdReached, StopOnNan)
from checks.common import (REAL_ALL, Probe, gen_iter, gen_stepper, make_iter,
                           make_stepper, need, trainer)
from core import BadPlan, Violation

ID = 'C21'
QUICK = 20000
LEVEL = 'exploration'
RULE = ('Training with 1..3 shipped stopping hooks over scripted monitored '
        'values (ties, plateaus, NaN, infinities) and injected non-finite '
        'parameters, all timescales, intervals and hook orders, over 1..4 '
        'train() calls. At each check a model evaluates the documented '
        'condition on its own record of the history. Non-trivial: at least '
        'two checks before a stop, or a continuation.')
MEASURE = 'distinct (stoppers, history of conditions)'
REAL = REAL_ALL
STUB = ['the monitored values are scripted by a user hook']
ASSUMPTIONS = []
LIMIT = 60


def gen(rng, tier):
    ts = rng.choice(['epoch', 'epoch', 'update'])
    iv = rng.choice([1, 1, 2, 3])
    stoppers = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice(['early', 'early', 'threshold', 'nan', 'epoch'])
        s = {'kind': k, 'ts': ts if rng.random() < 0.8 else
             rng.choice(['epoch', 'update']), 'iv': iv,
             'crit': rng.choice(['min', 'max'])}
        if k == 'early':
            s['patience'] = rng.choice([1, 1, 2, 3, 5])
        elif k == 'threshold':
            s['threshold'] = rng.choice([0., 0.5, -0.5, 1.0, 3., -3.])
        elif k == 'nan':
            s.update(log=rng.choice([0, 1]), par=rng.choice([0, 1]),
                     loss=rng.choice([0, 1]),
                     ts=rng.choice(['epoch', 'update']),
                     iv=rng.choice([1, 2]))
        else:
            s.update(max=rng.randint(0, 5),
                     ts=rng.choice(['epoch', 'update']),
                     iv=rng.choice([1, 1, 2, 3]))
        stoppers.append(s)
    vals = []
    base = rng.uniform(-1, 1)
    for _ in range(rng.randint(2, 14)):
        r = rng.random()
        if vals and r < 0.3:
            vals.append(rng.choice(vals))
        elif r < 0.37:
            vals.append('nan')
        elif r < 0.42:
            vals.append(rng.choice(['inf', '-inf']))
        else:
            base += rng.uniform(-0.3, 0.3)
            vals.append(round(base, 2))
    return {'net': zoo.gen_net(rng, maxdepth=1), 'seed': rng.randint(0, 10**6),
            'it': gen_iter(rng, maxn=5, maxT=2), 'stepper': ['sgd', 0.01],
            'ts': ts, 'iv': iv, 'values': vals, 'stoppers': stoppers,
            'pos': rng.choice([0, 0, 0, 1, 2, 3]),
            'nested': rng.choice([0, 1]),
            'breakat': rng.choice([None, None, rng.randint(1, 6)]),
            'breakval': rng.choice(['nan', 'inf']),
            'trains': rng.choice([1, 1, 2, 4])}


class Enough(Exception):
    pass


def condition(s, hist, roll, finite, epoch):
    """the documented condition, on the model's record"""
    k = s['kind']
    if k == 'early':
        if not hist:
            return False
        v = [(-x if s['crit'] == 'max' else x) for x in hist]
        v = [math.inf if math.isnan(x) else x for x in v]
        best = v.index(min(v))
        return len(v) - 1 - best >= s['patience']
    if k == 'threshold':
        if s['crit'] == 'min':
            return any(x <= s['threshold'] for x in hist)
        return any(x >= s['threshold'] for x in hist)
    if k == 'nan':
        bad = False
        if s['log']:
            bad |= any(not math.isfinite(x) for x in hist)
        if s['par']:
            bad |= not finite
        if s['loss']:
            bad |= any(not math.isfinite(x) for x in roll)
        return bad
    return epoch >= s['max']


def build_stopper(s, i, log):
    name = 's%d' % i
    if s['iv'] < 1:
        raise BadPlan('interval')
    if s['kind'] == 'early':
        if s['patience'] < 1:
            raise BadPlan('patience')
        return EarlyStopper(log, s['patience'], s['crit'], name, s['ts'],
                            s['iv'])
    if s['kind'] == 'threshold':
        return StopAfterThresholdReached(log, s['threshold'], s['crit'],
                                         name, s['ts'], s['iv'])
    if s['kind'] == 'nan':
        return StopOnNan([log] if s['log'] else (), bool(s['par']),
                         bool(s['loss']), name, s['ts'], s['iv'])
    return StopAfterEpoch(s['max'], name, s['ts'], s['iv'])


def run(plan, ctx):
    spec = plan['net']
    if plan['iv'] < 1:
        raise BadPlan('interval')
    net = zoo.build(spec, seed=plan['seed'])
    it = make_iter(spec, plan['it'])
    values = [float(v) for v in plan['values']]
    hist, checks, verdicts = [], [], []
    st = {'n': 0, 'steps': 0}
    logname = 'm.a.v' if plan['nested'] else 'm'

    def metric(epoch, update, net, stepper, logs):
        v = values[st['n'] % len(values)] if values else 0.
        st['n'] += 1
        hist.append(v)
        return {'a': {'v': v}} if plan['nested'] else v

    def breaker(epoch, update, net, stepper, logs):
        if update == plan['breakat']:
            p = net.get('parameters')
            p[plan['seed'] % p.size] = float(plan['breakval'])
            zoo.set_params(net, p)
            ctx.fault('non-finite parameter')

    def guard(epoch, update, net, stepper, logs):
        st['steps'] += 1
        if st['steps'] > LIMIT:
            raise Enough()

    def pre(s, i):
        def f(epoch, update, net, stepper, logs):
            roll = logs.get('rolling_training', {}).get('total_loss', [])
            c = condition(s, hist, list(roll),
                          bool(np.all(np.isfinite(net.get('parameters')))),
                          epoch)
            verdicts.append((i, epoch, update, c))
        return f

    hooks = []
    for i, s in enumerate(plan['stoppers']):
        hooks.append(Probe(pre(s, i), 'pre%d' % i, s['ts'], s['iv']))
        hooks.append(build_stopper(s, i, logname))
    m = Probe(metric, 'm', plan['ts'], plan['iv'])
    pos = min(len(hooks), 2 * plan['pos'])
    hooks[pos:pos] = [m]
    hooks = [Probe(breaker, 'breaker', 'update', 1)] + hooks + \
        [Probe(guard, 'guard', 'update', 1)]
    t = trainer(make_stepper(plan['stepper']), hooks)
    for k in range(max(1, plan['trains'])):
        del verdicts[:]
        st['steps'] = 0
        try:
            t.train(net, it)
            ended = True
        except Enough:
            ended = False
        ctx.event(k, verdicts, ended)
        # group the verdicts by moment: everything with the same counters and
        # the same emission belongs together
        moments = []
        for v in verdicts:
            ts = plan['stoppers'][v[0]]['ts']
            key = (v[1], v[2], ts)
            if not moments or moments[-1][0] != key:
                moments.append([key, False])
            moments[-1][1] |= v[3]
        hit = [j for j, mm in enumerate(moments) if mm[1]]
        if not ended:
            need(not hit, 'did-not-stop', lambda: 'train call %d: the '
                 'condition holds at %s (epoch, update) but training went on '
                 'to update %d; values %s' % (k, moments[hit[0]][0],
                                              t.current_update_nr, hist))
            break
        need(hit, 'stopped-early', lambda: 'train call %d ended at epoch %d '
             'update %d but no stopping condition holds; values %s, stoppers '
             '%s' % (k, t.current_epoch_nr, t.current_update_nr, hist,
                     plan['stoppers']))
        key = moments[hit[0]][0]
        rest = moments[hit[0] + 1:]
        # after an update-level stop the epoch hooks of that moment still run
        ok = all(x[0][:2] == key[:2] and x[0][2] == 'epoch' for x in rest)
        need(ok, 'stopped-late', lambda: 'train call %d: condition held at '
             '%s, but checks went on: %s' % (k, key, moments))
        need((t.current_epoch_nr, t.current_update_nr) == key[:2],
             'stopped-late', lambda: 'train call %d: condition held at %s, '
             'training ended at epoch %d update %d' % (
                 k, key, t.current_epoch_nr, t.current_update_nr))
        if len(moments) > 1 or k:
            ctx.nontrivial = True
        for s in plan['stoppers']:
            if s['kind'] == 'epoch' and s['iv'] == 1:
                need(t.current_epoch_nr <= max(s['max'],
                                               st.get('e0', 0)) or
                     t.current_epoch_nr <= s['max'], 'limit-exceeded',
                     'epoch %d' % t.current_epoch_nr)
        st['e0'] = t.current_epoch_nr
    ctx.state([s['kind'] for s in plan['stoppers']],
              [v[3] for v in verdicts])
