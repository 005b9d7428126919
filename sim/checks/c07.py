"""C07: stopped training can be continued exactly where it left off."""
import numpy as np

import brainstorm as bs
import world
import zoo
from brainstorm.hooks import (EarlyStopper, MonitorLoss, StopAfterEpoch,
                              StopAfterThresholdReached)
from checks.common import (REAL_ALL, Probe, gen_iter, gen_picked, gen_stepper,
                           install_picked, make_iter, make_stepper, need,
                           trainer)
from core import BadPlan, Violation
from reference import RefTrain

ID = 'C07'
QUICK = 5000
LEVEL = 'exploration'
RULE = ('A seeded sequence of 2..5 train() calls on one trainer, each ended '
        'by a stopping rule at a seeded update or epoch (stop request at the '
        'initial check included) or by an exception at an update; other use '
        'of the network (evaluation, other batch sizes) in between. All '
        'parameters after every update are compared with a numpy reference '
        'execution; logs and counters with a model; plain SGD stopped at '
        'epochs bitwise with one uninterrupted run. Non-trivial: at least '
        'one continuation after an update.')
MEASURE = 'distinct (stepper, sequence of stop kinds and positions)'
REAL = REAL_ALL
STUB = ['content of freshly allocated memory']
ASSUMPTIONS = ['continuing means calling train again on the same trainer, '
               'network and data iterator']


def gen(rng, tier):
    segs = []
    for _ in range(rng.randint(2, 4 if tier == 'quick' else 6)):
        k = rng.choice(['update', 'update', 'epoch', 'epoch', 'initial',
                        'raise', 'loop'])
        segs.append([k, rng.randint(1, 4),
                     rng.choice(['none', 'none', 'eval', 'sizes', 'grad'])])
    return {'net': zoo.gen_net(rng, maxdepth=3), 'seed': rng.randint(0, 10**6),
            'it': gen_iter(rng, maxn=6, maxT=3), 'stepper': gen_stepper(rng),
            'wmods': gen_picked(rng), 'gmods': gen_picked(rng, True),
            'segs': segs, 'poison': rng.choice([None, 'nan', 'garbage']),
            'miv': rng.choice([1, 2, 3])}


def wild(p):
    """numerically diverged: rounding errors may be amplified at will"""
    return not np.all(np.abs(p) < 1e4)


class Boom(Exception):
    pass


def run(plan, ctx):
    with world.device(poison=plan['poison'], pseed=plan['seed']):
        _run(plan, ctx)
    if all(s[0] == 'epoch' and s[2] == 'none' for s in plan['segs']) or \
            plan['stepper'][0] == 'sgd':
        bitwise(plan, ctx)


def between(net, spec, kind, seed):
    if kind == 'none':
        return
    for T, B in ((1, 1), (3, 4), (2, 2)):
        net.provide_external_data(zoo.make_data(spec, T, B, seed + T))
        net.forward_pass(training_pass=False)
        if kind == 'grad':
            net.backward_pass()


def _run(plan, ctx):
    spec = plan['net']
    if plan['miv'] < 1:
        raise BadPlan('interval')
    net = zoo.build(spec, seed=plan['seed'])
    ref = RefTrain(spec, plan['seed'])
    wm, gm = install_picked(net, plan['wmods'], plan['gmods'])
    ref.set_mods(wm, gm)
    it = make_iter(spec, plan['it'])
    rit = make_iter(spec, plan['it'])
    st = plan['stepper']
    cur = {'seg': None, 'u0': 0, 'e0': 0, 'calls': []}

    # ---- real side
    seen = []

    def probe(epoch, update, net, stepper, logs):
        seen.append((epoch, update, net.get('parameters')))
        k, n, _ = cur['seg']
        if k == 'raise' and update == cur['u0'] + n:
            raise Boom()
        if k == 'initial':
            raise StopIteration()
        if k == 'update' and update == cur['u0'] + n:
            raise StopIteration()
        return update

    def probe_epoch(epoch, update, net, stepper, logs):
        k, n, _ = cur['seg']
        if k in ('epoch', 'loop') and epoch >= cur['e0'] + n:
            raise StopIteration()
        return epoch

    def every(epoch, update, net, stepper, logs):
        return {'u': update, 'e': epoch}

    t = trainer(make_stepper(st), [
        Probe(every, 'every', 'update', plan['miv']),
        Probe(probe, 'p', 'update', 1), Probe(probe_epoch, 'pe', 'epoch', 1)])

    # ---- model of the same
    m = {'u': 0, 'e': 0, 'p': [], 'pe': [], 'every': [], 'roll': 0,
         'seen': []}

    def m_update(seg, u0):
        if m['u'] % plan['miv'] == 0:
            m['every'].append((m['u'], m['e']))
        m['seen'].append((m['e'], m['u'], ref.flat()))
        k, n, _ = seg
        if k == 'raise' and m['u'] == u0 + n:
            raise Boom()
        if k == 'initial' or (k == 'update' and m['u'] == u0 + n):
            return True
        m['p'].append(m['u'])
        return False

    def m_epoch(seg, e0):
        k, n, _ = seg
        if k in ('epoch', 'loop') and m['e'] >= e0 + n:
            return True
        m['pe'].append(m['e'])
        return False

    def model(seg):
        u0, e0 = m['u'], m['e']
        ref.start()
        stop = m_update(seg, u0)
        stop = m_epoch(seg, e0) or stop
        while not stop:
            m['e'] += 1
            for d in rit(ref.net.handler):
                m['u'] += 1
                ref.step(st, {k: np.array(v) for k, v in d.items()})
                if m_update(seg, u0):
                    stop = True
                    break
            m['roll'] += 1
            stop = m_epoch(seg, e0) or stop

    total = 0
    for i, seg in enumerate(plan['segs']):
        if seg[1] < 1 or seg[0] not in ('update', 'epoch', 'initial', 'raise',
                                        'loop'):
            raise BadPlan('segment')
        cur['seg'], cur['u0'], cur['e0'] = seg, t.current_update_nr, \
            t.current_epoch_nr
        del seen[:]
        del m['seen'][:]
        boom = False
        try:
            t.train(net, it)
        except Boom:
            boom = True
        try:
            model(seg)
            mboom = False
        except Boom:
            mboom = True
        need(boom == mboom, 'error-lost', 'segment %d: hook error surfaced: '
             '%s, expected %s' % (i, boom, mboom))
        what = 'segment %d %s' % (i, seg)
        need([s[:2] for s in seen] == [s[:2] for s in m['seen']],
             'counters-wrong', lambda: '%s: (epoch, update) at the hooks: %s, '
             'expected %s' % (what, [s[:2] for s in seen],
                              [s[:2] for s in m['seen']]))
        for a, b in zip(seen, m['seen']):
            if wild(b[2]):
                return
            need(zoo.close(a[2], b[2], 1e-7), 'updates-differ',
                 lambda: '%s: parameters after update %d: %s'
                 % (what, a[1], zoo.diff(a[2], b[2])))
        need((t.current_epoch_nr, t.current_update_nr) == (m['e'], m['u']),
             'counters-wrong', lambda: '%s: counters %s, expected %s' % (
                 what, (t.current_epoch_nr, t.current_update_nr),
                 (m['e'], m['u'])))
        roll = t.logs.get('rolling_training', {}).get('total_loss', [])
        need(len(roll) == m['roll'], 'logs-wrong',
             lambda: '%s: %d rolling losses, expected %d' % (what, len(roll),
                                                             m['roll']))
        need(t.logs.get('p', []) == m['p'] and
             t.logs.get('pe', []) == m['pe'], 'logs-wrong',
             lambda: '%s: logs %s %s, expected %s %s' % (
                 what, t.logs.get('p'), t.logs.get('pe'), m['p'], m['pe']))
        ev = t.logs.get('every', {'u': [], 'e': []})
        need(list(zip(ev['u'], ev['e'])) == m['every'], 'logs-wrong',
             lambda: '%s: logs of the interval hook: %s, expected %s'
             % (what, ev, m['every']))
        ctx.event(seg, m['u'], m['e'])
        ctx.data(net.get('parameters'))
        if i and m['u'] > total:
            ctx.nontrivial = True
        total = m['u']
        ctx.fault('stop by ' + seg[0])
        ref.put({k: net.get('%s.parameters.%s' % k) for k in ref.lv})
        between(net, spec, seg[2], plan['seed'] + i)
    ctx.state(st[0], [(s[0], s[1]) for s in plan['segs']])


def bitwise(plan, ctx):
    """plain gradient descent, stopped at epoch boundaries"""
    if plan['stepper'][0] != 'sgd':
        return
    spec = plan['net']
    cuts = [max(1, s[1]) for s in plan['segs']][:4]

    def go(limits):
        net = zoo.build(spec, seed=plan['seed'])
        install_picked(net, plan['wmods'], [])
        it = make_iter(spec, plan['it'])
        stop = StopAfterEpoch(0)
        t = trainer(make_stepper(plan['stepper']), [stop])
        for l in limits:
            stop.max_epochs = l
            t.train(net, it)
        return net.get('parameters'), t
    lims = list(np.cumsum(cuts))
    a, ta = go(lims)
    b, tb = go(lims[-1:])
    need(zoo.same(a, b), 'sgd-not-bitwise',
         lambda: 'stopped at epochs %s: %s' % (lims, zoo.diff(a, b)))
    need(repr(ta.logs) == repr(tb.logs), 'sgd-logs',
         lambda: 'logs %s / %s' % (ta.logs, tb.logs))
    ctx.tally('bitwise comparisons')
