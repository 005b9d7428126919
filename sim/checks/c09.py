"""C09: observing training does not change it."""
import os

import brainstorm as bs
import numpy as np
import world
import zoo
from brainstorm import hooks as H
from brainstorm.tools import evaluate
from checks.common import (REAL_ALL, Probe, add_jitter, gen_iter, gen_picked, gen_stepper,
                           install_picked, make_iter, make_stepper, need,
                           tol_for, trainer)
from core import BadPlan, Violation

ID = 'C09'
QUICK = 4400
LEVEL = 'exploration'
RULE = ('The same training run with and without 1..6 observing hooks (every '
        'shipped monitor and saver, seeded schedules, positions, monitoring '
        'data of other sizes and sequence lengths, poisoned fresh memory, '
        'clock jumps for the progress bar). Parameters after every update, '
        'rolling losses, the logs of the common hooks and the parameters of a '
        'later initialization are compared bit '
        'for bit; what the monitors log is recomputed from the parameters at '
        'that moment by a fresh network. Non-trivial: an observer ran during '
        'training.')
MEASURE = 'distinct (observer kinds, timescales, layer kinds, stepper)'
REAL = REAL_ALL + ['h5py/libhdf5']
STUB = ['content of freshly allocated memory', 'wall clock', 'terminal']
ASSUMPTIONS = ['monitors get data iterators of their own, or the training '
               'data without shuffling (a shared shuffling iterator hands '
               'out its random draws in the order it is used)',
               'hooks that show the momentary activations or deltas show '
               'those of whatever pass ran last']

KINDS = ['loss', 'loss', 'scores', 'trainloss', 'deltas', 'grads', 'inouts',
         'params', 'savelogs', 'savenet', 'savebest', 'cachebest', 'progress',
         'info', 'nan', 'stopper', 'threshold', 'quit']


def gen(rng, tier):
    obs = []
    for _ in range(rng.randint(1, 6)):
        obs.append({'kind': rng.choice(KINDS),
                    'ts': rng.choice(['epoch', 'update']),
                    'iv': rng.choice([1, 1, 2, 3]),
                    'it': gen_iter(rng, maxn=9, maxT=6),
                    'pos': rng.randint(0, 6),
                    'layer': rng.randint(0, 5)})
    wmods, gmods = gen_picked(rng), gen_picked(rng, True)
    if rng.random() < 0.3:
        wmods = add_jitter(rng, wmods)
    if rng.random() < 0.2:
        gmods = add_jitter(rng, gmods, True)
    return {'net': zoo.gen_net(rng, maxdepth=3),
            'seed': rng.randint(0, 10 ** 6),
            'it': gen_iter(rng, maxn=6, maxT=3), 'stepper': gen_stepper(rng),
            'wmods': wmods, 'gmods': gmods,
            'kick': rng.choice([0, 0, 0, 1, 2]),
            'obs': obs, 'epochs': rng.randint(1, 3),
            'jump': rng.choice([0, 0, 1]),
            'verbose': rng.choice([0, 0, 1]),
            'poison': rng.choice([None, 'nan', 'garbage'])}


class Run(object):
    def __init__(self):
        self.info = {}


def scorer(spec):
    k = {'name': 'sc', 'mask_name': 'mask' if spec['mask'] else ''}
    if spec['loss'] == 'SCE':
        return bs.scorers.Accuracy(**k)
    if spec['loss'] in ('SIG', 'BCE'):
        return bs.scorers.Hamming(**k)
    return bs.scorers.MeanSquaredError(**k)


def observer(o, i, spec, net, d, its):
    n = 'o%d' % i
    ts, iv = o['ts'], o['iv']
    k = o['kind']
    if iv < 1:
        raise BadPlan('interval')
    layers = [l for l in net.layers if l != 'Input']
    withp = sorted({l for l, v in zoo.param_views(net)})
    lay = layers[o['layer'] % len(layers)]
    if k in ('loss', 'scores'):
        its[n] = make_iter(spec, o['it'])
    if k == 'loss':
        return H.MonitorLoss(n, n, ts, iv)
    if k == 'scores':
        return H.MonitorScores(n, [scorer(spec)], n, ts, iv)
    if k == 'trainloss':
        return H.MonitorLoss('training_data_iter', n, ts, iv)
    if k == 'deltas':
        return H.MonitorLayerDeltas(lay, n, ts, iv)
    if k == 'grads':
        return H.MonitorLayerGradients(withp[o['layer'] % len(withp)], n, ts,
                                       iv)
    if k == 'inouts':
        return H.MonitorLayerInOuts(lay, n, ts, iv)
    if k == 'params':
        return H.MonitorLayerParameters(withp[o['layer'] % len(withp)], n, ts,
                                        iv)
    if k == 'savelogs':
        return H.SaveLogs(os.path.join(d, n), n, ts, iv)
    if k == 'savenet':
        return H.SaveNetwork(os.path.join(d, n), n, ts, iv)
    if k == 'savebest':
        return H.SaveBestNetwork('rolling_training.total_loss',
                                 os.path.join(d, n), 'min', n, 'epoch', iv)
    if k == 'cachebest':
        return H.SaveBestNetwork('rolling_training.total_loss', None, 'min',
                                 n, 'epoch', iv)
    if k == 'progress':
        return H.ProgressBar()
    if k == 'info':
        return H.InfoUpdater(Run(), n, ts, iv)
    if k == 'nan':
        return H.StopOnNan(check_parameters=False, check_training_loss=False,
                           name=n, timescale=ts, interval=iv)
    # stopping rules that do not apply
    if k == 'stopper':
        return H.EarlyStopper('rolling_training.total_loss', 99,
                              ['min', 'max'][o['layer'] % 2], n, 'epoch', iv)
    if k == 'threshold':
        low = o['layer'] % 2
        return H.StopAfterThresholdReached(
            'rolling_training.total_loss', -1e300 if low else 1e300,
            ['max', 'min'][low], n, 'epoch', iv)
    if k == 'quit':
        return H.StopOnSigQuit(n, ts, iv)
    raise BadPlan(k)


def stats(o, net):
    """what the layer has at this moment, for the hooks that show it"""
    layers = [l for l in net.layers if l != 'Input']
    v = net.buffer[layers[o['layer'] % len(layers)]]
    out = {}
    if o['kind'] == 'inouts':
        parts = [('inputs', 'inputs/'), ('outputs', 'outputs/')]
    elif o['kind'] == 'deltas':
        parts = [('internals', ''), ('output_deltas', 'output_deltas/'),
                 ('input_deltas', 'input_deltas/')]
    else:
        return out
    for kind, pre in parts:
        for n in v[kind].keys():
            a = net.handler.get_numpy_copy(v[kind][n])
            if a.size:
                add_stats(out, pre + n, a)
    return out


def add_stats(out, key, a):
    out[key + '/min'] = a.min()
    out[key + '/avg'] = a.mean()
    out[key + '/max'] = a.max()


def execute(plan, ctx, with_obs):
    spec = plan['net']
    d = ctx.scratch()
    world.seed_all(plan['seed'])
    rec = {'params': [], 'obs': []}
    with world.device(poison=plan['poison'], pseed=plan['seed'] + with_obs):
        net = zoo.build(spec, seed=plan['seed'])
        install_picked(net, plan['wmods'], plan['gmods'])
        it = make_iter(spec, plan['it'])
        its = {'own': make_iter(spec, dict(plan['it'], seed=5, dseed=6, n=4,
                                           bs=3))}

        def traj(epoch, update, net, stepper, logs):
            rec['params'].append(net.get('parameters'))

        def kick(epoch, update, net, stepper, logs):
            # a user-defined hook that is not an observer
            if update == plan['kick']:
                p = net.get('parameters')
                zoo.set_params(net, p * net.rnd.uniform(0.9, 1.1, p.shape))

        withp = sorted({l for l, v in zoo.param_views(net)})
        hooks = [Probe(traj, 'traj', 'update', 1),
                 H.MonitorLoss('own', 'own', 'epoch', 1),
                 Probe(kick, 'kick', 'update', 1),
                 H.MonitorLayerParameters(withp[0], 'mp', 'update', 2),
                 H.MonitorLayerGradients(withp[-1], 'mg', 'update', 1),
                 H.StopAfterEpoch(plan['epochs'])]
        if with_obs:
            for i, o in enumerate(plan['obs']):
                h = observer(o, i, spec, net, d, its)
                if h is None:
                    continue
                if o['kind'] == 'trainloss' and plan['it']['shuffle'] and \
                        plan['it']['bs']:
                    continue

                def look(o, i):
                    def f(epoch, update, net, stepper, logs):
                        rec['obs'].append((
                            i, zoo.views(net), zoo.views(net, 'gradients'),
                            net.get('parameters'), update,
                            stats(o, net)))
                    return f
                k = min(o['pos'], len(hooks))
                # (stay together)
                hooks[k:k] = [[Probe(look(o, i), 'look%d' % i, h.timescale,
                                     h.interval), h]]
        t = bs.Trainer(make_stepper(plan['stepper']),
                       verbose=bool(plan['verbose']))
        bars = 0
        for h in sum([x if isinstance(x, list) else [x] for x in hooks], []):
            bars += isinstance(h, H.ProgressBar)
            if bars > 1 and isinstance(h, H.ProgressBar):
                continue            # it always has the same name
            t.add_hook(h)
        t.train(net, it, **its)
        rec['final'] = net.get('parameters')
        rec['logs'] = t.logs
        # a last use of the network's own source of randomness
        net.initialize(bs.initializers.Gaussian(0.5))
        rec['again'] = net.get('parameters')
    return rec


def run(plan, ctx):
    import random
    if plan['epochs'] < 1:
        raise BadPlan('epochs')
    spec = plan['net']
    a = execute(plan, ctx, 0)
    if plan['jump']:
        world.CLOCK.jumps = random.Random(plan['seed'])
        ctx.fault('clock jumps')
    b = execute(plan, ctx, 1)
    world.CLOCK.jumps = None
    kinds = [o['kind'] for o in plan['obs']]
    ctx.event(kinds)
    if plan['poison']:
        ctx.fault('memory content ' + plan['poison'])
    need(len(a['params']) == len(b['params']), 'length-differs',
         'observed training made %d updates instead of %d'
         % (len(b['params']), len(a['params'])))
    for i, (x, y) in enumerate(zip(a['params'], b['params'])):
        ctx.data(x)
        need(zoo.same(x, y), 'trajectory-differs',
             lambda: 'with observers %s the parameters after update %d '
             'differ: %s' % (kinds, i, zoo.diff(y, x)))
    need(zoo.same(a['final'], b['final']), 'trajectory-differs',
         'final parameters differ')
    need(zoo.same(a['again'], b['again']), 'trajectory-differs',
         lambda: 'with observers %s the network was initialized differently '
         'after training' % (kinds,))
    for r in (a, b):
        # there are no gradients before the first backward pass
        r['logs']['mg'] = {v: {k: x[1:] for k, x in d.items()}
                           for v, d in r['logs']['mg'].items()}
    for k in ('rolling_training', 'own', 'mp', 'mg'):
        x, y = repr(plain(a['logs'].get(k))), repr(plain(b['logs'].get(k)))
        need(x == y, 'logs-differ', lambda: 'log %s with observers: %s, '
             'without: %s' % (k, y, x))
    verify(plan, ctx, b)
    ctx.state(sorted(kinds), [o['ts'] for o in plan['obs']],
              sorted(set(zoo.names_in(spec))), plan['stepper'][0])


def plain(x):
    if isinstance(x, dict):
        return [(k, plain(v)) for k, v in sorted(x.items())]
    return [repr(float(v)) if isinstance(v, (int, float, np.floating))
            else repr(v) for v in x] if x is not None else None


def flat(x, pre=''):
    out = {}
    for k, v in x.items():
        if isinstance(v, dict):
            out.update(flat(v, pre + k + '/'))
        else:
            out[pre + k] = v
    return out


def verify(plan, ctx, rec):
    """What was logged is the value for the network at that moment."""
    spec = plan['net']
    fresh = zoo.build(spec, seed=plan['seed'])
    layers = sorted({l for l, v in zoo.param_views(fresh)})
    for i, o in enumerate(plan['obs']):
        moments = [r for r in rec['obs'] if r[0] == i]
        if moments:
            ctx.nontrivial = True
        if o['kind'] not in ('loss', 'scores', 'grads', 'params', 'inouts',
                             'deltas') or not moments:
            continue
        if o['kind'] in ('inouts', 'deltas'):
            # nothing before the first data
            moments = [r for r in moments if r[4] > 0]
            have = flat(rec['logs'].get('o%d' % i, {}))
            if not moments or not moments[0][5]:
                continue
            extra = max(len(v) for v in have.values()) - len(moments) \
                if have else 0
            need(extra in (0, 1), 'not-logged', lambda: 'observer %s was '
                 'called %d times during training and logged %d times'
                 % (o['kind'], len(moments), len(moments) + extra))
        log = flat(rec['logs'].get('o%d' % i, {}))
        need(log, 'not-logged', 'observer %s logged nothing' % o['kind'])
        if o['kind'] in ('inouts', 'deltas'):
            log = {k: v[-len(moments):] for k, v in log.items()}
        for n, r in enumerate(moments):
            if not np.all(np.isfinite(r[3])):
                return
            want = {}
            if o['kind'] in ('loss', 'scores'):
                zoo.set_params(fresh, r[3])
                sc = [scorer(spec)] if o['kind'] == 'scores' else []
                whole = dict(o['it'], bs=0)
                if spec['mask'] and spec['decay']:
                    # the activity in masked parts counts for these
                    if o['it']['shuffle'] and o['it']['bs']:
                        continue
                    whole = o['it']
                it = make_iter(spec, whole)
                want = dict(evaluate(fresh, it, sc))
            elif o['kind'] in ('inouts', 'deltas'):
                want = r[5]
            else:
                l = layers[o['layer'] % len(layers)]
                src = r[1] if o['kind'] == 'params' else r[2]
                for key, v in src.items():
                    if key.startswith(l + '.'):
                        vn = key[len(l) + 1:]
                        add_stats(want, vn, v)
                        if o['kind'] == 'params' and v.ndim > 1:
                            # one norm per unit
                            nrm = np.sqrt((v ** 2).sum(1))
                            want[vn + '/min_L2_norm'] = nrm.min()
                            want[vn + '/avg_L2_norm'] = nrm.mean()
                            want[vn + '/max_L2_norm'] = nrm.max()
            for k, w in want.items():
                need(k in log and len(log[k]) > n, 'not-logged',
                     lambda: 'observer %s: no value %d of %s' % (o['kind'], n,
                                                                 k))
                if not np.isfinite(w) and not np.isfinite(log[k][n]):
                    continue    # overflows depend on the batches
                need(zoo.close(log[k][n], w, 1e-7), 'wrong-value',
                     lambda: 'observer %s logged %s = %r at its call %d, but '
                     'the network at that moment has %r' % (
                         o['kind'], k, log[k][n], n, w))
