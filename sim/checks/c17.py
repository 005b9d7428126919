"""C17: training performs exactly the documented update rule."""
import numpy as np

import brainstorm as bs
import world
import zoo
from brainstorm.hooks import StopAfterEpoch
from checks.common import (REAL_ALL, Probe, gen_iter, gen_picked, gen_stepper,
                           install_picked, make_iter, make_stepper, need,
                           refs_of, resolve_picked, trainer)
from core import BadPlan, Violation
from reference import RefTrain

ID = 'C17'
QUICK = 7000
LEVEL = 'exploration'
RULE = ('Real training runs (random network, stepper, data iterator, '
        'modifiers) over 1..3 calls of train with hyper-parameters and '
        'modifiers changed by user hooks at seeded updates and handler noise, '
        'fresh memory poisoned; after every update the parameters are '
        'compared with a numpy model that gets its gradients from a separate '
        'network. Non-trivial: at least 3 updates.')
MEASURE = 'distinct (stepper, modifiers, layer kinds, change kinds)'
REAL = REAL_ALL
STUB = ['content of freshly allocated memory']
ASSUMPTIONS = ['gradients of a single pass are those of a separate network '
               '(their correctness is C18)']


def gen(rng, tier):
    changes = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        k = rng.choice(['lr', 'momentum', 'scale', 'wmods', 'gmods', 'set'])
        v = {'lr': rng.choice([0.02, 0.2, 0.]), 'momentum':
             rng.choice([0.1, 0.95, 0.]), 'scale': rng.choice([0, 1]),
             'set': rng.randint(0, 999)}.get(k)
        if k in ('wmods', 'gmods'):
            v = gen_picked(rng, k == 'gmods')
        changes.append([rng.randint(1, 8), k, v])
    return {'net': zoo.gen_net(rng), 'seed': rng.randint(0, 10 ** 6),
            'it': gen_iter(rng),
            'its2': [gen_iter(rng) for _ in range(rng.choice([0, 0, 1, 2]))],
            'stepper': gen_stepper(rng, ('sgd', 'mom', 'mom', 'nag', 'nag',
                                         'fwd')),
            'wmods': gen_picked(rng), 'gmods': gen_picked(rng, True),
            'changes': changes, 'epochs': rng.randint(1, 3),
            'poison': rng.choice([None, 'nan', 'garbage'])}


def run(plan, ctx):
    spec = plan['net']
    with world.device(poison=plan['poison'], pseed=plan['seed']):
        _run(plan, ctx, spec)
    if plan['poison']:
        ctx.fault('memory content ' + plan['poison'])


def _run(plan, ctx, spec):
    net = zoo.build(spec, seed=plan['seed'])
    ref = RefTrain(spec, plan['seed'])
    wm, gm = install_picked(net, plan['wmods'], plan['gmods'])
    ref.set_mods(wm, gm)
    st = list(plan['stepper'])
    tol = 1e-8
    state = {'u': 0, 'over': False}

    def after_update(epoch, update, net, stepper, logs):
        if update == 0 or update == state['u']:
            return
        need(update == state['u'] + 1, 'update-number',
             lambda: 'update %d after %d' % (update, state['u']))
        state['u'] = update
        data = state['log'].pop(0)
        if state['over']:
            return
        ref.step(st, data)
        if not all(np.all(np.abs(a) < 1e6) for a in ref.get().values()):
            # diverged: rounding decides from here on (inf or nan)
            state['over'] = True
            return
        got = zoo.views(net)
        for (l, v), want in sorted(ref.get().items()):
            g = got['%s.%s' % (l, v)]
            need(zoo.close(g, want, tol), 'wrong-update',
                 lambda: 'update %d (%s): %s.%s: %s' % (
                     update, st, l, v, zoo.diff(g, want)))
            # constraints hold exactly
            for m in ref.wm.get((l, v), [])[-1:]:
                if m.m[0] == 'clip':
                    need(not np.any(g < m.m[1] - 1e-12) and
                         not np.any(g > m.m[2] + 1e-12), 'constraint-broken',
                         'update %d: %s.%s exceeds its limits' % (update, l,
                                                                  v))
        ref.put({k: np.array(got['%s.%s' % k]) for k in ref.lv})
        ctx.event('u', update)
        ctx.data(net.get('parameters'))
        for at, kind, val in plan['changes']:
            if at != update:
                continue
            ctx.fault('change of ' + kind)
            if kind == 'lr' and st[0] != 'fwd':
                stepper.learning_rate = val
                st[1] = val
            elif kind == 'momentum' and st[0] in ('mom', 'nag'):
                stepper.momentum = val
                st[2] = val
            elif kind == 'scale' and st[0] in ('mom', 'nag'):
                stepper.scale_learning_rate = bool(val)
                st[3] = val
            elif kind == 'wmods':
                w = resolve_picked(net, val)
                net.set_weight_modifiers(refs_of(net, val))
                ref.set_mods(w, state['gm'])
                state['wm'] = w
            elif kind == 'gmods':
                g = resolve_picked(net, val)
                net.set_gradient_modifiers(refs_of(net, val))
                keep = ref.wm
                ref.set_mods(state['wm'], g)
                ref.wm = keep
                state['gm'] = g
            elif kind == 'set':
                rs = np.random.RandomState(val)
                new = {k: a if k[1] in ('timing', 'mu', 'sigma') else
                       rs.standard_normal(a.shape) * 0.3
                       for k, a in ref.get().items()}
                for (l, v), a in new.items():
                    net.handler.set_from_numpy(net.buffer[l].parameters[v], a)
                ref.put(new)

    state['wm'], state['gm'] = wm, gm
    t = trainer(make_stepper(plan['stepper']),
                [Probe(after_update, 'ref', 'update', 1)])
    stop = StopAfterEpoch(plan['epochs'])
    t.add_hook(stop)
    for it_plan in [plan['it']] + plan['its2']:
        it = Recorder(make_iter(spec, it_plan), state)
        ref.start()
        t.train(net, it)
        need(not state['log'], 'skipped-update',
             'a batch was delivered but no update happened')
        stop.max_epochs += plan['epochs']
    if state['u'] >= 3:
        ctx.nontrivial = True
    ctx.state(st[0], sorted(m[0] for x in wm for m in x[2]),
              sorted(m[0] for x in gm for m in x[2]),
              sorted(set(zoo.names_in(spec))), [c[1] for c in
                                                plan['changes']])


class Recorder(object):
    """A user-defined data iterator that remembers what it delivered."""

    def __init__(self, it, state):
        self.it = it
        self.state = state
        state['log'] = []
        self.data_shapes = it.data_shapes
        self.length = getattr(it, 'length', None)

    def __call__(self, handler):
        for d in self.it(handler):
            self.state['log'].append({k: np.array(v) for k, v in d.items()})
            yield d
