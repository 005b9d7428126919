"""C20: evaluation and extraction do not depend on the division of the data."""
import brainstorm as bs
import numpy as np
import world
import zoo
from brainstorm import scorers as S
from brainstorm.data_iterators import Minibatches, Undivided
from brainstorm.tools import evaluate, extract
from checks.c10 import gen_op, history
from checks.common import REAL_ALL, gen_picked, install_picked, need, tol_for
from core import BadPlan

ID = 'C20'
QUICK = 7500
LEVEL = 'exploration'
RULE = ('Seeded networks, data and masks; 2..6 evaluations and extractions '
        'of the same data with seeded batch sizes, orders, cutting and '
        'subsets of the inputs, between them a seeded history of other work '
        'of the network, some of them aborted by a failing device operation '
        'and repeated, in memory with adversarial content. Losses and scores '
        'are compared with averages over the single examples, each run alone '
        'by a fresh network; extracted values with the outputs of those '
        'runs; parameters and data have to stay the same. Non-trivial: at '
        'least two divisions of more than one example.')
MEASURE = 'distinct (divisions, mask kind, layer kinds, work in between)'
REAL = REAL_ALL
STUB = ['content of freshly allocated memory', 'failing device operation']
ASSUMPTIONS = ['losses on the activity of hidden layers are excluded when a '
               'mask is used (masked parts count for them)',
               'relative tolerance 1e-9 (float64) or 3e-4 (float32)']


def gen(rng, tier):
    spec = zoo.gen_net(rng, maxdepth=4,
                       dtype=rng.choice(['float64'] * 5 + ['float32']))
    if spec['mask']:
        spec['decay'] = []
    n = rng.choice([1, 2, 3, 4, 5, 6, 7, 9])
    looks = []
    for _ in range(rng.randint(2, 6)):
        looks.append({
            'what': rng.choice(['evaluate', 'evaluate', 'extract',
                                'monitor']),
            'bs': rng.choice([0, 1, 2, 3, 4, 5, n, n + 2]),
            'shuffle': rng.choice([0, 1]), 'seed': rng.randint(0, 9999),
            'cut': rng.choice([0, 1]),
            'some': rng.choice([0, 0, 1]),
            'abort': rng.choice([None, None, rng.randint(0, 60)]),
            'layer': [rng.randint(0, 9) for _ in range(rng.choice(
                [0, 1, 1, 2]))],
            'ops': [gen_op(rng) for _ in range(rng.choice([0, 0, 1, 2]))]})
    return {'net': spec, 'seed': rng.randint(0, 10 ** 6), 'n': n,
            'T': rng.randint(1, 5), 'dseed': rng.randint(0, 10 ** 6),
            'mask': rng.choice(['tail', 'tail', 'gaps', 'empty']),
            'wmods': gen_picked(rng), 'looks': looks,
            'nsc': rng.randint(0, 2), 'masked_sc': rng.choice([0, 1, 1]),
            'poison': rng.choice([None, 'nan', 'garbage'])}


def make_all(plan):
    spec = plan['net']
    data = zoo.make_data(spec, plan['T'], plan['n'], plan['dseed'])
    if spec['mask']:
        rs = np.random.RandomState(plan['dseed'] + 5)
        m = data['mask']
        if plan['mask'] == 'gaps':
            data['mask'] = (rs.random_sample(m.shape) < 0.6).astype(float)
        elif plan['mask'] == 'empty':
            m[:, rs.random_sample(m.shape[1]) < 0.5] = 0.
        if not np.any(data['mask']):
            data['mask'][0, 0] = 1.
    return data


class Counting(S.Scorer):
    """A user's own scorer: the largest value, with its own aggregation."""

    def __call__(self, true_labels, predicted, mask=None):
        return float(np.max(np.abs(predicted)))

    @staticmethod
    def aggregate(errors):
        return max(e[1] for e in errors)


def make_scorers(plan):
    spec = plan['net']
    mask = 'mask' if spec['mask'] and plan['masked_sc'] else ''
    out = []
    if plan['nsc'] > 0:
        out.append(S.MeanSquaredError(mask_name=mask))
    if plan['nsc'] > 1:
        if spec['loss'] == 'SCE':
            out.append(S.Accuracy(mask_name=mask, name='second'))
        elif spec['loss'] in ('SIG', 'BCE'):
            out.append(S.Hamming(0.4, mask_name=mask, name='second'))
        else:
            out.append(S.MeanSquaredError(mask_name=mask, name='second'))
        if not spec['mask']:
            out.append(Counting(name='own'))
    return out


def reference(plan, net, data, P):
    """Every example alone."""
    spec = plan['net']
    zoo.set_params(net, P)
    path = zoo.output_path(spec)
    losses, preds, outs = {}, [], []
    n = plan['n']
    for i in range(n):
        net.provide_external_data({k: v[:, i:i + 1] for k, v in
                                   data.items()})
        net.forward_pass()
        for k, v in net.get_loss_values().items():
            losses.setdefault(k, []).append(v)
        preds.append(net.get(path))
        outs.append({p: net.get(p)[:plan['T']] for p in paths(net)})
        if not zoo.tame(net):
            return None
    want = {k: np.mean(v) for k, v in losses.items()}
    p = np.concatenate(preds, axis=1)
    t = data['targets']
    m = data['mask'] if spec['mask'] and plan['masked_sc'] else \
        np.ones(t.shape[:2] + (1,))
    p, t, m = [a.reshape(-1, a.shape[-1]) for a in (p, t, m)]
    for sc in make_scorers(plan):
        if isinstance(sc, S.MeanSquaredError):
            v = 0.5 * np.sum(((p - t) ** 2) * m) / m.sum()
        elif isinstance(sc, S.Accuracy):
            v = np.sum((p.argmax(1)[:, None] == t) * m) / m.sum()
        elif isinstance(sc, S.Hamming):
            v = np.sum(((p >= 0.4) == (t > 0)) * m) / m.sum() / t.shape[1]
            # (comparisons next to the threshold may differ in rounding)
            if np.any(np.abs(p - 0.4) < 1e-3):
                v = None
        else:
            v = np.max(np.abs(p))
        want[sc.__name__] = v
    if spec['loss'] == 'SCE' and spec['out'] > 1 and 'second' in want:
        top = np.sort(p, axis=1)
        if np.any(top[:, -1] - top[:, -2] < 1e-3):
            want['second'] = None
    return want, {k: np.concatenate([o[k] for o in outs], axis=1)
                  for k in outs[0]}


def paths(net):
    out = []
    for name in net.layers:
        v = net.buffer[name]
        for n in v['outputs'].keys():
            a = v['outputs'][n]
            if name != 'Input' and n != 'loss' and a.ndim >= 3:
                out.append('%s.outputs.%s' % (name, n))
    return sorted(out)


def make_iter(plan, data, look, some=False):
    if some:
        data = {k: v for k, v in data.items() if k == 'default' or
                k.startswith('mask_h')}
    if not look['bs']:
        return Undivided(**data)
    it = Minibatches(look['bs'], shuffle=bool(look['shuffle']),
                     cut_according_to='mask' if look['cut'] else None,
                     **data)
    it.rnd.set_seed(look['seed'])
    return it


def run(plan, ctx):
    spec = plan['net']
    n, T = plan['n'], plan['T']
    if n < 1 or T < 1 or (spec['mask'] and spec['decay']):
        raise BadPlan('sizes')
    net0 = zoo.build(spec, seed=plan['seed'])
    P = net0.get('parameters')
    data = make_all(plan)
    orig = {k: v.copy() for k, v in data.items()}
    ref = reference(plan, net0, data, P)
    if ref is None:
        return
    want, outs = ref
    tol = tol_for(net0)
    divisions = set()
    with world.device(poison=plan['poison'], pseed=plan['seed']):
        net = zoo.build(spec, seed=plan['seed'])
        install_picked(net, plan['wmods'], [])
        scs = make_scorers(plan)
        for look in plan['looks']:
            history(net, spec, plan, ctx, look['ops'])
            zoo.set_params(net, P)
            w = look['what']
            ctx.tally(w)
            ctx.event(w, look['bs'], look['shuffle'], look['cut'])
            if w == 'extract':
                look = dict(look, shuffle=0, cut=look['cut'] and
                            not look['some'])
            it = make_iter(plan, data, look,
                           some=w == 'extract' and look['some'])
            ps = paths(net)
            ps = [ps[i % len(ps)] for i in look['layer']]
            ps = sorted(set(ps + [zoo.output_path(spec)]))
            if w == 'extract' and look['some']:
                ps = [p for p in ps if independent(p, spec)]

            def call():
                if w == 'evaluate':
                    return evaluate(net, it, scs)
                if w == 'monitor':
                    h = bs.hooks.MonitorScores('it', scs, verbose=False)
                    h.start(net, None, False, {'it': it})
                    return h(0, 0, net, None, {})
                if len(ps) == 1:
                    return extract(net, it, ps[0])
                return extract(net, it, ps)
            if look['abort'] is not None:
                world.DEV.faults = {world.DEV.n + look['abort']: True}
                try:
                    call()
                except world.INJECTED:
                    ctx.fault('aborted ' + w)
                finally:
                    world.DEV.faults = {}
            got = call()
            if w == 'extract':
                need(sorted(got) == sorted(ps), 'extract-items',
                     lambda: 'asked for %s, got %s' % (ps, sorted(got)))
                for p in ps:
                    a = got[p][:T]
                    ctx.data(a)
                    if look['cut'] and look['bs'] and spec['mask']:
                        a = uncut(a, outs[p], data['mask'])
                    need(got[p].shape[1] == n, 'extract-count',
                         lambda: '%d entries of %s for %d examples'
                         % (got[p].shape[1], p, n))
                    need(zoo.close(a, outs[p], tol), 'extract-values',
                         lambda: '%s with batches of %d differs from running '
                         'each example alone: %s' % (
                             p, look['bs'], zoo.diff(a, outs[p])))
            else:
                names = sorted(want)
                need(sorted(got) == names, 'evaluate-items',
                     lambda: 'expected %s, got %s' % (names, sorted(got)))
                for k in names:
                    if want[k] is None:
                        continue
                    if spec['mask'] and look['cut'] and look['bs'] and \
                            not plan['masked_sc'] and \
                            k in [x.__name__ for x in scs]:
                        continue    # unmasked scores see what is not cut
                    ctx.event(k, float(got[k]))
                    need(zoo.close(got[k], want[k], tol * 10),
                         'evaluate-values', lambda: '%s = %r with batches of '
                         '%d (shuffle %d, cut %d), but %r from the single '
                         'examples' % (k, got[k], look['bs'],
                                       look['shuffle'], look['cut'],
                                       want[k]))
            need(zoo.same(net.get('parameters'), P), 'parameters-changed',
                 w + ' changed the parameters')
            for k in data:
                need(zoo.same(data[k], orig[k]), 'data-changed',
                     lambda: '%s changed the data %s' % (w, k))
            divisions.add((look['bs'], look['shuffle'], look['cut']))
    if plan['poison']:
        ctx.fault('memory content ' + plan['poison'])
    ctx.nontrivial = len(divisions) > 1 and n > 1
    ctx.state([(l['what'], l['bs'], l['cut'], [o[0] for o in l['ops']])
               for l in plan['looks']], plan['mask'] if spec['mask'] else '',
              sorted(set(zoo.names_in(spec))))


def uncut(a, want, mask):
    """Extracted values with everything put in that may have been cut"""
    out = np.array(want)
    for i in range(mask.shape[1]):
        hit = np.flatnonzero(np.any(mask[:, i] != 0, axis=-1))
        n = hit[-1] + 1 if hit.size else 0
        for t in range(len(want)):
            if t < n and t >= len(a):
                out[t, i] = np.nan      # missing
            elif t < n or t < len(a) and np.any(a[t, i]):
                out[t, i] = a[t, i]
    return out


def independent(path, spec):
    """Does this output only depend on the default input?"""
    layer = path.split('.')[0]
    if layer in ('msk', 'out') and not path.endswith('predictions'):
        return False
    return True
