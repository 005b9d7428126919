"""C26: examples of a batch and masked steps have no influence on others."""
import numpy as np
import world
import zoo
from checks.c10 import gen_op, history
from checks.common import REAL_ALL, forward_contexts, need, snapshot, tol_for
from core import BadPlan

ID = 'C26'
QUICK = 6000
LEVEL = 'exploration'
RULE = ('Seeded networks and examples of different lengths; every example is '
        'run alone, without padding, by a fresh network. Another network '
        'then runs 2..6 batches composed of them in a seeded way (subsets, '
        'orders, repetitions, other lengths of the padding), with garbage '
        'that the simulator injects into everything that is masked, with '
        'seeded other work and aborted passes in between, in memory with '
        'adversarial content. Outputs at the valid steps, contexts, losses, '
        'gradients and input deltas have to be those of the single examples. '
        'Non-trivial: a batch of at least two examples, or padding.')
MEASURE = 'distinct (layer kinds, compositions, padding, kind of pass)'
REAL = REAL_ALL
STUB = ['content of freshly allocated memory', 'content of the padding',
        'failing device operation']
ASSUMPTIONS = ['batch normalisation and dropout only in passes that are not '
               'for training (they mix examples or draw random numbers)',
               'losses on the activity of hidden layers are excluded when a '
               'mask is used (masked parts count for them)',
               'finite garbage (a mask multiplies)',
               'relative tolerance 1e-8 (float64) or 3e-3 (float32)']
GARBAGE = ['zero', 'small', 'large', 'large', 'repeat']


def gen(rng, tier):
    train = rng.choice([0, 1, 1])
    while True:
        spec = zoo.gen_net(rng, maxdepth=4, mask=rng.random() < 0.65,
                           random_layers=not train,
                           dtype=rng.choice(['float64'] * 5 + ['float32']))
        if not (train and 'BN' in zoo.names_in(spec)):
            break
    if spec['mask']:
        spec['decay'] = []
    n = rng.choice([1, 2, 2, 3, 4, 5])
    T = rng.randint(1, 6)
    batches = []
    for _ in range(rng.randint(2, 6)):
        batches.append({
            'rows': [rng.randint(0, n - 1) for _ in range(rng.randint(1, 6))]
            if rng.random() < 0.6 else rng.sample(range(n), n),
            'pad': rng.choice([0, 0, 1, 2, 5]),
            'cut': rng.choice([0, 0, 1]),
            'garbage': rng.choice(GARBAGE), 'gseed': rng.randint(0, 9999),
            'bwd': rng.choice([0, 1, 1]),
            'abort': rng.choice([None, None, None, rng.randint(0, 80)]),
            'ops': [gen_op(rng) for _ in range(rng.choice([0, 0, 1, 2]))]})
    return {'net': spec, 'seed': rng.randint(0, 10 ** 6), 'n': n, 'T': T,
            'dseed': rng.randint(0, 10 ** 6), 'train': train,
            'mask': rng.choice(['tail', 'tail', 'gaps']),
            'ctx': rng.choice([0, 0, 1]), 'batches': batches,
            'poison': rng.choice([None, 'nan', 'garbage'])}


def make_mask(plan, T, n):
    rs = np.random.RandomState(plan['dseed'] + 5)
    if plan['mask'] == 'gaps':
        return (rs.random_sample((T, n, 1)) < 0.6).astype(float)
    m = np.zeros((T, n, 1))
    for i in range(n):
        m[:rs.randint(0 if rs.rand() < 0.2 else 1, T + 1), i] = 1.
    return m


def garbage(spec, T, B, kind, seed, data):
    """What may stand in the padding: any finite values."""
    g = zoo.make_data(spec, T, B, seed, masked_tail=False)
    factor = {'zero': 0., 'small': 1., 'large': 50.}.get(kind)
    for k in g:
        if k == 'targets' and spec['loss'] == 'SCE':
            continue        # (has to be the number of a class)
        if factor is not None:
            g[k] = g[k] * (factor if k == 'default' or spec['loss'] in
                           ('SE', 'SQD') else min(factor, 1.))
        elif len(data[k]) == T:
            g[k] = np.array(data[k])[::-1]
    return g


def compose(plan, data, lengths, b):
    """One batch: the examples in some order, with padding."""
    spec, rows = plan['net'], b['rows']
    out = {k: v[:, rows].copy() for k, v in data.items()}
    T, B = plan['T'], len(rows)
    if not spec['mask']:
        return out
    if plan['mask'] == 'tail' and b['cut']:
        T = max(1, max(lengths[i] for i in rows))
        out = {k: v[:T] for k, v in out.items()}
    full = {k: np.zeros((T + b['pad'], B) + v.shape[2:])
            for k, v in out.items()}
    for k, v in out.items():
        full[k][:T] = v
    g = garbage(spec, T + b['pad'], B, b['garbage'], b['gseed'], full)
    # (what stands at a masked step may reach later steps through a
    # recurrent layer, so there only the targets are touched)
    free = not zoo.is_recurrent(spec)
    for j in range(B):
        hit = np.flatnonzero(full['mask'][:, j, 0])
        end = hit[-1] + 1 if hit.size else 0
        for t in range(T + b['pad']):
            if full['mask'][t, j, 0]:
                continue
            for k in full:
                if k == 'targets' or k != 'mask' and (free or t >= end):
                    full[k][t, j] = g[k][t, j]
    return full


def context_rows(c, rows):
    if c is None:
        return None
    return [None if x is None else np.array(x[:, rows]) for x in c]


def one_pass(net, data, plan, c, bwd):
    net.provide_external_data(data)
    net.forward_pass(training_pass=bool(plan['train']), context=c)
    contexts = forward_contexts(net)
    if bwd:
        net.backward_pass()
    out = snapshot(net, bwd)
    # (a backward pass may use parts of it as scratch space)
    for i, x in enumerate(contexts):
        if x is not None:
            out['context %d' % i] = x
    return out


def run(plan, ctx):
    spec, n, T = plan['net'], plan['n'], plan['T']
    if n < 1 or T < 1 or (spec['mask'] and spec['decay']):
        raise BadPlan('sizes')
    if plan['train'] and set(zoo.names_in(spec)) & {'BN', 'DO'}:
        raise BadPlan('examples depend on each other')
    for b in plan['batches']:
        if not b['rows'] or min(b['rows']) < 0 or max(b['rows']) >= n or \
                b['pad'] < 0:
            raise BadPlan('rows')
    data = zoo.make_data(spec, T, n, plan['dseed'])
    ref = zoo.build(spec, seed=plan['seed'])
    P = ref.get('parameters')
    tol = tol_for(ref) * 10
    lengths = [T] * n
    valid = np.ones((T, n), dtype=bool)
    if spec['mask']:
        data['mask'] = make_mask(plan, T, n)
        valid = data['mask'][:, :, 0] != 0
        if plan['mask'] == 'tail':
            lengths = [int(v.sum()) for v in valid.T]
    c = None
    if plan['ctx']:
        pre = zoo.make_data(spec, 2, n, plan['dseed'] + 1)
        ref.provide_external_data(pre)
        ref.forward_pass()
        c = ref.get_context()
    single = []
    for i in range(n):
        cut = max(1, lengths[i])
        ref = zoo.build(spec, seed=plan['seed'])
        single.append(one_pass(
            ref, {k: v[:cut, i:i + 1] for k, v in data.items()}, plan,
            context_rows(c, [i]), plan['train']))
        if not zoo.tame(ref):
            ctx.tally('diverging network')
            return
    with world.device(poison=plan['poison'], pseed=plan['seed']):
        net = zoo.build(spec, seed=plan['seed'])
        for b in plan['batches']:
            rows, bwd = b['rows'], bool(b['bwd'] and plan['train'])
            history(net, spec, plan, ctx, b['ops'])
            zoo.set_params(net, P)
            batch = compose(plan, data, lengths, b)
            cc = context_rows(c, rows)
            ctx.event(rows, b['pad'], b['garbage'], bwd)
            if spec['mask']:
                ctx.fault('padding ' + b['garbage'])
            if b['abort'] is not None:
                world.DEV.faults = {world.DEV.n + b['abort']: True}
                try:
                    one_pass(net, batch, plan, cc, bwd)
                except world.INJECTED:
                    ctx.fault('aborted pass')
                finally:
                    world.DEV.faults = {}
            got = one_pass(net, batch, plan, cc, bwd)
            compare(plan, got, single, lengths, valid, batch, b, bwd, tol,
                    ctx)
            if len(rows) > 1 or b['pad']:
                ctx.nontrivial = True
            ctx.state(sorted(set(zoo.names_in(spec))), rows, b['pad'],
                      b['cut'], plan['mask'] if spec['mask'] else '', bwd,
                      plan['ctx'], [o[0] for o in b['ops']])
    if plan['poison']:
        ctx.fault('memory content ' + plan['poison'])


def compare(plan, got, single, lengths, valid, batch, b, bwd, tol, ctx):
    spec, rows = plan['net'], b['rows']
    B = len(rows)
    Tb = batch['default'].shape[0]
    where = 'batch of examples %s, %d steps' % (rows, Tb)
    for k in sorted(got):
        if k == 'parameters' or k == 'gradients' or k.startswith('loss '):
            if k == 'parameters':
                want = single[0][k]
            else:
                want = np.mean([single[i][k] for i in rows], axis=0)
            ctx.data(got[k])
            need(zoo.close(got[k], want, tol), 'batch-' + k.split()[0],
                 lambda: '%s: %s differs from the mean over the single '
                 'examples: %s' % (where, k, zoo.diff(got[k], want)))
            continue
        a = got[k]
        if a.ndim < 3 or a.shape[1] != B:
            continue            # (losses on parameters, total losses)
        if k.startswith('context'):
            if spec['mask']:
                continue        # (of the padding)
            for j, i in enumerate(rows):
                need(zoo.close(a[:, j], single[i][k][:, 0], tol),
                     'batch-context', lambda: '%s: the context of %s at '
                     'position %d is not that of example %d alone: %s' % (
                         where, k, j, i,
                         zoo.diff(a[:, j], single[i][k][:, 0])))
            continue
        delta = '.output_deltas.' in k
        if delta and k.split('.')[-1].startswith('mask'):
            continue        # (a derivative by the mask sees what it hides)
        if a.shape[0] != Tb:
            continue
        factor = B if delta else 1
        ctx.data(a)
        for j, i in enumerate(rows):
            s = single[i][k]
            steps = np.flatnonzero(valid[:, i][:lengths[i]])
            need(zoo.close(a[steps, j] * factor, s[steps, 0], tol),
                 'batch-' + ('delta' if delta else 'output'),
                 lambda: '%s: %s at position %d differs from that of '
                 'example %d alone: %s' % (
                     where, k, j, i,
                     zoo.diff(a[steps, j] * factor, s[steps, 0])))
            if delta:
                rest = np.array([t for t in range(Tb) if t >= len(valid) or
                                 not valid[t, i]], dtype=int)
                if zoo.is_recurrent(spec) and plan['mask'] == 'gaps':
                    # (earlier masked steps take part in later ones)
                    rest = rest[rest > (steps[-1] if len(steps) else -1)]
                need(not np.any(a[rest, j]), 'delta-of-padding',
                     lambda: '%s: %s at position %d is not zero at masked '
                     'steps' % (where, k, j))
