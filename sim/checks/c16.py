"""C16: processing a sequence in pieces equals processing it whole."""
import brainstorm as bs
import numpy as np
import world
import zoo
from brainstorm.tools import evaluate
from checks.c10 import gen_op, history
from checks.common import REAL_ALL, need, tol_for
from core import BadPlan

ID = 'C16'
QUICK = 5600
LEVEL = 'exploration'
RULE = ('Seeded networks (all recurrent kinds, mixed with the others), '
        'sequences and cuts into pieces; between the pieces the network '
        'does a seeded history of other work (other sizes, training, '
        'contexts, NaN data, aborted passes), pieces are repeated from the '
        'same context, run with backward passes in between, or continued by '
        'a second network. Outputs and summed losses are compared with one '
        'pass of a fresh network over the whole sequences; contexts have to '
        'stay as they were. Non-trivial: at least two pieces and a recurrent '
        'layer.')
MEASURE = 'distinct (layer kinds, piece lengths, work in between)'
REAL = REAL_ALL
STUB = ['content of freshly allocated memory', 'failing device operation']
ASSUMPTIONS = ['clockwork layers are cut at common multiples of their '
               'periods, see the known finding',
               'relative tolerance 1e-9 (float64) or 3e-4 (float32)']


def gen(rng, tier):
    train = rng.choice([0, 0, 1])
    while True:
        kinds = ['FC', 'REC', 'REC', 'LSTM', 'LSTM', 'LSTM', 'CW', 'CWL',
                 'NOOP', 'EL', 'HW', 'MERGE', 'CAT', 'TWIN']
        if not train:
            kinds += ['BN', 'DO']
        spec = zoo.gen_net(rng, kinds=kinds, maxdepth=4,
                           dtype=rng.choice(['float64'] * 4 + ['float32']))
        if rng.random() < 0.9 and not zoo.is_recurrent(spec):
            continue
        break
    spec['decay'], spec['ploss'] = [], []
    per = period(spec)
    pieces = [per * rng.randint(1, 3) for _ in range(rng.randint(1, 5))]
    between = []
    for _ in pieces:
        between.append([gen_op(rng) for _ in range(rng.choice([0, 0, 1,
                                                               2]))])
    return {'net': spec, 'seed': rng.randint(0, 10 ** 6),
            'B': rng.randint(1, 4), 'dseed': rng.randint(0, 10 ** 6),
            'pieces': pieces, 'between': between, 'train': train,
            'bwd': [rng.choice([0, 0, 1]) for _ in pieces],
            'again': [rng.choice([0, 0, 1]) for _ in pieces],
            'other': [rng.choice([0, 0, 0, 1]) for _ in pieces],
            'poison': rng.choice([None, 'nan', 'garbage'])}


def period(spec):
    per = 1
    for l in spec['layers']:
        if l[0] in ('CW', 'CWL'):
            for t in l[2]:
                per = int(np.lcm(per, t)) if t > 0 else per
    return per


def run(plan, ctx):
    spec = plan['net']
    B = plan['B']
    if not plan['pieces'] or min(plan['pieces']) < 1 or B < 1:
        raise BadPlan('pieces')
    for k in ('between', 'bwd', 'again', 'other'):
        plan[k] = plan[k] + [[] if k == 'between' else 0] * 9
    if plan['train'] and set(zoo.names_in(spec)) & {'BN', 'DO'}:
        raise BadPlan('pieces differ in batch statistics')
    T = sum(plan['pieces'])
    data = zoo.make_data(spec, T, B, plan['dseed'])
    path = zoo.output_path(spec)
    tr = bool(plan['train'])
    whole = zoo.build(spec, seed=plan['seed'])
    P = whole.get('parameters')
    whole.provide_external_data(data)
    whole.forward_pass(training_pass=tr)
    want = whole.get(path)
    wloss = whole.get_loss_values()['total_loss']
    wctx = whole.get_context()
    tol = tol_for(whole)
    if not zoo.tame(whole):
        ctx.tally('diverging network')
        return
    aligned = all(sum(plan['pieces'][:i + 1]) % period(spec) == 0
                  for i in range(len(plan['pieces']) - 1))
    sig = 'pieces-differ' if aligned else 'clockwork-phase'

    with world.device(poison=plan['poison'], pseed=plan['seed']):
        nets = [zoo.build(spec, seed=plan['seed']) for _ in range(2)]
        held = []
        c = None
        pos = 0
        loss = 0.
        for i, n in enumerate(plan['pieces']):
            net = nets[1 if plan['other'][i] else 0]
            piece = {k: v[pos:pos + n] for k, v in data.items()}
            for rep in range(2 if plan['again'][i] else 1):
                history(net, spec, plan, ctx, plan['between'][i])
                zoo.set_params(net, P)
                net.provide_external_data(piece)
                net.forward_pass(training_pass=tr, context=c)
                got = net.get(path)
                l = net.get_loss_values()['total_loss']
                if plan['bwd'][i]:
                    net.backward_pass()
                need(zoo.close(got, want[pos:pos + n], tol), sig,
                     lambda: 'piece %d (steps %d..%d of %d, repetition %d) '
                     'differs from the whole: %s' % (
                         i, pos, pos + n - 1, T, rep,
                         zoo.diff(got, want[pos:pos + n])))
                nc = net.get_context()
            loss += l
            ctx.data(got)
            c = nc
            pos += n
            held.append((c, [None if x is None else np.array(x)
                             for x in c]))
            for a, b in held:
                for x, y in zip(a, b):
                    need((x is None) == (y is None) and
                         (x is None or zoo.same(x, y)), 'context-changed',
                         'a context changed after it was returned')
        need(zoo.close(loss, wloss, tol * 10), sig.replace('pieces', 'losses'),
             lambda: 'the losses of the pieces sum to %r, that of the whole '
             'is %r' % (loss, wloss))
        # what follows is the same, wherever the context came from
        if T % period(spec) == 0:
            more = zoo.make_data(spec, 2, B, plan['dseed'] + 1)
            outs = []
            for net, cc in ((whole, wctx), (nets[0], c)):
                zoo.set_params(net, P)
                net.provide_external_data(more)
                net.forward_pass(training_pass=tr, context=cc)
                outs.append(net.get(path))
            need(zoo.close(outs[1], outs[0], tol), sig, lambda: 'what '
                 'follows after the last piece differs: %s'
                 % zoo.diff(outs[1], outs[0]))
        # without context everything starts from the zero state
        for net in nets:
            zoo.set_params(net, P)
            n = plan['pieces'][0]
            net.provide_external_data({k: v[:n] for k, v in data.items()})
            net.forward_pass(training_pass=tr)
            need(zoo.close(net.get(path), want[:n], tol), 'not-from-zero',
                 lambda: 'a pass without context does not start from the '
                 'zero state: %s' % zoo.diff(net.get(path), want[:n]))
    if plan['poison']:
        ctx.fault('memory content ' + plan['poison'])
    ctx.nontrivial = len(plan['pieces']) > 1 and zoo.is_recurrent(spec)
    ctx.event(plan['pieces'])
    ctx.state(sorted(set(zoo.names_in(spec))), plan['pieces'],
              [[o[0] for o in b] for b in plan['between']])
