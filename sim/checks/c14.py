"""C14: every pass delivers every example exactly once, correctly paired."""
import brainstorm as bs
import numpy as np
import world
from brainstorm import layers as L
from brainstorm.data_iterators import Minibatches, Undivided
from brainstorm.handlers import NumpyHandler
from brainstorm.tools import evaluate, shuffle_data, split
from brainstorm.training.utils import run_network
from checks.common import REAL_ALL, Probe, need, trainer
from core import BadPlan

ID = 'C14'
QUICK = 40000
LEVEL = 'exploration'
RULE = ('Iterators over data in which every value identifies its example, '
        'time step and item: seeded sizes, masks (with gaps, empty and full '
        'sequences), ways of cutting, dtypes, shuffling. A seeded schedule '
        'advances up to 6 passes of 1..2 iterators over the same data in any '
        'interleaving, abandons some, lets consumers fail, and routes passes '
        'through plain iteration, a network, training (aborted and repeated) '
        'and evaluation. Every batch of every pass is checked against the '
        'model. Non-trivial: at least two passes, or a failure.')
MEASURE = 'distinct (sizes, mask kind, cutting, schedule of passes)'
REAL = REAL_ALL
STUB = ['consumers of the passes', 'failing device operation']
ASSUMPTIONS = []


def gen(rng, tier):
    n = rng.randint(1, 12)
    T = rng.randint(1, 6)
    if rng.random() < 0.02:
        n, T = rng.randint(13, 600), rng.randint(1, 2)
    its = []
    for _ in range(rng.choice([1, 1, 2])):
        its.append({'kind': rng.choice(['mb'] * 6 + ['un']),
                    'bs': rng.choice([1, 2, 3, 4, 5, n, n + 2,
                                      rng.randint(1, n)] if n < 13 else
                                     [n - 1, n // 2, n // 3 + 1, 100, 128,
                                      rng.randint(13, n)]),
                    'shuffle': rng.choice([0, 1]),
                    'cut': rng.choice(['mask', 'mask', 'mask', 'none',
                                       'list', 'extra', 'missing']),
                    'seed': rng.randint(0, 9999)})
    npass = rng.randint(1, 6)
    passes = [{'it': rng.randint(0, 1), 'via': rng.choice(
        ['plain', 'plain', 'plain', 'net', 'trainer', 'evaluate', 'handler']),
        'fail': rng.choice([None, None, None, rng.randint(0, 4)])}
        for _ in range(npass)]
    sched = [rng.randint(0, npass - 1) for _ in range(rng.randint(0, 40))]
    return {'n': n, 'T': T, 'its': its, 'passes': passes, 'sched': sched,
            'mask': rng.choice(['none', 'ones', 'tail', 'tail', 'gaps',
                                'empty']),
            'dtype': rng.choice(['float64', 'float32', 'int']),
            'mtype': rng.choice(['float64', 'float64', 'float32', 'bool',
                                 'uint8', 'int32']),
            'mseed': rng.randint(0, 10 ** 6),
            'order': rng.choice([0, 1]),
            'ratios': [rng.choice([1, 1, 2, 3, 9, 0.5])
                       for _ in range(rng.choice([0, 0, 2, 3]))],
            'shuf': rng.choice([None, None, rng.randint(0, 999)])}


def make(plan):
    n, T = plan['n'], plan['T']
    if n < 1 or T < 1:
        raise BadPlan('size')
    rs = np.random.RandomState(plan['mseed'])
    t = np.arange(T)[:, None, None]
    b = np.arange(n)[None, :, None]
    code = (b * 100 + t).astype(float)
    dt = {'float64': np.float64, 'float32': np.float32,
          'int': np.int64}[plan['dtype']]
    data = {'default': np.concatenate([code, code + 10000], 2).astype(dt),
            'targets': (code + 20000).astype(dt),
            'image': np.broadcast_to(
                (code + 30000)[..., None], (T, n, 2, 2)).astype(dt)}
    m = np.ones((T, n, 1))
    kind = plan['mask']
    lens = rs.randint(1, T + 1, n)
    if kind in ('tail', 'gaps', 'empty'):
        for i in range(n):
            m[lens[i]:, i] = 0
    if kind == 'gaps':
        m *= rs.randint(0, 2, m.shape)
    if kind == 'empty':
        m[:, rs.randint(0, n)] = 0
    if plan['mtype'].startswith('f'):
        m *= rs.choice([1., 1., 0.5, 2.], m.shape)
    if kind != 'none':
        data['mask'] = m.astype(plan['mtype'])
    extra = np.zeros((T, n, 1))
    xl = rs.randint(1, T + 1, n)
    for i in range(n):
        extra[:xl[i], i] = 3.5
    data['extra'] = extra
    ks = sorted(data, reverse=bool(plan['order']))
    return {k: data[k] for k in ks}, rs.randint(0, T + 1, n)


def lengths(m):
    out = []
    for i in range(m.shape[1]):
        nz = np.nonzero(m[:, i, 0])[0]
        out.append(nz[-1] + 1 if len(nz) else 0)
    return out


class Model(object):
    def __init__(self, p, plan, data, lst):
        self.p = p
        self.data = data
        n, T = plan['n'], plan['T']
        if p['kind'] == 'un':
            self.it = Undivided(**data)
            self.bs, self.nb, self.lens = n, 1, [T] * n
            return
        if p['bs'] < 1:
            raise BadPlan('bs')
        cut = p['cut']
        kw = {}
        if cut == 'list':
            kw['cut_according_to'] = [int(x) for x in lst]
            self.lens = list(lst)
        elif cut == 'none':
            kw['cut_according_to'] = None
            self.lens = [T] * n
        elif cut == 'missing':
            kw['cut_according_to'] = 'nosuchname'
            self.lens = [T] * n
        elif cut == 'extra':
            kw['cut_according_to'] = 'extra'
            self.lens = lengths(data['extra'])
        else:
            self.lens = lengths(data['mask']) if 'mask' in data else [T] * n
        self.it = Minibatches(p['bs'], shuffle=bool(p['shuffle']),
                              **dict(data, **kw))
        self.it.rnd.set_seed(p['seed'])
        self.bs = p['bs']
        self.nb = -(-n // p['bs'])
        need(self.it.length == self.nb, 'length', lambda:
             'announces %s batches instead of %d' % (self.it.length,
                                                     self.nb))
        need({k: tuple(v) for k, v in self.it.data_shapes.items()} ==
             {k: v.shape for k, v in data.items()}, 'shapes',
             'announced shapes are wrong')

    def check(self, batch, seen, names=None):
        """batch is one that the model allows after those in seen"""
        names = names or sorted(self.data)
        need(sorted(batch) == sorted(names), 'items',
             lambda: 'batch has the items %s' % sorted(batch))
        n = self.data['default'].shape[1]
        d = np.asarray(batch['default'])
        size = d.shape[1]
        T = d.shape[0]
        if self.p['kind'] == 'mb' and self.p['shuffle']:
            cands = [i for i in range(self.nb) if i not in seen]
        else:
            cands = [len(seen)]
        for i in cands:
            lo, hi = i * self.bs, min(n, (i + 1) * self.bs)
            cut = max(self.lens[lo:hi]) if lo < hi else 0
            if all(np.shape(batch[k]) == np.shape(self.data[k][:cut, lo:hi])
                   and np.all(np.asarray(batch[k]) ==
                              self.data[k][:cut, lo:hi]) for k in names):
                return i
        need(False, 'wrong-batch', lambda: 'batch %d of a pass (examples %s, '
             '%d steps, sizes %s) is none of the batches %s still missing'
             % (len(seen), sorted(set((d[0, :, 0] // 100).astype(int)))
                if T else '-', T, {k: np.shape(v) for k, v in batch.items()},
                cands))


def tiny_net(names, data):
    inp = L.Input(out_shapes={k: ('T', 'B') + data[k].shape[2:]
                              for k in names})
    fc = L.FullyConnected(1, activation='linear', name='fc')
    se = L.SquaredError(name='se')
    inp >> fc >> se
    inp - 'targets' >> 'targets' - se
    se - 'loss' >> L.Loss(name='loss')
    net = bs.Network.from_layer(inp)
    net.set_handler(NumpyHandler(np.float64))
    net.initialize(default=0., seed=1)
    return net


class Boom(Exception):
    pass


class Recorder(object):
    """stands for an iterator whose batches are written down"""

    def __init__(self, it):
        self.it = it
        self.data_shapes, self.length = it.data_shapes, it.length
        self.log = []

    def __call__(self, handler):
        for b in self.it(handler):
            self.log.append({k: np.array(v) for k, v in b.items()})
            yield b


def run(plan, ctx):
    data, lst = make(plan)
    keep = {k: v.copy() for k, v in data.items()}
    if not plan['its'] or not plan['passes']:
        raise BadPlan('empty')
    models = [Model(p, plan, data, lst) for p in plan['its']]
    # (networks are only fed batches of at least one time step)
    nonzero = [min(m.lens) > 0 for m in models]
    net = tiny_net(sorted(data), data)
    state = []
    orders = {}
    for n, p in enumerate(plan['passes']):
        mi = p['it'] % len(models)
        m = models[mi]
        via = p['via'] if nonzero[mi] else 'plain'
        h = net.handler if via != 'plain' else None
        gen = m.it(h)
        state.append({'m': m, 'mi': mi, 'gen': gen, 'seen': [],
                      'done': False, 'via': via, 'fail': p['fail']})
    sched = [s for s in plan['sched'] if s < len(state)]
    # afterwards every pass that was not abandoned runs to its end
    ctx.event(plan["n"], plan["T"], plan["mask"], plan["its"])
    tail = [i for i in range(len(state)) if i % 2 == 0
            for _ in range(plan['n'] + 2)]
    starts = set()
    for s in sched + tail:
        st = state[s]
        if st['done']:
            continue
        m = st['m']
        starts.add(s)
        if st['via'] in ('trainer', 'evaluate') and not st['seen']:
            whole(st, m, net, ctx, orders)
            st['done'] = True
            continue
        try:
            b = next(st['gen'])
        except StopIteration:
            st['done'] = True
            need(len(st['seen']) == m.nb, 'incomplete-pass', lambda:
                 'pass %d ended after %d of %d batches'
                 % (s, len(st['seen']), m.nb))
            orders.setdefault(st['mi'], []).append(tuple(st['seen']))
            ctx.tally('complete passes')
            continue
        need(len(st['seen']) < m.nb, 'too-many-batches', lambda:
             'pass %d delivers more than %d batches' % (s, m.nb))
        i = m.check(b, st['seen'])
        ctx.event(s, i)
        st['seen'].append(i)
        if st['via'] == 'net' and b['default'].shape[0]:
            net.provide_external_data(b)
            got = {k: net.get_input(k) for k in data}
            m.check(got, st['seen'][:-1])
        if st['fail'] is not None and len(st['seen']) == st['fail'] + 1:
            try:
                st['gen'].throw(Boom())
            except Boom:
                pass
            except StopIteration:
                pass
            st['done'] = True
            ctx.fault('consumer failed')
    ctx.fault('abandoned pass', sum(1 for st in state if not st['done']))
    ctx.nontrivial = len(starts) > 1
    for k in keep:
        need(np.array_equal(keep[k], data[k]), 'data-modified',
             'the pass modified the data ' + k)
    for mi, o in orders.items():
        m = models[mi]
        if m.p['kind'] == 'mb' and m.p['shuffle'] and m.nb >= 6 and \
                len(o) >= 4:
            need(len(set(o)) > 1, 'not-shuffled', 'all passes have the same '
                 'order')
    tools(plan, data, ctx)
    ctx.state(plan['n'], plan['T'], plan['mask'], [p['cut'] for p in
                                                   plan['its']],
              [p['bs'] for p in plan['its']], sched)


def whole(st, m, net, ctx, orders):
    """A whole pass through the trainer or evaluate."""
    rec = Recorder(m.it)
    if st['via'] == 'evaluate':
        fail = st['fail']
        if fail is not None:
            world.DEV.faults = {world.DEV.n + fail * 3: True}
        try:
            evaluate(net, rec)
        except world.INJECTED:
            ctx.fault('failed evaluation')
            fill(rec, m, partial=True)
            rec.log = []
            evaluate(net, rec)
        finally:
            world.DEV.faults = {}
        fill(rec, m)
        return
    fed = []

    def see(epoch, update, net, stepper, logs):
        if update:
            fed.append({k: net.get_input(k) for k in m.data})
            if st['fail'] is not None and len(fed) == st['fail'] + 1:
                st['fail'] = None
                raise Boom()
    t = trainer(bs.training.SgdStepper(0.), [
        Probe(see, 'see', 'update', 1), bs.hooks.StopAfterEpoch(2)])
    try:
        t.train(net, rec)
    except Boom:
        ctx.fault('failed training')
        fill(rec, m, partial=True)
        rec.log, fed[:] = [], []
        t.hooks['StopAfterEpoch'].max_epochs = t.current_epoch_nr + 1
        t.train(net, rec)
    # the network was fed exactly what the iterator delivered
    k = len(rec.log)
    got = [f for f in fed][-k:] if k else []
    need(len(got) == k, 'not-trained', lambda: 'the iterator delivered %d '
         'batches, the network was trained on %d' % (k, len(got)))
    for a, b in zip(rec.log, got):
        for x in a:
            need(np.array_equal(np.asarray(a[x], float),
                                np.asarray(b[x], float)), 'wrong-training-'
                 'data', 'the network was trained on other data')
    need(k > 0 and k % m.nb == 0, 'incomplete-pass', lambda:
         'training consumed %d batches, an epoch has %d' % (k, m.nb))
    for e in range(0, k, m.nb):
        r = Recorder(m.it)
        r.log = rec.log[e:e + m.nb]
        fill(r, m)


def fill(rec, m, partial=False):
    seen = []
    for b in rec.log:
        if partial and len(seen) == m.nb:
            seen = []       # the next epoch
        seen.append(m.check(b, seen))
    if not partial:
        need(len(seen) == m.nb, 'incomplete-pass', lambda:
             '%d of %d batches' % (len(seen), m.nb))


def tools(plan, data, ctx):
    ks = sorted(data)
    arrs = [data[k] for k in ks]
    if plan['shuf'] is not None:
        out = shuffle_data(*(arrs + [None]), seed=plan['shuf'])
        need(out[-1] is None and len(out) == len(arrs) + 1, 'shuffle',
             'None does not stay')
        out = dict(zip(ks, out))
        ids = (out['default'][0, :, 0] // 100).astype(int)
        need(sorted(ids) == list(range(plan['n'])), 'shuffle',
             'shuffling lost examples')
        for k in ks:
            need(np.array_equal(out[k], data[k][:, ids]), 'shuffle',
                 'items are not shuffled together: ' + k)
    if len(plan['ratios']) > 1 and min(plan['ratios']) > 0:
        r = plan['ratios']
        parts = split(*(arrs + [None]), ratios=r)
        need(len(parts) == len(r), 'split', 'wrong number of parts')
        for j, k in enumerate(ks):
            need(np.array_equal(np.concatenate([p[j] for p in parts], 1),
                                data[k]), 'split', 'parts of %s do not make '
                 'up the data' % k)
        for p, x in zip(parts, r):
            need(p[-1] is None, 'split', 'None does not stay')
            need(abs(p[0].shape[1] - plan['n'] * x / float(sum(r))) <= 1.,
                 'split', lambda: 'part has %d examples for ratio %s of %s'
                 % (p[0].shape[1], x, r))
            need(len({a.shape[1] for a in p[:-1]}) == 1, 'split',
                 'items are split differently')
