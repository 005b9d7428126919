"""C15: augmenting data never alters the source and never accumulates."""
import brainstorm as bs
import numpy as np
from brainstorm import data_iterators as di
from brainstorm.data_iterators import DataIterator, Minibatches, Undivided
from checks.common import REAL_ALL, need
from core import BadPlan, Violation

ID = 'C15'
QUICK = 36000
LEVEL = 'exploration'
RULE = ('Seeded nestings of 1..5 augmenting iterators (noise, salt and '
        'pepper, flip, pad, crop, one hot, multi hot, seeded parameters and '
        'items) over minibatches or undivided data of several number types '
        'and memory layouts, with recording taps between them; a seeded '
        'schedule advances up to 4 passes in any interleaving, abandons '
        'some, and lets consumers change the delivered dictionaries. Each '
        'stage of each batch is compared with the declared transformation of '
        'its input, frequencies of random choices over all passes lie within '
        '6.5 standard deviations, source arrays and delivered batches stay '
        'unchanged, items have the announced shapes. Non-trivial: every run '
        'with at least two passes.')
MEASURE = 'distinct (nesting, base, number types, schedule)'
REAL = REAL_ALL
STUB = ['consumers of the passes', 'recording taps between the iterators']
ASSUMPTIONS = ['consumers do not write into delivered arrays (batches are '
               'windows into the source data)']


def gen(rng, tier):
    H, W = rng.randint(1, 5), rng.randint(1, 5)
    st = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 5])):
        k = rng.choice(['noise', 'salt', 'flip', 'pad', 'crop', 'onehot',
                        'multihot', 'noise', 'flip', 'crop'])
        keys = rng.choice([['default'], ['default'], ['img'],
                           ['default', 'img']])
        s = {'k': k, 'keys': keys, 'p': rng.choice([0., 0.2, 0.5, 0.9, 1.]),
             'std': rng.choice([0., 0.5, 2.]),
             'mean': rng.choice([None, 0., 1.5, -3.]),
             'ratio': rng.choice([None, 0., 0.25, 0.5, 1.]),
             'size': rng.choice([0, 1, 2]),
             'val': rng.choice([None, 0, 7, -2.5]),
             'ch': rng.randint(0, 11), 'cw': rng.randint(0, 11),
             'defaults': rng.choice([0, 0, 1])}
        st.append(s)
    npass = rng.randint(1, 4)
    return {'T': rng.randint(1, 3), 'n': rng.randint(1, 8), 'H': H, 'W': W,
            'C': rng.randint(1, 3), 'stages': st,
            'base': rng.choice(['mb', 'mb', 'mb', 'un']),
            'bs': rng.randint(1, 5), 'shuffle': rng.choice([0, 1]),
            'dtype': rng.choice(['float64', 'float64', 'float32', 'int64']),
            'layout': rng.choice(['C', 'C', 'C', 'F', 'T']),
            'mask': rng.choice([0, 1]),
            'npass': npass, 'long': rng.choice([0, 0, 0, 1]),
            'sched': [rng.randint(0, npass - 1)
                      for _ in range(rng.randint(0, 30))],
            'consumer': rng.choice(['keep', 'keep', 'clear', 'replace']),
            'seed': rng.randint(0, 10 ** 6)}


class Tap(DataIterator):
    """A user-defined iterator that passes the data through."""

    def __init__(self, it, log):
        DataIterator.__init__(self, it.data_shapes, it.length)
        self.it = it
        self.log = log

    def __call__(self, handler=None):
        for b in self.it(handler):
            self.log.append({k: np.array(v) for k, v in b.items()})
            yield b


def make_data(plan):
    T, n, H, W, C = [plan[k] for k in ('T', 'n', 'H', 'W', 'C')]
    if min(T, n, H, W, C) < 1 or plan['bs'] < 1 or plan['npass'] < 1 or \
            not plan['stages']:
        raise BadPlan('size')
    rs = np.random.RandomState(plan['seed'])
    dt = np.dtype(plan['dtype'])

    def image(off):
        # all values different and neither 0 nor 1
        a = (np.arange(T * n * H * W * C) + 10 + off).astype(dt)
        rs.shuffle(a)
        a = a.reshape(T, n, H, W, C)
        if plan['layout'] == 'F':
            a = np.asfortranarray(a)
        elif plan['layout'] == 'T':
            a = np.ascontiguousarray(a.transpose(0, 1, 4, 2, 3)).transpose(
                0, 1, 3, 4, 2)
        return a
    data = {'default': image(0), 'img': image(5000),
            'cls': rs.randint(0, 4, (T, n, 1)),
            'words': rs.randint(0, 5, (T, n, 3)),
            'targets': rs.standard_normal((T, n, 2))}
    if plan['mask']:
        m = np.ones((T, n, 1))
        for i in range(n):
            m[rs.randint(1, T + 1):, i] = 0
        data['mask'] = m
    return data


def build(plan, data, logs):
    if plan['base'] == 'un':
        it = Undivided(**data)
    else:
        it = Minibatches(plan['bs'], shuffle=bool(plan['shuffle']), **data)
    it.rnd.set_seed(plan['seed'])
    stages = []
    it = Tap(it, logs[0])
    hot = set()
    size = {x: (plan['H'], plan['W']) for x in ('default', 'img')}
    for n, s in enumerate(plan['stages']):
        k = s['k']
        keys = s['keys']
        if not keys:
            continue
        if k == 'onehot' and k in hot:
            try:
                di.OneHot(it, {'cls': 4})
            except di.IteratorValidationError:
                continue
            raise Violation('accepted-encoded', 'encoded data is accepted '
                            'for one hot encoding')
        if k == 'multihot' and k in hot:
            continue
        if k == 'noise':
            it = di.AddGaussianNoise(
                it, {x: s['std'] for x in keys},
                None if s['mean'] is None else {x: s['mean'] for x in keys})
        elif k == 'salt':
            it = di.AddSaltNPepper(
                it, {x: s['p'] for x in keys},
                None if s['ratio'] is None else {x: s['ratio'] for x in keys})
        elif k == 'flip':
            if s['defaults']:
                s = dict(s, keys=['default'], p=0.5)
                it = di.Flip(it)
            else:
                it = di.Flip(it, {x: s['p'] for x in keys})
        elif k == 'pad':
            it = di.Pad(it, {x: s['size'] for x in keys},
                        None if s['val'] is None else
                        {x: s['val'] for x in keys})
            for x in set(keys):
                size[x] = tuple(z + 2 * s['size'] for z in size[x])
        elif k == 'crop':
            # any size up to that of the images this iterator gets
            s = dict(s, ch=1 + s['ch'] % min(size[x][0] for x in keys),
                     cw=1 + s['cw'] % min(size[x][1] for x in keys))
            it = di.RandomCrop(it, {x: (s['ch'], s['cw']) for x in keys})
            for x in keys:
                size[x] = (s['ch'], s['cw'])
        elif k == 'onehot':
            it = di.OneHot(it, {'cls': 4})
            s = dict(s, keys=['cls'])
        elif k == 'multihot':
            it = di.MultiHot(it, {'words': 5})
            s = dict(s, keys=['words'])
        else:
            raise BadPlan(k)
        hot.add(k)
        it.rnd.set_seed(plan['seed'] + n + 1)
        stages.append(s)
        it = Tap(it, logs[len(stages)])
    return it, stages


class Stats(object):
    """Random choices of one stage over all passes."""

    def __init__(self):
        self.z = []
        self.hits = 0
        self.salt = 0
        self.n = 0
        self.off = []
        self.ambiguous = False


def stage(s, a, b, st, T):
    """b has to be the declared transformation of a"""
    k = s['k']
    need(sorted(a) == sorted(b), 'items', lambda: 'items %s -> %s'
         % (sorted(a), sorted(b)))
    for name in a:
        x, y = a[name], b[name]
        if name not in s['keys']:
            need(x.shape == y.shape and np.array_equal(x, y),
                 'undeclared-item', lambda: '%s changed %s' % (k, name))
            continue
        if k == 'noise':
            need(x.shape == y.shape, 'shape', 'noise changed the shape')
            m = s['mean'] or 0.
            if s['std'] == 0:
                need(np.allclose(y, x + m, 1e-6), 'noise',
                     'without deviation the noise is the mean')
            else:
                st.z.append(np.ravel((y - x - m) / s['std']))
        elif k == 'salt':
            need(x.shape == y.shape, 'shape', 'salt changed the shape')
            same = y == x
            one = (y == 1) & ~same
            zero = (y == 0) & ~same
            need(np.all(same | one | zero), 'salt',
                 'values other than salt or pepper')
            fresh = (x != 0) & (x != 1)     # (from an earlier stage)
            st.n += int(fresh.sum())
            st.hits += int((~same & fresh).sum())
            st.salt += int((one & fresh).sum())
        elif k == 'flip':
            need(x.shape == y.shape, 'shape', 'flip changed the shape')
            for i in range(x.shape[1]):
                eq = np.array_equal(x[:, i], y[:, i])
                fl = np.array_equal(x[:, i, :, ::-1], y[:, i])
                need(eq or fl, 'flip', lambda: 'example %d is neither '
                     'flipped nor unchanged' % i)
                if eq != fl:
                    st.n += 1
                    st.hits += fl
        elif k == 'pad':
            t, n, h, w, c = x.shape
            z = s['size']
            want = np.full((t, n, h + 2 * z, w + 2 * z, c),
                           float(s['val'] or 0))
            want[:, :, z:z + h, z:z + w] = x
            need(y.shape == want.shape and np.array_equal(y, want), 'pad',
                 'padding is wrong')
        elif k == 'crop':
            ch, cw = s['ch'], s['cw']
            t, n, h, w, c = x.shape
            need(y.shape == (t, n, ch, cw, c), 'crop', lambda:
                 'crop has the shape %s' % (y.shape,))
            for i in range(n):
                found = [(r, q) for r in range(h - ch + 1)
                         for q in range(w - cw + 1)
                         if np.array_equal(x[:, i, r:r + ch, q:q + cw],
                                           y[:, i])]
                need(found, 'crop', lambda: 'example %d of the crop is no '
                     'window of the image' % i)
                if len(found) > 1:
                    st.ambiguous = True     # (of padded images)
                else:
                    st.off.append((found[0], h - ch, w - cw))
        elif k == 'onehot':
            want = np.zeros(x.shape[:2] + (4,))
            for t in range(x.shape[0]):
                for i in range(x.shape[1]):
                    want[t, i, x[t, i, 0]] = 1
            need(y.shape == want.shape and np.array_equal(y, want), 'onehot',
                 'wrong encoding')
        elif k == 'multihot':
            want = np.zeros(x.shape[:2] + (5,))
            for t in range(x.shape[0]):
                for i in range(x.shape[1]):
                    want[t, i, x[t, i]] = 1
            need(y.shape == want.shape and np.array_equal(y, want),
                 'multihot', 'wrong encoding')


def frequency(hits, n, p, what):
    if p in (0., 1.):
        need(hits == p * n, 'frequency', lambda: '%s: %d of %d for '
             'probability %s' % (what, hits, n, p))
    elif n * p * (1 - p) > 9:
        dev = abs(hits - n * p) / np.sqrt(n * p * (1 - p))
        need(dev < 6.5, 'frequency', lambda: '%s: %d of %d for probability '
             '%s' % (what, hits, n, p))


def statistics(s, st):
    if s['k'] == 'noise' and st.z:
        z = np.concatenate(st.z)
        if z.size >= 4:
            need(len(np.unique(z)) > 1, 'noise', 'all noise is equal')
        if z.size >= 100:
            need(abs(z.mean()) < 6.5 / np.sqrt(z.size), 'noise-mean',
                 lambda: 'mean of the normalised noise is %r (%d values)'
                 % (z.mean(), z.size))
            need(abs(z.var() - 1) < 6.5 * np.sqrt(2. / z.size) +
                 20. / z.size, 'noise-deviation', lambda: 'variance of the '
                 'normalised noise is %r (%d values)' % (z.var(), z.size))
        if len(st.z) > 1:
            for i in range(len(st.z) - 1):
                a, b = st.z[i], st.z[i + 1]
                if a.size >= 3 and a.size == b.size:
                    need(not np.allclose(a, b, atol=1e-9), 'repeated-noise',
                         'the same noise is used again')
    elif s['k'] == 'salt':
        r = 0.5 if s['ratio'] is None else s['ratio']
        frequency(st.hits, st.n, s['p'], 'affected values')
        frequency(st.salt, st.hits, r, 'salt')
    elif s['k'] == 'flip':
        frequency(st.hits, st.n, s['p'], 'flips')
    elif s['k'] == 'crop' and not st.ambiguous:
        for axis in (0, 1):
            groups = {}
            for o in st.off:
                groups.setdefault(o[1 + axis], []).append(o[0][axis])
            for mx, got in groups.items():
                for v in range(mx + 1):
                    frequency(got.count(v), len(got), 1. / (mx + 1),
                              'crop offset %d of 0..%d' % (v, mx))


def run(plan, ctx):
    data = make_data(plan)
    keep = {k: v.copy() for k, v in data.items()}
    logs = [[] for _ in range(len(plan['stages']) + 1)]
    it, stages = build(plan, data, logs)
    n = plan['n']
    bs_ = plan['bs'] if plan['base'] == 'mb' else n
    nb = -(-n // bs_)
    need(it.length == nb, 'length', 'announces %s batches' % it.length)
    stats = [Stats() for _ in stages]
    gens, count, order = {}, {}, []
    delivered = []
    sched = [s for s in plan['sched'] if s < plan['npass']]
    sched += [i for i in range(plan['npass']) if i % 2 == 0
              for _ in range(nb + 1)]
    if plan['long']:
        sched += [100 + i for i in range(25) for _ in range(nb + 1)]
    ended = set()
    for p in sched:
        if p in ended:
            continue
        if p not in gens:
            gens[p] = it(None)
            count[p] = []
        marks = [len(l) for l in logs]
        try:
            b = next(gens[p])
        except StopIteration:
            ended.add(p)
            need(len(count[p]) == nb, 'incomplete', 'a pass has %d of %d '
                 'batches' % (len(count[p]), nb))
            continue
        new = [l[m:] for l, m in zip(logs, marks)][:len(stages) + 1]
        need(all(len(x) == 1 for x in new), 'stages', 'a stage produced %s '
             'batches for one' % [len(x) for x in new])
        first = new[0][0]
        # the innermost data is a window of the original data
        found = None
        for i in range(nb):
            if i in count[p]:
                continue
            lo, hi = i * bs_, min(n, (i + 1) * bs_)
            T = first['default'].shape[0]
            if all(np.array_equal(first[k], keep[k][:T, lo:hi])
                   for k in keep):
                found = i
                break
        need(found is not None, 'accumulates', 'the iterator starts from '
             'data that is not the original data')
        count[p].append(found)
        for s, a, c, st in zip(stages, new, new[1:], stats):
            stage(s, a[0], c[0], st, plan['T'])
        for k in b:
            y, z = b[k].shape, tuple(it.data_shapes[k])
            need(y[2:] == z[2:] and z[1] == n and y[0] <= z[0],
                 'announced-shape', lambda: 'announces items %s of shape %s '
                 'and delivers %s' % (k, z, y))
        ctx.event(p, found)
        ctx.data(np.asarray(b['default'], float))
        delivered.append((dict(b), {k: np.array(v) for k, v in b.items()}))
        if plan['consumer'] == 'clear':
            b.clear()
        elif plan['consumer'] == 'replace':
            for k in list(b):
                b[k] = None
            b['more'] = 1
    for k in keep:
        need(data[k].dtype == keep[k].dtype and
             np.array_equal(data[k], keep[k]), 'source-modified',
             lambda: 'the source data %s was modified' % k)
    for arrs, copy in delivered:
        for k in copy:
            need(np.array_equal(arrs[k], copy[k]), 'delivered-modified',
                 lambda: 'a delivered batch (%s) was modified later' % k)
    for s, st in zip(stages, stats):
        statistics(s, st)
        ctx.tally('stage ' + s['k'])
    ctx.fault('abandoned pass', len(gens) - len(ended))
    ctx.nontrivial = len(gens) > 1
    ctx.state([s['k'] for s in stages], plan['base'], plan['dtype'],
              plan['layout'], sched[:30])
