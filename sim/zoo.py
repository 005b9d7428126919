"""Networks, data and modifiers generated from JSON plans (public API only)."""
import numpy as np

import brainstorm as bs
from brainstorm import layers as L
from brainstorm.handlers import NumpyHandler
from core import BadPlan

ACTS = ['linear', 'tanh', 'sigmoid', 'rel', 'el']
SMOOTH = ['linear', 'tanh', 'sigmoid', 'el']
RECURRENT = ('REC', 'LSTM', 'CW', 'CWL')


# ------------------------------- generation ------------------------------- #

def gen_net(rng, kinds=None, conv=None, mask=None, maxdepth=4, smooth=False,
            loss=None, random_layers=True, dtype=None, extras=True):
    """A random network specification."""
    acts = SMOOTH if smooth else ACTS
    conv = rng.random() < 0.2 if conv is None else conv
    spec = {}
    if conv:
        spec['in'] = [rng.choice([3, 4, 5]), rng.choice([3, 4, 5]),
                      rng.choice([1, 2])]
    else:
        spec['in'] = [rng.randint(1, 4)]
    names = kinds or ['FC', 'FC', 'REC', 'REC', 'LSTM', 'LSTM', 'CW', 'CWL',
                      'BN', 'DO', 'NOOP', 'EL', 'HW', 'MERGE', 'CAT', 'TWIN',
                      'SQD', 'MSK']
    if not random_layers:
        names = [n for n in names if n != 'DO']
    ls = []
    if conv:
        feat = tuple(spec['in'])
        for _ in range(rng.randint(1, 2)):
            if extras and rng.random() < 0.2:
                l = ['MSK', rng.choice(['step', 'pixel', 'full'])]
                new = feat
            elif not ls or rng.random() < 0.6:
                l = ['CONV', rng.randint(1, 2), rng.randint(1, 2),
                     rng.choice([0, 0, 1]), rng.randint(1, 2),
                     rng.choice(acts)]
                new = _convshape(feat, l[1], l[2], l[3], l[4])
            else:
                l = ['POOL', rng.choice(['avg'] if smooth else
                                        ['max', 'avg']),
                     2, rng.choice([0, 1]), rng.randint(1, 2)]
                new = _convshape(feat, feat[2], l[2], l[3], l[4])
            if min(new) >= 1:
                ls.append(l)
                feat = new
    for _ in range(rng.randint(0 if conv else 1, max(1, maxdepth - len(ls)))):
        k = rng.choice(names)
        size = rng.randint(1, 4)
        act = rng.choice(acts)
        if k == 'FC':
            ls.append(['FC', size, act])
        elif k == 'REC':
            ls.append(['REC', size, rng.choice(['tanh', 'sigmoid', 'linear'])])
        elif k == 'LSTM':
            ls.append(['LSTM', size, rng.choice(['tanh', 'tanh', 'linear'])])
        elif k in ('CW', 'CWL'):
            ls.append([k, size, [rng.choice([1, 2, 3]) for _ in range(size)]])
        elif k == 'BN':
            ls.append(['BN', rng.choice([0.9, 0.5])])
        elif k == 'DO':
            ls.append(['DO', rng.choice([0.2, 0.5, 0.5, 0.8, 0.8, 0.])])
        elif k == 'EL':
            ls.append(['EL', act])
        elif k == 'MSK':
            ls.append(['MSK', rng.choice(['step', 'pixel', 'full'])])
        elif k in ('NOOP', 'HW'):
            ls.append([k])
        elif k == 'CAT':
            ls.append([k, size, rng.randint(1, 3), act,
                       rng.choice(['FC', 'FC', 'REC', 'LSTM', 'bREC', 'bLSTM']
                                  if 'REC' in names else ['FC'])])
        else:
            ls.append([k, size, rng.randint(1, 3), act])
    spec['layers'] = ls
    spec['loss'] = loss or rng.choice(['SE', 'SE', 'SCE', 'SIG', 'BCE', 'SQD'])
    spec['out'] = rng.randint(1, 3) if spec['loss'] != 'SCE' else \
        rng.randint(2, 4)
    spec['mask'] = (rng.random() < 0.35) if mask is None else mask
    spec['importance'] = rng.choice([1.0, 1.0, 0.5, 2.0])
    spec['decay'] = []
    spec['ploss'] = []
    if extras and rng.random() < 0.25:
        spec['decay'].append([rng.choice(['L2'] if smooth else ['L1', 'L2']),
                              rng.choice([0.01, 0.3])])
    if extras and rng.random() < 0.2:
        spec['ploss'].append(rng.choice([0.5, 0.1]))
    spec['dtype'] = dtype or 'float64'
    return spec


def names_in(spec):
    return [l[0] for l in spec['layers']]


def is_recurrent(spec):
    return any(l[0] in RECURRENT or l[0] == 'CAT' and
               l[4:5] not in ([], ['FC']) for l in spec['layers'])


def is_random(spec):
    return 'DO' in names_in(spec)


def is_clockwork(spec):
    return any(n in ('CW', 'CWL') for n in names_in(spec))


# ------------------------------- construction ----------------------------- #

INITS = ['gauss', 'uniform', 'number', 'fanin', 'faninout', 'sparse',
         'sparseout', 'orth', 'walk', 'echo', 'ident']


def make_init(kind):
    I = bs.initializers
    if kind is None:
        return {}
    if kind == 'gauss':
        return {'default': I.Gaussian(0.4, 0.05)}
    if kind == 'uniform':
        return {'default': I.Uniform(-0.4, 0.6)}
    if kind == 'number':
        return {'default': 0.25}
    d = {'fanin': I.DenseSqrtFanIn(), 'faninout': I.DenseSqrtFanInOut(),
         'sparse': I.SparseInputs(I.Gaussian(0.7), connections=2),
         'sparseout': I.SparseOutputs(I.Uniform(0.7), connections=2),
         'orth': I.Orthogonal(), 'walk': I.RandomWalk(),
         'echo': I.EchoState(0.9), 'ident': I.Identity(0.5)}
    return {'default': d[kind], 'fallback': I.Gaussian(0.3)}


def build(spec, handler=None, seed=7, init=True, default=None, order=None,
          init_kind=None):
    """Build the network described by spec and initialise it."""
    try:
        net, inits = _build(spec)
    except Exception as e:
        if type(e).__name__ in ('LayerValidationError',
                                'NetworkValidationError',
                                'StructureValidationError'):
            raise BadPlan(str(e))
        raise
    net.set_handler(handler or NumpyHandler(np.dtype(spec['dtype']).type,
                                            seed=seed + 1000))
    if init:
        d = dict(inits)
        d['default'] = default or bs.initializers.Gaussian(0.5)
        if 'CONV' in names_in(spec) and init_kind not in ('uniform',
                                                          'number'):
            init_kind = 'gauss' if init_kind else None
        d.update(make_init(init_kind))
        net.initialize(d, seed=seed)
    return net


def _build(spec):
    inp, inits = graph(spec)
    net = bs.Network.from_layer(inp)
    net.output_name = output_path(spec)
    return net, inits


def graph(spec):
    shape = tuple(spec['in'])
    if not shape or min(shape) < 1 or spec['out'] < 1:
        raise BadPlan('shape')
    out = spec['out']
    t_out = 1 if spec['loss'] == 'SCE' else out
    ins = {'default': ('T', 'B') + shape, 'targets': ('T', 'B', t_out)}
    if spec['mask']:
        ins['mask'] = ('T', 'B', 1)
    for n, s in hidden_masks(spec):
        ins[n] = ('T', 'B') + s
    inp = L.Input(out_shapes=ins)
    inits = {}
    cur = [(inp, None)]     # list of (wrapper, output name)
    feat = shape

    def wire(dest, name=None):
        for src, o in cur:
            s = src - o if o else src
            if name:
                s >> name - dest
            else:
                s >> dest

    wpath = None
    flat = int(np.prod(feat))
    for i, l in enumerate(spec['layers']):
        k = l[0]
        n = 'h%d' % i
        if k == 'FC':
            x = L.FullyConnected(l[1], activation=l[2], name=n)
            wire(x)
            feat = (l[1],)
            wpath = wpath or x
        elif k == 'REC':
            x = L.Recurrent(l[1], activation=l[2], name=n)
            wire(x)
            feat = (l[1],)
            wpath = wpath or x
        elif k == 'LSTM':
            x = L.Lstm(l[1], activation=l[2], name=n)
            wire(x)
            feat = (l[1],)
        elif k in ('CW', 'CWL'):
            mk = L.Clockwork if k == 'CW' else L.ClockworkLstm
            x = mk(l[1], name=n)
            wire(x)
            feat = (l[1],)
            if len(l[2]) != l[1] or min(l[2] + [1]) < 1:
                raise BadPlan('timing')
            inits[n] = {'timing': [float(v) for v in l[2]],
                        'default': bs.initializers.Gaussian(0.5)}
        elif k == 'BN':
            x = L.BatchNorm(name=n, decay=l[1])
            wire(x)
            inits[n] = {'gamma': bs.initializers.Uniform(0.5, 1.5),
                        'beta': 0.1, 'mu': 0.2, 'sigma': 1.3}
        elif k == 'DO':
            x = L.Dropout(drop_prob=l[1], name=n)
            wire(x)
        elif k == 'EL':
            x = L.Elementwise(l[1], name=n)
            wire(x)
        elif k == 'NOOP':
            x = L.NoOp(name=n)
            wire(x)
        elif k == 'MSK':
            x = L.Mask(name=n)
            if len(cur) > 1:
                # (only layers with weights can take several inputs)
                y = L.FullyConnected(feat[0], activation='linear',
                                     name=n + '_m')
                wire(y)
                cur = [(y, None)]
            wire(x)
            inp - ('mask_' + n) >> 'mask' - x
        elif k == 'DS':
            x = L.DeltasScaling(l[1], name=n)
            wire(x)
        elif k == 'HW':
            flat = int(np.prod(feat))
            xin = L.FullyConnected(flat, activation='linear', name=n + '_x')
            wire(xin)
            a = L.FullyConnected(flat, activation='tanh', name=n + '_h')
            b = L.FullyConnected(flat, activation='sigmoid', name=n + '_t')
            x = L.Highway(name=n)
            xin >> a >> 'H' - x
            xin >> b >> 'T' - x
            xin >> 'x' - x
            feat = (flat,)
        elif k == 'MERGE':
            a = L.FullyConnected(l[1], activation=l[3], name=n + '_a')
            b = L.FullyConnected(l[2], activation='tanh', name=n + '_b')
            wire(a)
            wire(b)
            x = L.Merge(name=n)
            a >> 'inputs_1' - x
            b >> 'inputs_2' - x
            feat = (l[1] + l[2],)
        elif k == 'CAT':
            # two layers feeding the same input are concatenated
            two = []
            for s, size, act, mark in (('_a', l[1], l[3], ''),
                                       ('_b', l[2], 'tanh', 'b')):
                if l[4:5] == [mark + 'REC']:
                    two.append(L.Recurrent(size, activation='tanh',
                                           name=n + s))
                elif l[4:5] == [mark + 'LSTM']:
                    two.append(L.Lstm(size, name=n + s))
                else:
                    two.append(L.FullyConnected(size, activation=act,
                                                name=n + s))
            a, b = two
            wire(a)
            wire(b)
            cur = [(a, None), (b, None)]
            feat = (l[1] + l[2],)
            continue
        elif k == 'TWIN':
            # one output used twice (fan-out): the deltas have to add up
            a = L.FullyConnected(l[1], activation=l[3], name=n + '_a')
            wire(a)
            b = L.FullyConnected(l[2], activation='tanh', name=n + '_b')
            c = L.FullyConnected(l[2], activation='linear', name=n + '_c')
            a >> b
            a >> c
            x = L.Merge(name=n)
            b >> 'inputs_1' - x
            c >> 'inputs_2' - x
            feat = (2 * l[2],)
        elif k == 'SQD':
            a = L.FullyConnected(l[1], activation=l[3], name=n + '_a')
            b = L.FullyConnected(l[1], activation='tanh', name=n + '_b')
            wire(a)
            wire(b)
            x = L.SquaredDifference(name=n)
            a >> 'inputs_1' - x
            b >> 'inputs_2' - x
            feat = (l[1],)
        elif k == 'CONV':
            if len(feat) != 3:
                raise BadPlan('conv')
            x = L.Convolution2D(l[1], (l[2], l[2]), stride=(l[4], l[4]),
                                padding=l[3], activation=l[5], name=n)
            wire(x)
            feat = _convshape(feat, l[1], l[2], l[3], l[4])
            wpath = wpath or x
        elif k == 'POOL':
            if len(feat) != 3:
                raise BadPlan('pool')
            x = L.Pooling2D((l[2], l[2]), type=l[1], stride=(l[4], l[4]),
                            padding=l[3], name=n)
            wire(x)
            feat = _convshape(feat, feat[2], l[2], l[3], l[4])
        else:
            raise BadPlan(k)
        if min(feat) < 1:
            raise BadPlan('size')
        cur = [(x, None)]
    hidden = cur
    proj = L.FullyConnected(out, activation='linear', name='proj')
    wire(proj)
    wpath = wpath or proj
    cur = [(proj, None)]
    loss = spec['loss']
    lname = None
    if loss == 'SE':
        o = L.SquaredError(name='out')
        lname = 'loss'
        proj >> o
    elif loss == 'SCE':
        o = L.SoftmaxCE(name='out')
        lname = 'loss'
        proj >> o
    elif loss == 'SIG':
        o = L.SigmoidCE(name='out')
        lname = 'loss'
        proj >> o
    elif loss == 'BCE':
        o = L.BinomialCrossEntropy(name='out')
        sg = L.Elementwise('sigmoid', name='sg')
        proj >> sg >> o
    elif loss == 'SQD':
        o = L.SquaredDifference(name='out')
        proj >> 'inputs_1' - o
    else:
        raise BadPlan(loss)
    if loss == 'SQD':
        inp - 'targets' >> 'inputs_2' - o
    else:
        inp - 'targets' >> 'targets' - o
    src = o - lname if lname else o
    main = L.Loss(importance=spec['importance'], name='Loss')
    if spec['mask']:
        m = L.Mask(name='msk')
        src >> m
        inp - 'mask' >> 'mask' - m
        m >> main
    else:
        src >> main
    for i, (kind, imp) in enumerate(spec.get('decay', [])):
        d = (L.L1Decay if kind == 'L1' else L.L2Decay)(name='dec%d' % i)
        for s, on in hidden[:1]:
            if s is inp:
                continue
            s >> d
            d - 'loss' >> L.Loss(importance=imp, name='dloss%d' % i)
    for i, imp in enumerate(spec.get('ploss', [])):
        wpath - '..parameters.W' >> L.Loss(importance=imp,
                                           name='ploss%d' % i)
    return inp, inits


def hidden_masks(spec):
    """[(input name, feature shape)] for masks of hidden activations"""
    out = []
    feat = tuple(spec['in'])
    for i, l in enumerate(spec['layers']):
        k = l[0]
        if k == 'MSK':
            out.append(('mask_h%d' % i, {
                'step': (1,), 'pixel': feat[:-1] + (1,), 'full': feat}[l[1]]))
        elif k in ('FC', 'REC', 'LSTM', 'CW', 'CWL', 'SQD'):
            feat = (l[1],)
        elif k == 'HW':
            feat = (int(np.prod(feat)),)
        elif k in ('MERGE', 'CAT'):
            feat = (l[1] + l[2],)
        elif k == 'TWIN':
            feat = (2 * l[2],)
        elif k == 'CONV':
            feat = _convshape(feat, l[1], l[2], l[3], l[4])
        elif k == 'POOL':
            feat = _convshape(feat, feat[2], l[2], l[3], l[4])
    return out


def _convshape(feat, maps, k, pad, stride):
    return ((feat[0] + 2 * pad - k) // stride + 1,
            (feat[1] + 2 * pad - k) // stride + 1, maps)


def output_path(spec):
    return {'SE': 'proj.outputs.default', 'SQD': 'proj.outputs.default',
            'SCE': 'out.outputs.predictions',
            'SIG': 'out.outputs.predictions',
            'BCE': 'sg.outputs.default'}[spec['loss']]


class Feed(object):
    """How a user hands over batches: as new arrays every time ('fresh'), the
    same dictionary again for the same data ('same'), or always in the same
    arrays, which are filled anew ('refill')."""

    def __init__(self, mode):
        if mode not in ('fresh', 'same', 'refill'):
            raise BadPlan(mode)
        self.mode = mode
        self.cache = {}

    def __call__(self, data, seed=None):
        if self.mode == 'fresh':
            return data
        key = tuple((k, data[k].shape, str(data[k].dtype))
                    for k in sorted(data))
        if self.mode == 'same':
            key += (seed,)
        if key not in self.cache:
            self.cache[key] = data
        elif self.mode == 'refill':
            for k in data:
                self.cache[key][k][...] = data[k]
        return self.cache[key]


FEEDS = ['fresh', 'same', 'refill']


def make_data(spec, T, B, seed, masked_tail=True):
    rs = np.random.RandomState(seed)
    data = {'default': rs.standard_normal((T, B) + tuple(spec['in']))}
    k = spec['loss']
    if k == 'SCE':
        data['targets'] = rs.randint(0, spec['out'], (T, B, 1)).astype(float)
    elif k in ('SIG', 'BCE'):
        data['targets'] = rs.randint(0, 2, (T, B, spec['out'])).astype(float)
    else:
        data['targets'] = rs.standard_normal((T, B, spec['out']))
    if spec['mask']:
        m = np.ones((T, B, 1))
        if masked_tail:
            for b in range(B):
                m[rs.randint(1, T + 1):, b] = 0.
        data['mask'] = m
    for n, s in hidden_masks(spec):
        if min(s) < 1:
            raise BadPlan('shape')
        data[n] = rs.choice([0., 1., 1., 2.], (T, B) + s)
    return data


def order_keys(data, flag):
    """dict with a different key order (iteration order must not matter)"""
    ks = sorted(data, reverse=bool(flag))
    return {k: data[k] for k in ks}


def param_views(net):
    """sorted list of (layer, view) that hold parameters"""
    out = []
    for name in net.layers:
        v = net.buffer[name]
        if 'parameters' in v:
            for n in v.parameters.keys():
                out.append((name, n))
    return sorted(out)


def params(net):
    return net.get('parameters')


def set_params(net, arr):
    net.handler.set_from_numpy(net.buffer.parameters, np.array(arr))


def views(net, what='parameters'):
    return {'%s.%s' % (l, v): net.get('%s.%s.%s' % (l, what, v))
            for l, v in param_views(net)}


# -------------------------------- modifiers ------------------------------- #

def gen_mods(rng, gradient=False, n=None):
    """A plan for weight (or gradient) modifiers: list of [pattern, [mods]]"""
    out = []
    pats = ['default', 'proj', 'h*', '*']
    rng.shuffle(pats)
    for p in pats[:rng.choice([0, 1, 1, 2]) if n is None else n]:
        mods = []
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.choice(['clip', 'norm', 'mask', 'freeze'] if not gradient
                           else ['clip', 'l1', 'l2', 'mask'])
            if k == 'clip':
                mods.append(['clip', -rng.choice([0.1, 0.5]),
                             rng.choice([0.2, 0.4])])
            elif k == 'norm':
                mods.append(['norm', rng.choice([0.3, 1.0])])
            elif k in ('l1', 'l2'):
                mods.append([k, rng.choice([0.1, 0.01])])
            else:
                mods.append([k])
        out.append([p, mods])
    return out


# -------------------------------- comparing ------------------------------- #

def close(a, b, tol=1e-9):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    both_nan = np.isnan(a) & np.isnan(b)
    same = a == b
    with np.errstate(all='ignore'):
        near = np.abs(a - b) <= tol * (1 + np.abs(b))
    return bool(np.all(both_nan | same | near))


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind == 'f' or b.dtype.kind == 'f':
        return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))
    return bool(np.all(a == b))


def diff(a, b):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return 'shapes %s / %s' % (a.shape, b.shape)
    d = np.abs(a - b)
    i = np.unravel_index(np.nanargmax(np.where(np.isnan(d), np.inf, d)),
                         d.shape) if d.size else ()
    return 'largest difference %r at %s (%r / %r)' % (
        float(d[i]) if d.size else 0., tuple(int(x) for x in i),
        float(a[i]) if d.size else None, float(b[i]) if d.size else None)


def tame(net, limit=1e4):
    """No value of the last pass is so large that rounding differences
    (which depend on the alignment of memory) could have grown with it."""
    for name in net.layers:
        v = net.buffer[name]
        for kind in ('outputs', 'internals'):
            if kind not in v:
                continue
            for n in v[kind].keys():
                a = net.handler.get_numpy_copy(v[kind][n])
                if a.dtype.kind == 'f' and a.size and \
                        not np.max(np.abs(a)) < limit:
                    return False
    return True
