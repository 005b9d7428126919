"""C27: equivalent ways of writing a network down give the same network."""
import json
import os
import random
from collections import OrderedDict

import brainstorm as bs
import numpy as np
import world
import zoo
from brainstorm.handlers import NumpyHandler
from checks.common import (REAL_ALL, gen_iter, gen_stepper, gen_view_mods,
                           make_iter, make_stepper, make_view_mod, need,
                           sizes, tol_for, trainer)
from core import BadPlan

ID = 'C27'
QUICK = 5000
LEVEL = 'exploration'
RULE = ('A seeded network is written down in 1..4 further equivalent ways: '
        'the simulator chooses the order in which layers, outputs and '
        'connections are listed, the names of the layers, a detour through '
        'JSON, copying layers put into connections and additional branches '
        'that nothing depends on. All start from the same parameters and go '
        'through the same seeded history (training with modifiers, passes '
        'with contexts, saving and loading, aborted passes that are '
        'repeated, changed precision) in memory with adversarial content; '
        'after each operation all outputs, losses, parameters and gradients '
        'have to agree. Non-trivial: at least one operation in a form that '
        'differs.')
MEASURE = 'distinct (layer kinds, ways of writing, operations)'
REAL = REAL_ALL
STUB = ['content of freshly allocated memory', 'order of declarations',
        'failing device operation']
ASSUMPTIONS = ['names and copying layers are only changed without '
               'concatenated inputs (their order is that of the names) and '
               'with at most one dropout layer (their draws are in order of '
               'the layers)',
               'relative tolerance 1e-8 (float64) or 3e-3 (float32)']


def gen(rng, tier):
    spec = zoo.gen_net(rng, maxdepth=5 if tier == 'thorough' else 4,
                       dtype=rng.choice(['float64'] * 6 + ['float32']))
    forms = []
    for _ in range(rng.randint(1, 4)):
        forms.append({
            'seed': rng.randint(0, 10 ** 6), 'order': rng.choice([0, 1, 1]),
            'conns': rng.choice([0, 1, 1]), 'names': rng.choice([0, 1]),
            'json': rng.choice([0, 0, 1]),
            'noops': rng.choice([0, 0, 1, 2, 3]),
            'branch': [rng.choice(['FC', 'LSTM', 'REC', 'EL', 'BN'])
                       for _ in range(rng.choice([0, 0, 1, 2]))]})
    ops = []
    for _ in range(rng.randint(1, 6 if tier == 'quick' else 10)):
        k = rng.choice(['pass', 'pass', 'train', 'train', 'save', 'mods',
                        'handler', 'modify'])
        if k == 'pass':
            ops.append([k, rng.randint(1, 4), rng.randint(1, 4),
                        rng.randint(0, 10 ** 6), rng.choice([0, 1, 1]),
                        rng.choice([0, 1, 1]), rng.choice([0, 0, 1]),
                        rng.choice([None, None, rng.randint(0, 60)])])
        elif k == 'train':
            ops.append([k, gen_iter(rng, 5, 3), gen_stepper(rng),
                        rng.randint(1, 2)])
        elif k == 'mods':
            ops.append([k, rng.choice([0, 1]), rng.randint(0, 10 ** 6)])
        elif k == 'handler':
            ops.append([k, rng.choice(['float64', 'float64', 'float32'])])
        else:
            ops.append([k])
    return {'net': spec, 'seed': rng.randint(0, 10 ** 6), 'forms': forms,
            'ops': ops, 'poison': rng.choice([None, 'nan', 'garbage'])}


# ----------------------------- writing it down ----------------------------- #

def flat(conns):
    """[(output, [targets])] of an @outgoing_connections entry"""
    return list(conns.items()) if isinstance(conns, dict) else \
        [('default', list(conns))]


def rewrite(arch, form, spec):
    """An equivalent architecture and the names of the layers in it."""
    rs = np.random.RandomState(form['seed'])
    arch = json.loads(json.dumps(arch))
    free = 'CAT' not in zoo.names_in(spec) and \
        zoo.names_in(spec).count('DO') <= 1
    names = {n: n for n in arch}
    ways = []
    if form['noops'] and free:
        for _ in range(form['noops']):
            spots = []
            for a in sorted(arch):
                for o, ts in sorted(flat(arch[a]['@outgoing_connections'])):
                    for j, t in enumerate(ts):
                        if not o.startswith('..') and \
                                arch[t.split('.')[0]]['@type'] != 'Loss':
                            spots.append((a, o, j))
            if not spots:
                break
            a, o, j = spots[rs.randint(len(spots))]
            n = 'copy%d_%d' % (rs.randint(100), len(arch))
            old = arch[a]['@outgoing_connections'][o][j]
            arch[a]['@outgoing_connections'][o][j] = n + '.default'
            arch[n] = {'@type': 'NoOp',
                       '@outgoing_connections': {'default': [old]}}
            ways.append('copy')
    for k in form['branch']:
        outs = [a for a in sorted(arch) if a == 'Input' or arch[a]['@type'] in
                ('FullyConnected', 'Recurrent', 'Lstm', 'NoOp',
                 'Elementwise', 'Convolution2D')]
        a = outs[rs.randint(len(outs))]
        n = 'b%d_%d' % (rs.randint(100), len(arch))
        arch[n] = {'@type': {'FC': 'FullyConnected', 'LSTM': 'Lstm',
                             'REC': 'Recurrent', 'EL': 'Elementwise',
                             'BN': 'BatchNorm'}[k],
                   '@outgoing_connections': {}}
        if k in ('FC', 'LSTM', 'REC'):
            arch[n]['size'] = int(rs.randint(1, 4))
        c = arch[a]['@outgoing_connections']
        c.setdefault('default', []).append(n + '.default')
        ways.append('branch ' + k)
    if form['names'] and free:
        # (some of them begin with others, or differ in their case only)
        pool = [x + y for x in ('n', 'N', 'n1', '_n', 'nn', 'z_1')
                for y in ('', '1', '_', '10', 'n', '_W', 'b2')]
        pool = sorted(set(pool))
        if len(arch) > len(pool):
            pool += ['l%d' % i for i in range(len(arch))]
        rs.shuffle(pool)
        new = {n: 'Input' if n == 'Input' else pool[i]
               for i, n in enumerate(sorted(arch))}
        names = {n: new[n] for n in names}
        arch = {new[n]: d for n, d in arch.items()}
        for d in arch.values():
            d['@outgoing_connections'] = {
                o: ['.'.join([new[t.split('.')[0]]] + t.split('.')[1:])
                    for t in ts]
                for o, ts in flat(d['@outgoing_connections'])}
        ways.append('names')
    if form['conns']:
        for d in arch.values():
            cs = flat(d['@outgoing_connections'])
            rs.shuffle(cs)
            for _, ts in cs:
                rs.shuffle(ts)
                for j, t in enumerate(ts):
                    if t.endswith('.default') and rs.randint(2):
                        ts[j] = t[:-len('.default')]
            if len(cs) == 1 and cs[0][0] == 'default' and rs.randint(2):
                d['@outgoing_connections'] = cs[0][1]
            else:
                d['@outgoing_connections'] = OrderedDict(cs)
        ways.append('connections')
    if form['order']:
        ks = sorted(arch)
        rs.shuffle(ks)
        for n in ks:
            d = list(arch[n].items())
            rs.shuffle(d)
            arch[n] = OrderedDict(d)
        arch = OrderedDict((n, arch[n]) for n in ks)
        ways.append('order')
    if form['json']:
        arch = json.loads(json.dumps(arch), object_pairs_hook=OrderedDict)
        ways.append('json')
    return arch, names, ways


class Form(object):
    def __init__(self, net, names):
        self.net = net
        self.names = names
        self.context = None

    def views(self):
        return {(a, v): self.net.get('%s.parameters.%s' % (b, v))
                for a, b in self.names.items()
                if 'parameters' in self.net.buffer[b]
                for v in self.net.buffer[b].parameters.keys()}

    def snapshot(self, backward, after_pass):
        net, out = self.net, {}
        for a, v in self.views().items():
            out['%s.parameters.%s' % a] = v
        if not after_pass:
            return out
        T = sizes(net)[0]
        for a, b in self.names.items():
            v = net.buffer[b]
            kinds = ['outputs']
            if backward:
                kinds += ['gradients'] + (['output_deltas']
                                          if a == 'Input' else [])
            for kind in kinds:
                if kind not in v:
                    continue
                for n in v[kind].keys():
                    x = net.get('%s.%s.%s' % (b, kind, n))
                    if kind != 'gradients' and x.ndim > 2:
                        x = x[:T]
                    out['%s.%s.%s' % (a, kind, n)] = x
        back = {b: a for a, b in self.names.items()}
        for k, l in net.get_loss_values().items():
            out['loss ' + back.get(k, k)] = np.array(l)
        return out


def run(plan, ctx):
    spec = plan['net']
    base = zoo.build(spec, seed=plan['seed'])
    arch = base.architecture
    with world.device(poison=plan['poison'], pseed=plan['seed']):
        first = Form(base, {n: n for n in arch})
        start = first.views()
        forms = [first]
        ways = []
        for f in plan['forms']:
            a, names, w = rewrite(arch, f, spec)
            net = bs.Network.from_architecture(a)
            net.set_handler(NumpyHandler(np.dtype(spec['dtype']).type,
                                         seed=plan['seed'] + 1000))
            refs = {}
            for (layer, view), v in start.items():
                refs.setdefault(names[layer], {})[view] = v
            for n in net.layers:
                refs.setdefault(n, bs.initializers.Gaussian(0.3))
            refs = {n: r for n, r in refs.items()
                    if len(net.buffer[n].parameters.keys())}
            net.initialize(refs, seed=3)
            forms.append(Form(net, names))
            ways.append(sorted(w))
            for x in w:
                ctx.tally(x)
            ctx.event(sorted(w))
        if not any(ways):
            raise BadPlan('nothing to compare')
        tol = tol_for(base) * 10
        for op in plan['ops']:
            ctx.event(op[0])
            ctx.tally('op ' + op[0])
            if op[0] == 'handler' and op[1] == 'float32':
                tol = 3e-3
            fault = op[7] if op[0] == 'pass' else None
            backward = False
            for f in forms:
                backward = do(f, op, plan, ctx, fault)
            ran = op[0] in ('pass', 'train')
            want = forms[0].snapshot(backward, ran)
            if ran and not zoo.tame(forms[0].net):
                ctx.tally('diverging network')
                return
            for f, w in zip(forms[1:], ways):
                got = f.snapshot(backward, ran)
                need(sorted(got) == sorted(want), 'form-items', lambda:
                     'written with %s, other values are there: %s' % (
                         w, sorted(set(got) ^ set(want))))
                for k in sorted(want):
                    ctx.data(got[k])
                    need(zoo.close(got[k], want[k], tol), 'form-matters',
                         lambda: 'written with %s, %s differs after %s: %s'
                         % (w, k, op[0], zoo.diff(got[k], want[k])))
            ctx.nontrivial = True
    if plan['poison']:
        ctx.fault('memory content ' + plan['poison'])
    ctx.state(sorted(set(zoo.names_in(spec))), ways,
              [o[0] for o in plan['ops']])


def do(f, op, plan, ctx, fault):
    spec, net = plan['net'], f.net
    k = op[0]
    if k == 'pass':
        _, T, B, dseed, train, bwd, use, _ = op
        if T < 1 or B < 1:
            raise BadPlan('size')
        data = zoo.make_data(spec, T, B, dseed)
        c = None
        if use and f.context is not None and f.context[1] == B:
            c = f.context[0]

        def once():
            net.provide_external_data(data)
            net.handler.rnd.set_seed(dseed)
            net.forward_pass(training_pass=bool(train), context=c)
            if bwd and train:
                net.backward_pass()
        if fault is not None:
            before = f.views()
            world.DEV.faults = {world.DEV.n + fault: True}
            try:
                once()
            except world.INJECTED:
                ctx.fault('aborted pass')
            finally:
                world.DEV.faults = {}
            # (batch normalisation may have adjusted its averages)
            for (a, v), x in before.items():
                net.handler.set_from_numpy(
                    net.buffer[f.names[a]].parameters[v], x)
        once()
        f.context = (net.get_context(), B)
        return bool(bwd and train)
    if k == 'train':
        t = trainer(make_stepper(op[2]), [bs.hooks.StopAfterEpoch(op[3])])
        net.handler.rnd.set_seed(5)
        if op[3] < 1:
            raise BadPlan('epochs')
        t.train(net, make_iter(spec, op[1]))
        f.context = None
        return True
    if k == 'save':
        path = os.path.join(ctx.scratch(), 'net.h5')
        net.save_as_hdf5(path)
        f.net = bs.Network.from_hdf5(path)
        f.context = None
        return False
    if k == 'mods':
        rs = random.Random(op[2])
        refs = {}
        for layer, view, mods in gen_view_mods(rs, sorted(f.views()),
                                               bool(op[1])):
            refs.setdefault(f.names[layer], {})[view] = [
                make_view_mod(m, net, f.names[layer], view) for m in mods]
        if op[1]:
            net.set_gradient_modifiers(refs)
        else:
            net.set_weight_modifiers(refs)
        return False
    if k == 'handler':
        net.set_handler(NumpyHandler(np.dtype(op[1]).type, seed=8))
        f.context = None
        return False
    if k == 'modify':
        net.apply_weight_modifiers()
        return False
    raise BadPlan(k)
