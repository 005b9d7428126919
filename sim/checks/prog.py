"""A seeded program of a user who works with one network. It is run in two
ways that have to give the same record: calmly, and with a user who misbehaves
in the way a check chooses (writing over everything he handed over or got; or
making calls that are rejected)."""
import copy
import io
import json
import os

import brainstorm as bs
import numpy as np
import zoo
from brainstorm.describable import create_from_description, get_description
from brainstorm.handlers import NumpyHandler
from brainstorm.structure.architecture import generate_architecture
from brainstorm.tools import evaluate, extract, extract_and_save
from checks.common import (Probe, forward_contexts, gen_iter, gen_picked,
                           gen_stepper, make_stepper, need, refs_of)
from core import BadPlan, Violation

KINDS = ['init', 'init', 'mods', 'data', 'data', 'fwd', 'fwd', 'fwd', 'bwd',
         'bwd', 'ctx', 'get', 'get', 'eval', 'extract', 'exsave', 'describe',
         'save', 'reload', 'train', 'train', 'handler', 'twin']


def gen_op(rng):
    k = rng.choice(KINDS)
    if k == 'init':
        return [k, rng.choice(zoo.INITS), rng.randint(0, 10 ** 6),
                rng.choice([0, 1, 2, 3]), rng.randint(0, 30)]
    if k == 'mods':
        return [k, gen_picked(rng), gen_picked(rng, True)]
    if k == 'data':
        return [k, rng.randint(1, 4), rng.randint(1, 3),
                rng.randint(0, 10 ** 6), rng.choice([0, 1]),
                rng.choice(['f8', 'f8', 'f4', 'same'])]
    if k == 'fwd':
        return [k, rng.choice([0, 1, 1]), rng.choice([0, 0, 1]),
                rng.randint(0, 9999)]
    if k == 'get':
        return [k, rng.randint(0, 99)]
    if k in ('eval', 'extract', 'exsave'):
        return [k, gen_iter(rng, maxn=5, maxT=3, shuffle=0)]
    if k == 'train':
        return [k, gen_iter(rng, maxn=5, maxT=3), gen_stepper(rng),
                rng.randint(1, 2)]
    if k == 'handler':
        return [k, rng.choice(['float64', 'float64', 'float32'])]
    return [k]


def gen_program(rng, most):
    spec = zoo.gen_net(rng, maxdepth=3,
                       dtype=rng.choice(['float64'] * 4 + ['float32']))
    ops = [gen_op(rng) for _ in range(rng.randint(2, most))]
    # something is nearly always computed
    for op in list(ops):
        if op[0] == 'data' and rng.random() < 0.7:
            i = ops.index(op)
            ops.insert(i + 1, ['fwd', 1, 0, rng.randint(0, 9999)])
            if rng.random() < 0.5:
                ops.insert(i + 2, ['bwd'])
    return {'net': spec, 'seed': rng.randint(0, 10 ** 6), 'ops': ops,
            'how': rng.choice(['arch', 'arch', 'layers', 'descr'])}


def num(x):
    """x for the record"""
    return np.array(x)


def text_of(net):
    """the description of a network, as text"""
    return json.dumps(get_description(net), sort_keys=True)


class Program(object):
    """bad: None, or the function that misbehaves (see the checks)"""

    def __init__(self, plan, ctx, folder):
        self.plan, self.ctx, self.dir = plan, ctx, folder
        self.spec = plan['net']
        self.record = []
        self.kept = []          # what the caller still has: (name, object)
        self.contexts = []
        self.have = 0           # 1: data provided, 2: passed, 3: training
        self.batch = None
        self.epochs = 0

    # ------------------ to be overridden by the checks ------------------ #

    def about(self, *objs):
        """the caller is about to hand over these objects"""

    def given(self, name, *objs):
        """the caller has handed over these objects"""

    def got(self, name, *objs):
        """the caller has got these objects"""

    def between(self, i):
        """after operation i"""

    def graphed(self, inp):
        """the layers are connected"""

    # -------------------------------------------------------------------- #

    def log(self, name, value):
        self.record.append((name, value))

    def build(self):
        plan, spec = self.plan, self.spec
        try:
            inp, self.fixed = zoo.graph(spec)
            self.graphed(inp)
            if plan['how'] == 'layers':
                opts = [l.layer_kwargs for l in sorted(
                    inp.layer.collect_connected_layers(),
                    key=lambda l: l.name)]
                self.about(*opts)
                net = bs.Network.from_layer(inp)
                self.given('layers', *opts)
            else:
                arch = generate_architecture(inp)
                if plan['how'] == 'descr':
                    arch = json.loads(json.dumps(arch))
                self.about(arch)
                net = bs.Network.from_architecture(arch)
                self.arch = arch
                self.given('architecture', arch)
        except Exception as e:
            if type(e).__name__ in ('LayerValidationError',
                                    'NetworkValidationError',
                                    'StructureValidationError'):
                raise BadPlan(str(e))
            raise
        net.output_name = zoo.output_path(spec)
        self.net = net
        self.handler(spec['dtype'])
        self.init('gauss', plan['seed'], 0, 0)

    def handler(self, dtype):
        self.net.set_handler(NumpyHandler(np.dtype(dtype).type,
                                          seed=self.plan['seed']))
        self.have = 0
        self.contexts = []

    def init_refs(self, kind, form, pick):
        """a dictionary of initial values"""
        if 'CONV' in zoo.names_in(self.spec) and kind not in ('uniform',
                                                              'number'):
            kind = 'gauss'
        d = dict(self.fixed)
        d.update(zoo.make_init(kind))
        views = [lv for lv in zoo.param_views(self.net)
                 if lv[0] not in self.fixed]
        if form and views:
            l, v = views[pick % len(views)]
            shape = self.net.buffer[l].parameters[v].shape
            a = np.random.RandomState(pick).standard_normal(shape) * 0.3
            d[l] = {v: [a, a.tolist(),
                        bs.initializers.ArrayInitializer(a)][form - 1],
                    'default': d['default']}
            if 'fallback' in d:
                d[l]['fallback'] = d['fallback']
        return d

    def init(self, kind, seed, form, pick):
        d = self.init_refs(kind, form, pick)
        self.about(d)
        self.net.initialize(d, seed=seed)
        # (the plan of the fixed values is used again)
        if self.fixed:
            d = {k: v for k, v in d.items() if k not in self.fixed}
        self.given('initial values', d)

    def make_iter(self, it):
        from checks.common import make_iter
        return make_iter(self.spec, it)

    def step(self, op):
        net, k = self.net, op[0]
        if k == 'init':
            self.init(*op[1:])
        elif k == 'mods':
            for plan, setter in ((op[1], net.set_weight_modifiers),
                                 (op[2], net.set_gradient_modifiers)):
                refs = refs_of(net, plan)
                self.about(refs)
                setter(refs)
                self.given('modifiers', refs)
        elif k == 'data':
            if op[1] < 1 or op[2] < 1:
                raise BadPlan('size')
            data = zoo.order_keys(zoo.make_data(self.spec, op[1], op[2],
                                                op[3]), op[4])
            dt = net.handler.dtype if op[5] == 'same' else np.dtype(op[5])
            data = {n: v.astype(dt) for n, v in data.items()}
            self.about(data)
            self.net.provide_external_data(data)
            self.given('data', data)
            self.have, self.batch = 1, op[2]
        elif k == 'fwd':
            if not self.have:
                return
            c = None
            fit = [c for b, c in self.contexts if b == self.batch]
            if op[2] and fit:
                c = fit[-1]
            net.handler.rnd.set_seed(op[3])
            if c is not None:
                self.about(c)
            net.forward_pass(training_pass=bool(op[1]), context=c)
            if c is not None:
                self.given('context', c)
                self.contexts = [(b, x) for b, x in self.contexts
                                 if x is not c]
            losses = net.get_loss_values()
            self.log('losses', [losses[n] for n in sorted(losses)])
            self.got('losses', losses)
            self.have = 3 if op[1] else 2
            self.look()
        elif k == 'bwd':
            if self.have < 3:
                return
            net.rnd.set_seed(self.plan['seed'])
            net.backward_pass()
            g = net.get('gradients')
            self.log('gradients', num(g))
            self.got('gradients', g)
        elif k == 'ctx':
            if self.have < 2:
                return
            for c in forward_contexts(net):
                if c is not None:
                    self.log('context', c)
            c = net.get_context()
            self.contexts.append((self.batch, c))
        elif k == 'get':
            self.look(op[1])
        elif k == 'eval':
            res = evaluate(net, self.make_iter(op[1]))
            self.log('evaluation', [float(res[n]) for n in sorted(res)])
            self.got('evaluation', res)
            self.have = 0
        elif k in ('extract', 'exsave'):
            names = [net.output_name, 'Input.outputs.default']
            self.about(names)
            if k == 'extract':
                res = extract(net, self.make_iter(op[1]), names)
                for n in names:
                    self.log(n, num(res[n]))
                self.got('features', res)
            else:
                import h5py
                path = os.path.join(self.dir, 'features.h5')
                extract_and_save(net, self.make_iter(op[1]), names, path)
                with h5py.File(path, 'r') as f:
                    for n in names:
                        self.log(n, f[n][()])
            self.given('names', names)
            self.have = 0
        elif k == 'describe':
            d = get_description(net)
            self.log('description', json.dumps(d, sort_keys=True))
            self.got('description', d)
        elif k == 'save':
            path = os.path.join(self.dir, 'net.h5')
            net.save_as_hdf5(path)
            other = bs.Network.from_hdf5(path)
            self.log('file', text_of(other))
            self.log('file', num(other.get('parameters')))
        elif k == 'reload':
            p = net.get('parameters')
            d = get_description(net)
            self.about(d)
            new = create_from_description(d)
            self.given('description', d)
            dtype = net.handler.dtype
            self.net = net = new
            self.handler(dtype)
            zoo.set_params(net, p)
            self.given('parameters', p)
        elif k == 'train':
            self.train(op)
        elif k == 'handler':
            self.handler(op[1])
        elif k == 'twin':
            self.twin()
        else:
            raise BadPlan(k)

    def look(self, i=0):
        """get something of the network"""
        net = self.net
        paths = ['parameters', net.output_name]
        paths += ['%s.parameters.%s' % lv for lv in zoo.param_views(net)]
        path = paths[i % len(paths)]
        if path == net.output_name and self.have < 2:
            return
        a = net.get(path)
        self.log(path, num(a))
        self.got(path, a)
        if self.have:
            b = net.get_input('default')
            self.log('input', num(b))
            self.got('input', b)

    def trainer(self, stepper):
        t = bs.Trainer(stepper, verbose=False)
        t.add_hook(bs.hooks.MonitorLoss('mon', 'watched'))
        t.add_hook(bs.hooks.MonitorLayerParameters('proj', name='stats'))
        t.add_hook(Probe(self.probe, 'probe', 'update', 1))
        t.add_hook(bs.hooks.StopAfterEpoch(1, name='end'))
        return t

    def probe(self, epoch_nr, update_nr, net, stepper, logs):
        a = net.get('parameters')
        self.log('update %d' % update_nr, num(a))
        self.got('parameters in training', a)
        self.got('description in training', get_description(net))

    def train(self, op):
        net = self.net
        net.rnd.set_seed(self.plan['seed'] + 1)
        net.handler.rnd.set_seed(self.plan['seed'] + 2)
        t = self.trainer(make_stepper(op[2]))
        t.hooks['end'].max_epochs = t.current_epoch_nr + op[3]
        t.train(net, self.make_iter(op[1]),
                mon=self.make_iter(dict(op[1], shuffle=0)))
        self.log('logs', json.dumps(t.logs, sort_keys=True, default=float))
        self.got('logs', t.logs)
        self.have = 0

    def twin(self):
        """another network of the same architecture"""
        # (as the description has it, whatever became of the original)
        d = get_description(self.net)['architecture']
        self.about(d)
        other = bs.Network.from_architecture(d)
        self.given('architecture', d)
        self.log('twin', json.dumps(get_description(other)['architecture'],
                                    sort_keys=True))

    def run(self):
        self.build()
        self.between(-1)
        for i, op in enumerate(self.plan['ops']):
            self.ctx.event(op)
            self.step(op)
            self.between(i)
        self.finish()
        return self.record

    def finish(self):
        """everything there is, at the end"""
        net, spec = self.net, self.spec
        self.log('the description at the end', text_of(net))
        self.log('the parameters at the end', num(net.get('parameters')))
        net.handler.rnd.set_seed(1)
        net.rnd.set_seed(2)
        net.provide_external_data(zoo.make_data(spec, 2, 2, 77))
        net.forward_pass(training_pass=True)
        net.backward_pass()
        net.apply_weight_modifiers()
        self.log('the outputs at the end', num(net.get(net.output_name)))
        self.log('the gradients at the end', num(net.get('gradients')))
        self.log('the modified parameters at the end',
                 num(net.get('parameters')))


def same_text(a, b):
    return a == b


def compare(want, got, tol, sig, what, ctx):
    need(len(want) == len(got), sig, lambda: '%s: %d observations instead of '
         '%d' % (what, len(got), len(want)))
    for (n, a), (m, b) in zip(want, got):
        need(n == m, sig, lambda: '%s: %s instead of %s' % (what, m, n))
        if isinstance(a, str):
            need(texts_equal(a, b, tol), sig, lambda: '%s: %s is\n%s\n'
                 'instead of\n%s' % (what, n, b[:1500], a[:1500]))
        else:
            need(zoo.close(b, a, tol), sig, lambda: '%s: %s is different: %s'
                 % (what, n, zoo.diff(b, a)))
            ctx.data(np.asarray(a, dtype=float))


def texts_equal(a, b, tol):
    """equal JSON texts, up to rounding"""
    if a == b:
        return True

    def eq(x, y):
        if isinstance(x, dict) and isinstance(y, dict):
            return set(x) == set(y) and all(eq(x[k], y[k]) for k in x)
        if isinstance(x, list) and isinstance(y, list):
            return len(x) == len(y) and all(map(eq, x, y))
        if isinstance(x, float) and isinstance(y, float):
            return zoo.close(y, x, tol)
        return type(x) == type(y) and x == y
    return eq(json.loads(a), json.loads(b))
