"""C25: a rejected call changes nothing."""
import json
import os

import brainstorm as bs
import numpy as np
import zoo
from brainstorm import initializers, value_modifiers as vm
from brainstorm.describable import create_from_description, get_description
from brainstorm.handlers import NumpyHandler
from brainstorm.hooks import MonitorLoss
from brainstorm.structure.architecture import generate_architecture
from brainstorm.tools import evaluate, extract, extract_and_save
from brainstorm.utils import InitializationError
from checks.c24 import equal, picture
from checks.common import REAL_ALL, Probe, gen_iter, make_stepper, need, tol_for
from checks.prog import Program, compare, gen_program, text_of
from core import BadPlan, Violation

ID = 'C25'
QUICK = 4000
LEVEL = 'fault_enumeration'
RULE = ('A seeded program of 2..10 operations on one network and trainer is '
        'run twice: without mistakes, and with 1..8 calls at seeded '
        'positions that can not work (references to layers, views or items '
        'that do not exist, ambiguous, missing or unsuitable initial values, '
        'initializers, modifiers, hooks and handlers of the user that fail '
        'at a seeded call, data of the wrong shape, bad contexts, paths and '
        'files, incomplete iterators, bad architectures). Such a call has to '
        'raise an error; the description, the parameters, the trainer, the '
        'files and the arguments of the call stay what they were, and all '
        'further results of the program are those of the run without '
        'mistakes. Non-trivial: a call was rejected.')
MEASURE = 'distinct (operations, rejected calls and their positions)'
REAL = REAL_ALL + ['h5py/libhdf5']
STUB = ['the caller']
ASSUMPTIONS = ['data that was refused has to be provided again, and a pass '
               'that failed to be repeated',
               'comparisons with relative tolerance 1e-9 (float64) or 3e-4 '
               '(float32): the alignment of buffers may change rounding']

# those that may leave data or pass results behind
DIRTY = ['data-missing', 'data-features', 'data-rank', 'data-batch',
         'data-empty', 'data-none', 'context', 'eval-missing',
         'eval-raises', 'extract-bad', 'exsave-bad', 'exsave-dir',
         'evaltr-missing']
CLEAN = ['init-unknown', 'init-unknown-view', 'init-missing',
         'init-ambiguous', 'init-shape', 'init-unsuitable', 'init-raises',
         'init-text', 'init-object', 'init-fallbacks',
         'wmods-unknown', 'wmods-view', 'wmods-fallback', 'wmods-copy',
         'gmods-unknown', 'gmods-view', 'gmods-fallback', 'gmods-copy',
         'get-bad', 'save-dir', 'save-on-dir', 'save-comment',
         'save-undescribable', 'load-missing', 'load-garbage',
         'hook-twice', 'train-names', 'train-monitor', 'train-start',
         'handler-none', 'handler-object', 'handler-memory',
         'handler-copy', 'arch-type', 'arch-sink', 'arch-shape',
         'descr-type', 'descr-mods', 'graph-open', 'shift-number']


def gen(rng, tier):
    plan = gen_program(rng, 10 if tier == 'quick' else 16)
    n = len(plan['ops'])
    kinds = rng.choice([CLEAN, CLEAN, CLEAN + DIRTY, DIRTY])
    plan['bad'] = sorted([rng.randint(0, n), rng.choice(kinds),
                          rng.randint(0, 10 ** 4)]
                         for _ in range(rng.choice([1, 1, 2, 4, 8])))
    return plan


class Oops(Exception):
    pass


class Failing(initializers.Initializer):
    """fails at a given call"""

    def __init__(self, at):
        super(Failing, self).__init__()
        self.at = at
        self.n = 0

    def __call__(self, shape):
        self.n += 1
        if self.n > self.at:
            raise Oops('initializer')
        return np.full(shape, 9.)


class NoCopy(vm.ValueModifier):
    """can not be copied more often than given"""
    __undescribed__ = {'left': None}

    def __init__(self, left):
        super(NoCopy, self).__init__()
        self.left = [left]

    def __deepcopy__(self, memo):
        self.left[0] -= 1
        if self.left[0] < 0:
            raise Oops('copy')
        new = NoCopy(0)
        new.left = self.left
        return new

    def __call__(self, handler, view):
        handler.fill(view, 3.)


class Undescribable(vm.ValueModifier):
    def __init__(self):
        super(Undescribable, self).__init__()
        self.what = lambda x: x

    def __call__(self, handler, view):
        pass


class Broken(NumpyHandler):
    """a device that does not work"""
    __undescribed__ = {'how': None}

    def __init__(self, how, at):
        self.how, self.at, self.n = how, at, 0
        super(Broken, self).__init__(np.float64, seed=1)

    def _count(self, how):
        if self.how == how:
            self.n += 1
            if self.n > self.at:
                raise MemoryError('device')

    def allocate(self, size):
        self._count('memory')
        return super(Broken, self).allocate(size)

    def set_from_numpy(self, mem, arr):
        self._count('copy')
        super(Broken, self).set_from_numpy(mem, arr)


class BadStart(Probe):
    def start(self, net, stepper, verbose, named_data_iters):
        raise Oops('start')


class Raising(object):
    """an iterator that fails after some batches"""

    def __init__(self, it, after):
        self.it, self.after = it, after
        self.data_shapes = it.data_shapes
        self.length = getattr(it, 'length', None)

    def __call__(self, handler):
        for i, d in enumerate(self.it(handler)):
            if i >= self.after:
                break
            yield d
        raise Oops('data')


class Without(object):
    """an iterator that lacks an item"""

    def __init__(self, it, name):
        self.it, self.name = it, name
        self.data_shapes = {k: v for k, v in it.data_shapes.items()
                            if k != name}
        self.length = getattr(it, 'length', None)

    def __call__(self, handler):
        for d in self.it(handler):
            yield {k: v for k, v in d.items() if k != self.name}


class Careful(Program):
    """makes no mistakes (but forgets the data where the other one has to
    provide it again)"""

    def __init__(self, plan, ctx, folder):
        Program.__init__(self, plan, ctx, folder)
        self.t = None

    def trainer(self, stepper):
        if self.t is None:
            self.t = Program.trainer(self, stepper)
        self.t.stepper = stepper
        return self.t

    def between(self, i):
        for at, kind, x in self.plan['bad']:
            if at == i + 1:
                self.mistake(kind, x)

    def mistake(self, kind, x):
        if kind in DIRTY:
            self.have = 0
            # (so that it is seen)
            self.log('parameters', np.array(self.net.get('parameters')))


class Clumsy(Careful):

    def __init__(self, plan, ctx, folder):
        Careful.__init__(self, plan, ctx, folder)
        self.did = []

    def files(self):
        out = {}
        for n in sorted(os.listdir(self.dir)):
            p = os.path.join(self.dir, n)
            if os.path.isfile(p):
                with open(p, 'rb') as f:
                    out[n] = f.read()
        return out

    def state(self):
        net, t = self.net, self.t
        s = [text_of(net), np.array(net.get('parameters')), self.files(),
             list(net.layers), type(net.handler).__name__,
             str(net.handler.dtype)]
        if self.have >= 2:
            s.append(np.array(net.get(net.output_name)))
        elif self.have:
            s.append(np.array(net.get_input('default')))
        if t is not None:
            s += [list(t.hooks), [h.priority for h in t.hooks.values()],
                  picture(t.logs), t.current_epoch_nr, t.current_update_nr]
        return s

    def mistake(self, kind, x):
        if kind in DIRTY:
            self.have = 0
        call = self.prepare(kind, x)
        if call is None:
            self.ctx.event('not here', kind)
        else:
            call, args = call[0], call[1:]
            before, given = self.state(), picture(args)
            try:
                call()
            except BadPlan:
                raise
            except Exception as e:
                err = type(e).__name__
            else:
                raise Violation('accepted', 'the bad call (%s) was accepted'
                                % kind)
            self.ctx.event(kind, err)
            self.ctx.fault('rejected ' + kind)
            self.ctx.nontrivial = True
            self.did.append(kind)
            after = self.state()
            need(equal(given, picture(args)), 'argument-altered',
                 lambda: 'rejected call (%s: %s): its arguments were altered'
                 % (kind, err))
            need(equal(before, after), 'rejected-changes',
                 lambda: 'rejected call (%s: %s) has changed %s'
                 % (kind, err, differences(before, after)))
        if kind in DIRTY:
            self.log('parameters', np.array(self.net.get('parameters')))

    # ---- the bad calls: (function, arguments...), or None: not possible ---- #

    def prepare(self, kind, x):
        return getattr(self, kind.replace('-', '_'))(x)

    def some_view(self, x):
        views = zoo.param_views(self.net)
        return views[x % len(views)] if views else (None, None)

    def good_init(self, x):
        return self.init_refs('gauss', 0, x)

    def bad_init(self, d, x):
        """the same, given as a dictionary or otherwise"""
        if x % 3 == 0:
            return (lambda: self.net.initialize(seed=x, **d), d)
        return (lambda: self.net.initialize(d, seed=x), d)

    def init_unknown(self, x):
        d = self.good_init(x)
        d[['Nope', 'Nop*', 'Loss', 'Input'][x % 4]] = 0.5
        if x % 4 == 2 and 'Loss' not in self.net.layers:
            return None
        if x % 4 >= 2:
            # (exists, without parameters)
            return None
        return self.bad_init(d, x)

    def init_unknown_view(self, x):
        l, v = self.some_view(x)
        if l is None:
            return None
        d = self.good_init(x)
        d[l] = {'nope': 0.5, 'default': 0.1}
        return self.bad_init(d, x)

    def init_missing(self, x):
        l, v = self.some_view(x)
        names = {n for n, _ in zoo.param_views(self.net)}
        if len(names) < 2:
            return None
        return self.bad_init({n: 0.25 for n in names if n != l}, x)

    def init_ambiguous(self, x):
        l, v = self.some_view(x)
        if l is None:
            return None
        d = {'*': 0.25, l: [0.5, {'default': 0.5}, {v: 0.5, 'default':
                                                    initializers.Gaussian()}
                            ][x % 3]}
        return self.bad_init(d, x)

    def init_shape(self, x):
        l, v = self.some_view(x)
        if l is None:
            return None
        d = self.good_init(x)
        a = np.zeros((2, 3, 4, 5, 2))
        d[l] = {v: [a, a.tolist(), initializers.ArrayInitializer(a)][x % 3],
                'default': 0.1}
        return self.bad_init(d, x)

    def init_unsuitable(self, x):
        if not [1 for l, v in zoo.param_views(self.net)
                if len(self.net.buffer[l].parameters[v].shape) == 1]:
            return None
        one = [initializers.Identity, initializers.Orthogonal][x % 2]()
        return self.bad_init({'default': one}, x)

    def init_raises(self, x):
        n = len(zoo.param_views(self.net))
        if not n:
            return None
        return (lambda: self.net.initialize(Failing(x % n), seed=x),)

    def init_text(self, x):
        if not zoo.param_views(self.net):
            return None
        return (lambda: self.net.initialize(default='nonsense', seed=x),)

    def init_object(self, x):
        if not zoo.param_views(self.net):
            return None
        d = self.good_init(x)
        d['default'] = object()
        return (lambda: self.net.initialize(d, seed=x),)

    def init_fallbacks(self, x):
        l, v = self.some_view(x)
        if l is None:
            return None
        d = {'*': {'default': 0.5, 'fallback': 0.1},
             l + '*': {'default': 0.5, 'fallback': initializers.Gaussian()}}
        return self.bad_init(d, x)

    def mods(self, which, d):
        s = self.net.set_weight_modifiers if which == 'w' else \
            self.net.set_gradient_modifiers
        return (lambda: s(d), d)

    def a_mod(self, x):
        return [vm.ClipValues(-1e-3, 1e-3), vm.ConstrainL2Norm(1e-3),
                [vm.ClipValues(0, 1e-3), vm.FreezeValues()]][x % 3]

    def wmods_unknown(self, x, which='w'):
        return self.mods(which, {'default': self.a_mod(x),
                                 ['Nope', 'N*pe'][x % 2]: self.a_mod(x + 1)})

    def wmods_view(self, x, which='w'):
        l, v = self.some_view(x)
        if l is None:
            return None
        return self.mods(which, {'default': self.a_mod(x),
                                 l: {'nope': self.a_mod(x + 1)}})

    def wmods_fallback(self, x, which='w'):
        if not zoo.param_views(self.net):
            return None
        return self.mods(which, {'default': self.a_mod(x),
                                 'fallback': vm.FreezeValues()})

    def wmods_copy(self, x, which='w'):
        n = len(zoo.param_views(self.net))
        if not n:
            return None
        return self.mods(which, {'default': NoCopy(x % n)})[:1]

    def gmods_unknown(self, x):
        return self.wmods_unknown(x, 'g')

    def gmods_view(self, x):
        return self.wmods_view(x, 'g')

    def gmods_fallback(self, x):
        return self.wmods_fallback(x, 'g')

    def gmods_copy(self, x):
        return self.wmods_copy(x, 'g')

    # data

    def some_data(self, x):
        # (a single step may stand for all of them)
        return zoo.order_keys(zoo.make_data(self.spec, 2 + x % 4,
                                            2 + x // 4 % 4, x), x % 2)

    def data_call(self, d):
        return (lambda: self.net.provide_external_data(d), d)

    def an_item(self, d, x):
        names = sorted(n for n in d if n in self.net.buffer.Input.outputs)
        return names[x % len(names)]

    def data_missing(self, x):
        d = self.some_data(x)
        if len(d) < 2:
            return None
        d.pop(self.an_item(d, x))
        return self.data_call(d)

    def data_features(self, x):
        d = self.some_data(x)
        n = self.an_item(d, x)
        a = d[n]
        d[n] = np.zeros(a.shape[:-1] + (a.shape[-1] + 2,))
        return self.data_call(d)

    def data_rank(self, x):
        d = self.some_data(x)
        n = self.an_item(d, x)
        # (T and B are looked up in the first one, which stays as it is)
        if n == next(iter(d)):
            return None
        d[n] = np.zeros(d[n].shape + (3,)) if x % 2 else \
            np.zeros((7,) + d[n].shape)
        return self.data_call(d)

    def data_batch(self, x):
        d = self.some_data(x)
        n = self.an_item(d, x)
        a = d[n]
        if len(d) < 2:
            return None
        d[n] = np.zeros((a.shape[0] + 1, a.shape[1] + 1) + a.shape[2:])
        return self.data_call(d)

    def data_empty(self, x):
        return self.data_call({})

    def data_none(self, x):
        d = self.some_data(x)
        n = self.an_item(d, x)
        d[n] = [None, 'text', object()][x % 3]
        return self.data_call(d)

    def context(self, x):
        d = self.some_data(x)
        net = self.net
        net.provide_external_data(d)
        net.forward_pass()
        c = net.get_context()
        full = [i for i, a in enumerate(c) if a is not None]
        if not full:
            return None
        i = full[x % len(full)]
        a = c[i]
        c[i] = np.zeros((a.shape[0] + 2, a.shape[1] + 3, a.shape[2] + 1))
        return (lambda: net.forward_pass(context=c), c)

    # values

    def get_bad(self, x):
        net = self.net
        l, v = self.some_view(x)
        if x % 4 == 0 or l is None:
            return (lambda: net.get('Nope.outputs.default'),)
        if x % 4 == 1:
            return (lambda: net.get('%s.parameters.nope' % l),)
        if x % 4 == 2:
            return (lambda: net.get('%s.nope.%s' % (l, v)),)
        return (lambda: net.get_input('nope'),)

    # files

    def save_dir(self, x):
        return (lambda: self.net.save_as_hdf5(
            os.path.join(self.dir, 'nodir', 'net.h5')),)

    def save_on_dir(self, x):
        p = os.path.join(self.dir, 'folder')
        if not os.path.isdir(p):
            os.mkdir(p)
        return (lambda: self.net.save_as_hdf5(p),)

    def old_file(self, x):
        p = os.path.join(self.dir, 'old.h5')
        if x % 2:
            self.net.save_as_hdf5(p, comment='old')
        elif os.path.exists(p):
            os.remove(p)
        return p

    def save_comment(self, x):
        p = self.old_file(x)
        return (lambda: self.net.save_as_hdf5(p, comment=17),)

    def save_undescribable(self, x):
        p = self.old_file(x)
        l, v = self.some_view(x)
        if l is None:
            return None

        def call():
            net = self.net
            old = net.weight_modifiers
            net.set_weight_modifiers({l: {v: Undescribable()}})
            try:
                net.save_as_hdf5(p)
            finally:
                net.weight_modifiers = old
        return (call,)

    def load_missing(self, x):
        return (lambda: bs.Network.from_hdf5(
            os.path.join(self.dir, 'missing.h5')),)

    def load_garbage(self, x):
        p = os.path.join(self.dir, 'garbage.h5')
        if x % 2:
            self.net.save_as_hdf5(p)
            with open(p, 'rb') as f:
                b = f.read()
            b = b[:x % len(b)]
        else:
            b = b'nothing'
        with open(p, 'wb') as f:
            f.write(b)
        return (lambda: bs.Network.from_hdf5(p),)

    # tools and training

    def an_iter(self, x):
        return self.make_iter({'n': 2 + x % 3, 'T': 1 + x % 2, 'bs': 2,
                               'seed': x, 'shuffle': 0, 'dseed': x})

    def eval_missing(self, x):
        it = self.an_iter(x)
        n = self.an_item(it.data_shapes, x)
        return (lambda: evaluate(self.net, Without(it, n)),)

    def eval_raises(self, x):
        return (lambda: evaluate(self.net, Raising(self.an_iter(x),
                                                   x % 2)),)

    def extract_bad(self, x):
        names = [self.net.output_name, 'Nope.outputs.default']
        if x % 2:
            names = names[::-1]
        return (lambda: extract(self.net, self.an_iter(x), names), names)

    def exsave_bad(self, x):
        names = [self.net.output_name, 'Nope.outputs.default']
        p = self.old_file(x)
        return (lambda: extract_and_save(self.net, self.an_iter(x), names,
                                         p), names)

    def exsave_dir(self, x):
        names = [self.net.output_name]
        return (lambda: extract_and_save(
            self.net, self.an_iter(x), names,
            os.path.join(self.dir, 'nodir', 'f.h5')), names)

    def evaltr_missing(self, x):
        t = self.a_trainer()
        it = self.an_iter(x)
        n = self.an_item(it.data_shapes, x)
        return (lambda: t.evaluate(self.net, mon=Without(it, n)),)

    def a_trainer(self):
        if self.t is None:
            self.trainer(make_stepper(['sgd', 0.1]))
        return self.t

    def hook_twice(self, x):
        t = self.a_trainer()
        name = ['mon', 'watched', 'end', 'probe', 'proj', 'stats'][x % 6]
        if name not in t.hooks:
            name = list(t.hooks)[x % len(t.hooks)]
        h = bs.hooks.StopAfterEpoch(1, name=name)
        return (lambda: t.add_hook(h),)

    def train_names(self, x):
        t = self.a_trainer()
        it = self.an_iter(x)
        n = self.an_item(it.data_shapes, x)
        return (lambda: t.train(self.net, Without(it, n), mon=it),)

    def train_monitor(self, x):
        t = self.a_trainer()
        return (lambda: t.train(self.net, self.an_iter(x)),)

    def train_start(self, x):
        t = self.a_trainer()
        h = BadStart(lambda *a: None, 'bad', 'update', 1)

        def call():
            old = dict(t.hooks)
            t.add_hook(h)
            try:
                t.train(self.net, self.an_iter(x), mon=self.an_iter(x))
            finally:
                del t.hooks['bad']
        return (call,)

    # devices

    def handler_none(self, x):
        return (lambda: self.net.set_handler(None),)

    def handler_object(self, x):
        return (lambda: self.net.set_handler(object()),)

    def handler_memory(self, x):
        return (lambda: self.net.set_handler(Broken('memory', 0)),)

    def handler_copy(self, x):
        return (lambda: self.net.set_handler(Broken('copy', 0)),)

    # architectures

    def architecture(self):
        return json.loads(json.dumps(
            get_description(self.net)['architecture']))

    def arch_call(self, a, x):
        if x % 2:
            return (lambda: bs.Network.from_architecture(a), a)
        d = get_description(self.net)
        d['architecture'] = a
        return (lambda: create_from_description(d), d)

    def arch_type(self, x):
        a = self.architecture()
        n = sorted(a)[x % len(a)]
        a[n]['@type'] = 'Nonsense'
        return self.arch_call(a, x)

    def arch_sink(self, x):
        a = self.architecture()
        n = sorted(n for n in a if a[n]['@outgoing_connections'])
        n = n[x % len(n)]
        c = a[n]['@outgoing_connections']
        c[sorted(c)[0]] = ['Nowhere.default']
        return self.arch_call(a, x)

    def arch_shape(self, x):
        a = self.architecture()
        a['Input']['out_shapes'] = {'default': ['T', 'B', 'text']}
        return self.arch_call(a, x)

    def descr_type(self, x):
        d = get_description(self.net)
        d['@type'] = 'Nonsense'
        return (lambda: create_from_description(d), d)

    def descr_mods(self, x):
        d = get_description(self.net)
        d['weight_modifiers'] = {'Nope': {'W': [{'@type': 'FreezeValues'}]}}
        return (lambda: create_from_description(d), d)

    def graph_open(self, x):
        inp = bs.layers.Input(out_shapes={'default': ('T', 'B', 2)})
        inp - 'nope' >> bs.layers.FullyConnected(2)
        return (lambda: bs.Network.from_layer(inp),)

    def graphed(self, inp):
        bad = [x for _, k, x in self.plan['bad'] if k == 'shift-number']
        details = sorted(inp.layer.collect_connected_layers(),
                         key=lambda l: l.name)
        for x in bad:
            w = type(inp)(details[x % len(details)])
            for wrong in (lambda: w >> 3, lambda: 3 >> w, lambda: w - 3,
                          lambda: w - 'nope' >> None, lambda: w >> 'nope'):
                try:
                    wrong()
                except TypeError:
                    continue
                raise Violation('accepted', 'a connection with something '
                                'else than a layer was accepted')
            self.did.append('shift')

    def shift_number(self, x):
        inp = bs.layers.Input(out_shapes={'default': ('T', 'B', 2)})
        return (lambda: inp >> 3,)


def differences(a, b):
    names = ['the description', 'the parameters', 'the files', 'the layers',
             'the handler', 'the precision'] + ['the values or the trainer'] \
        * 9
    if len(a) != len(b):
        return 'the trainer'
    return [(n, str(x)[:300], str(y)[:300]) for n, x, y in zip(names, a, b)
            if not equal(x, y)]


def run(plan, ctx):
    for b in plan['bad']:
        if len(b) != 3 or b[1] not in CLEAN + DIRTY or not \
                isinstance(b[2], int) or b[2] < 0:
            raise BadPlan('bad')
    calm = Careful(plan, ctx, ctx.scratch())
    want = calm.run()
    c = Clumsy(plan, ctx, ctx.scratch())
    got = c.run()
    compare(want, got, tol_for(c.net), 'rejected-has-effect',
            'after the rejected calls %s' % c.did, ctx)
    ctx.state([o[0] for o in plan['ops']], plan['bad'], plan['how'])
