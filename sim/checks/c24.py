"""C24: what is handed over or obtained is independent of the caller's copy."""
import copy

import brainstorm as bs
import numpy as np
import zoo
from brainstorm.describable import Describable, get_description
from checks.common import REAL_ALL, need, tol_for
from checks.prog import Program, compare, gen_program
from core import BadPlan

ID = 'C24'
QUICK = 4000
LEVEL = 'exploration'
RULE = ('A seeded program of 2..10 operations on one network (creation from '
        'an architecture, layers or a description, initialisation with '
        'arrays, lists and initializers, modifiers, data, passes with '
        'contexts, values obtained in every way, evaluation, extraction, '
        'descriptions, files, training, handler switches) is run twice: by a '
        'calm caller, and by one who writes over everything he handed over '
        'or got (arrays, lists, dictionaries, modifiers, initializers, layer '
        'options, contexts, descriptions, logs), at once or later, as the '
        'seed decides. Both have to observe the same; what the calm caller '
        'keeps must never change, and what he handed over is not altered. '
        'Non-trivial: something was written over.')
MEASURE = 'distinct (operations, what was written over when)'
REAL = REAL_ALL + ['h5py/libhdf5']
STUB = ['the caller']
ASSUMPTIONS = ['data is handed to iterators by reference; live objects '
               '(net.buffer, net.handler, hooks, trainer.logs while '
               'training) are not copies',
               'comparisons with relative tolerance 1e-9 (float64) or 3e-4 '
               '(float32): the alignment of buffers may change rounding']


def gen(rng, tier):
    plan = gen_program(rng, 10 if tier == 'quick' else 16)
    plan['when'] = [rng.choice([0, 0, 0, 0, 1, 2, 5, None])
                    for _ in range(24)]
    plan['with'] = rng.choice(['nan', 'number', 'number', 'noise'])
    return plan


def wreck(x, rs, kind, seen=None):
    """write over everything in x"""
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        if x.flags.writeable:
            if x.dtype.kind != 'f':
                x[...] = 1
            else:
                x[...] = {'nan': np.nan, 'number': 7.25}.get(
                    kind, rs.standard_normal(x.shape))
    elif isinstance(x, dict):
        for v in list(x.values()):
            wreck(v, rs, kind, seen)
        if kind == 'number':
            for k in list(x):
                if not isinstance(x[k], (dict, list, np.ndarray)):
                    x[k] = 11
            x['nonsense'] = 3
        else:
            x.clear()
    elif isinstance(x, list):
        for v in x:
            wreck(v, rs, kind, seen)
        if kind == 'number':
            x[:] = [v if isinstance(v, (dict, list, np.ndarray)) else 13
                    for v in x] + ['nonsense']
        else:
            del x[:]
    elif isinstance(x, tuple):
        for v in x:
            wreck(v, rs, kind, seen)
    elif isinstance(x, Describable):
        for k, v in list(vars(x).items()):
            if isinstance(v, (np.ndarray, dict, list, Describable)):
                wreck(v, rs, kind, seen)
            elif isinstance(v, (int, float)) and not isinstance(v, bool):
                setattr(x, k, -3)
            elif k in ('array', 'mask', 'weights', 'layer_name',
                       'view_name'):
                setattr(x, k, None)


def picture(x):
    """a deep copy of plain data, descriptions of objects"""
    if isinstance(x, np.ndarray):
        return np.array(x)
    if isinstance(x, dict):
        return {k: picture(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [picture(v) for v in x]
    if isinstance(x, Describable):
        return [get_description(x), getattr(x, 'layer_name', None),
                getattr(x, 'view_name', None)]
    return x


def equal(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and zoo.same(a, b)
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and \
            all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and \
            all(map(equal, a, b))
    return type(a) == type(b) and (a == b or a != a and b != b)


class Calm(Program):
    """keeps everything"""
    handed = ()

    def about(self, *objs):
        self.handed = [(o, picture(o)) for o in objs]

    def given(self, name, *objs):
        for o, p in self.handed:
            need(equal(p, picture(o)), 'altered',
                 lambda: 'what was handed over (%s) was altered' % name)
        self.handed = ()
        for o in objs:
            self.kept.append(['what was handed over (%s)' % name, o,
                              picture(o)])

    def got(self, name, *objs):
        for o in objs:
            self.kept.append(['what was obtained (%s)' % name, o,
                              picture(o)])

    def between(self, i):
        for name, o, p in self.kept:
            need(equal(p, picture(o)), 'changed',
                 lambda: '%s was changed later (operation %d, %s)'
                 % (name, i, self.plan['ops'][i][0] if i >= 0 else 'build'))


class Vandal(Program):
    """writes over everything"""

    def __init__(self, plan, ctx, folder):
        Program.__init__(self, plan, ctx, folder)
        self.rs = np.random.RandomState(plan['seed'])
        self.later = []
        self.n = 0
        self.did = []

    def given(self, name, *objs):
        w = self.plan['when'][self.n % len(self.plan['when'])]
        self.n += 1
        if w is None:
            return
        if w == 0:
            self.destroy(name, objs)
        else:
            self.later.append([w, name, objs])

    got = given

    def destroy(self, name, objs):
        self.did.append(name)
        self.ctx.fault('wrote over ' + name)
        for o in objs:
            wreck(o, self.rs, self.plan['with'])
        self.ctx.nontrivial = True

    def between(self, i):
        for x in self.later:
            x[0] -= 1
        due = [x for x in self.later if x[0] <= 0]
        self.later = [x for x in self.later if x[0] > 0]
        for _, name, objs in due:
            self.destroy(name, objs)


def run(plan, ctx):
    if not plan['when']:
        raise BadPlan('when')
    d = ctx.scratch()
    calm = Calm(plan, ctx, d)
    want = calm.run()
    calm.between(len(plan['ops']) - 1)
    v = Vandal(plan, ctx, d)
    got = v.run()
    compare(want, got, tol_for(v.net), 'not-a-copy',
            'after writing over %s' % sorted(set(v.did)), ctx)
    ctx.state([o[0] for o in plan['ops']], plan['when'], plan['with'],
              plan['how'])
