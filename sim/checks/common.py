"""Pieces shared by the checks."""
import fnmatch

import numpy as np

import brainstorm as bs
import world
import zoo
from brainstorm.data_iterators import Minibatches, Undivided
from brainstorm.handlers import NumpyHandler
from brainstorm.hooks import Hook
from brainstorm import value_modifiers as vm
from core import BadPlan, Violation

REAL_ALL = ['brainstorm (all Python code from /repo)',
            'brainstorm.handlers._cpuop built from /repo', 'numpy']
STUB_NONE = []


def need(cond, sig, msg=''):
    if not cond:
        raise Violation(sig, msg() if callable(msg) else msg)


class JitterValues(vm.ValueModifier):
    """A user-defined modifier that adds noise."""

    def __init__(self, std):
        super(JitterValues, self).__init__()
        self.std = std

    def __call__(self, handler, view):
        noise = handler.allocate(view.shape)
        handler.set_from_numpy(noise, self.std *
                               self.rnd.standard_normal(view.shape))
        handler.add_tt(view, noise, view)


class JitterGradients(vm.GradientModifier):
    """A user-defined modifier that adds noise."""

    def __init__(self, std):
        super(JitterGradients, self).__init__()
        self.std = std

    def __call__(self, handler, parameters, gradients):
        noise = handler.allocate(gradients.shape)
        handler.set_from_numpy(noise, self.std *
                               self.rnd.standard_normal(gradients.shape))
        handler.add_tt(gradients, noise, gradients)


def add_jitter(rng, plan, gradient=False):
    """let a plan of gen_picked contain noise"""
    m = ['gjitter' if gradient else 'jitter', rng.choice([0.01, 0.1])]
    if isinstance(plan, dict):
        plan['pool'].insert(rng.randint(0, len(plan['pool'])), m)
    else:
        for x in plan[:2]:
            x[1].insert(rng.randint(0, len(x[1])), m)
    return plan


def make_mods(plan, net):
    """Turn a zoo.gen_mods plan into the dict for set_*_modifiers."""
    out = {}
    for pat, mods in plan:
        out[pat] = [make_mod(m, net, pat) for m in mods]
    return out


def make_mod(m, net, pat=None, seed=5):
    k = m[0]
    if k == 'clip':
        return vm.ClipValues(m[1], m[2])
    if k == 'norm':
        return vm.ConstrainL2Norm(m[1])
    if k == 'l1':
        return vm.L1Decay(m[1])
    if k == 'l2':
        return vm.L2Decay(m[1])
    if k == 'freeze':
        return vm.FreezeValues()
    if k == 'jitter':
        return JitterValues(m[1])
    if k == 'gjitter':
        return JitterGradients(m[1])
    if k == 'mask':
        raise BadPlan('mask needs a shape')
    raise BadPlan(k)


def install_mods(net, wplan, gplan):
    """Install modifiers for single views (explicit shapes)."""
    for plan, setter in ((wplan, net.set_weight_modifiers),
                         (gplan, net.set_gradient_modifiers)):
        refs = {}
        for layer, view, mods in plan:
            refs.setdefault(layer, {})[view] = [
                make_view_mod(m, net, layer, view) for m in mods]
        if refs:
            setter(refs)


def make_view_mod(m, net, layer, view):
    if m[0] in ('mask', 'freezeto'):
        shape = net.buffer[layer].parameters[view].shape
        rs = np.random.RandomState(m[1])
        if m[0] == 'mask':
            return vm.MaskValues((rs.random_sample(shape) < 0.6)
                                 .astype(float))
        return vm.FreezeValues(rs.standard_normal(shape) * 0.3)
    return make_mod(m, net)


def gen_view_mods(rng, spec_net_views, gradient=False, p=0.4):
    """plan: list of [layer, view, [mods]]"""
    out = []
    for layer, view in spec_net_views:
        if rng.random() > p:
            continue
        mods = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.choice(['clip', 'norm', 'mask', 'freeze', 'freezeto']
                           if not gradient else ['clip', 'l1', 'l2', 'mask'])
            if k == 'clip':
                mods.append(['clip', -rng.choice([0.1, 0.5]),
                             rng.choice([0.2, 0.4])])
            elif k == 'norm':
                mods.append(['norm', rng.choice([0.3, 1.0])])
            elif k in ('l1', 'l2'):
                mods.append([k, rng.choice([0.1, 0.01])])
            elif k in ('mask', 'freezeto'):
                mods.append([k, rng.randint(0, 99)])
            else:
                mods.append([k])
        out.append([layer, view, mods])
    return out


def gen_picked(rng, gradient=False):
    """plan for modifiers: list of [view number, [mods]] (modulo the number
    of views), or a dict describing references with wildcards and defaults
    that share modifier objects: {'pool': [mods], 'refs': [[layer selector,
    view selector or None, as list?, [pool numbers]]]}"""
    if rng.random() < 0.3:
        pool = []
        while len(pool) < rng.choice([1, 1, 2, 3]):
            pool += [m for m in gen_view_mods(rng, [('', '')], gradient,
                                              1.)[0][2]
                     if m[0] not in ('mask', 'freezeto')]
        return {'pool': pool,
                'refs': [[rng.randint(0, 30),
                          rng.choice([None, rng.randint(0, 30)]),
                          rng.choice([0, 1]),
                          [rng.randint(0, 9) for _ in
                           range(rng.choice([1, 1, 2, 3]))]]
                         for _ in range(rng.choice([1, 1, 2, 3]))]}
    out = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
        out.append([rng.randint(0, 30),
                    gen_view_mods(rng, [('', '')], gradient, 1.)[0][2]])
    return out


def picked_views(net):
    """views a user would constrain (not clock periods, running means)"""
    return [lv for lv in zoo.param_views(net)
            if lv[1] not in ('timing', 'mu', 'sigma')]


def _layers_views(net):
    """views of all layers, also of those without parameters"""
    out = {name: [] for name in net.layers}
    for l, v in zoo.param_views(net):
        out[l].append(v)
    return out


def _selected(net, plan):
    """[layer reference, view reference or None, as list?, pool numbers] of
    all usable references of the plan"""
    lv = _layers_views(net)
    names = sorted(l for l in lv if lv[l])
    pats = ['default', '*'] + names + sorted({n[0] + '*' for n in names})
    out = {}
    for lsel, vsel, aslist, ids in plan['refs']:
        lp = pats[lsel % len(pats)]
        ids = [i % len(plan['pool']) for i in ids]
        if not aslist:
            ids = ids[:1]
        if lp == 'default':
            vsel = None
        if vsel is None:
            vp = None
        else:
            hit = [lv[l] for l in lv if fnmatch.fnmatchcase(l, lp)]
            common = sorted(set.intersection(*[set(h) for h in hit]))
            vps = common + ['default'] + (['*'] if all(hit) else [])
            vp = vps[vsel % len(vps)]
        keys = [k for k in out if k[0] == lp]
        if any((k[1] is None) != (vp is None) for k in keys):
            continue
        trial = dict(out)
        trial[lp, vp] = [lp, vp, aslist, ids]
        views = set(picked_views(net))
        if all((l, v) in views for l, v, _ in _resolve(
                lv, list(trial.values()), plan['pool'])):
            out = trial
    # references to one layer pattern form one dictionary
    order = []
    for lp, _ in out:
        if lp not in order:
            order.append(lp)
    return [out[k] for lp in order for k in out if k[0] == lp]


def _resolve(lv, refs, pool):
    """What the documentation promises: every reference that matches applies,
    the default of the innermost level if there is none."""
    res = []
    for l in sorted(lv):
        mine = [r for r in refs if r[0] != 'default' and
                fnmatch.fnmatchcase(l, r[0])]
        for v in lv[l]:
            got = []
            for lp in sorted({r[0] for r in mine},
                             key=[r[0] for r in mine].index):
                level = [r for r in mine if r[0] == lp]
                hit = [r for r in level if r[1] is None or (
                    r[1] != 'default' and fnmatch.fnmatchcase(v, r[1]))]
                got += hit or [r for r in level if r[1] == 'default']
            if not got:
                got = [r for r in refs if r[0] == 'default']
            seen = []
            for r in got:
                if r[2:] not in seen:
                    seen.append(r[2:])
            mods = [pool[i] for _, ids in seen for i in ids]
            if mods:
                res.append([l, v, mods])
    return res


def resolve_picked(net, plan):
    """list of [layer, view, mods] the plan amounts to"""
    if isinstance(plan, dict):
        if not plan['pool']:
            raise BadPlan('pool')
        return _resolve(_layers_views(net), _selected(net, plan),
                        plan['pool'])
    vs = picked_views(net)
    seen = {}
    for i, mods in plan:
        l, v = vs[i % len(vs)]
        seen[(l, v)] = [l, v, mods]
    return list(seen.values())


def refs_of(net, plan):
    """the argument for set_weight_modifiers or set_gradient_modifiers"""
    refs = {}
    if isinstance(plan, dict):
        resolve_picked(net, plan)
        pool = [make_mod(m, net) for m in plan['pool']]
        for lp, vp, aslist, ids in _selected(net, plan):
            val = [pool[i] for i in ids] if aslist else pool[ids[0]]
            if vp is None:
                refs[lp] = val
            else:
                refs.setdefault(lp, {})[vp] = val
        return refs
    for l, v, mods in resolve_picked(net, plan):
        refs.setdefault(l, {})[v] = [make_view_mod(m, net, l, v)
                                     for m in mods]
    return refs


def mod_kinds(plan):
    """kinds of the modifiers of a plan, for the statistics"""
    if isinstance(plan, dict):
        return ['shared'] + sorted({m[0] for m in plan['pool']})
    return [sorted({m[0] for m in x[1]}) for x in plan]


def install_picked(net, wplan, gplan):
    for plan, setter in ((wplan, net.set_weight_modifiers),
                         (gplan, net.set_gradient_modifiers)):
        refs = refs_of(net, plan)
        if refs:
            setter(refs)
    return [resolve_picked(net, wplan), resolve_picked(net, gplan)]


def tol_for(net):
    return 1e-9 if net.get('parameters').dtype == np.float64 else 3e-4


# --------------------------------- training ------------------------------- #

def make_stepper(p):
    k = p[0]
    if k == 'sgd':
        return bs.training.SgdStepper(p[1])
    if k == 'mom':
        return bs.training.MomentumStepper(p[1], p[2],
                                           scale_learning_rate=bool(p[3]))
    if k == 'nag':
        return bs.training.NesterovStepper(p[1], p[2],
                                           scale_learning_rate=bool(p[3]))
    if k == 'fwd':
        return bs.training.steppers.ForwardStepper(bool(p[1]))
    raise BadPlan(k)


def gen_stepper(rng, kinds=('sgd', 'mom', 'nag')):
    k = rng.choice(list(kinds))
    lr = rng.choice([0.01, 0.05, 0.1])
    if k == 'sgd':
        return ['sgd', lr]
    if k == 'fwd':
        return ['fwd', rng.choice([0, 1])]
    return [k, lr, rng.choice([0.0, 0.5, 0.9]), rng.choice([0, 1])]


def make_iter(spec, it):
    """it: {'n','T','bs','shuffle','seed','dseed'}; bs 0 means Undivided"""
    if it['n'] < 1 or it['T'] < 1:
        raise BadPlan('empty data')
    data = zoo.make_data(spec, it['T'], it['n'], it['dseed'])
    if not it['bs']:
        return Undivided(**data)
    i = Minibatches(it['bs'], shuffle=bool(it['shuffle']), **data)
    i.rnd.set_seed(it['seed'])
    return i


def gen_iter(rng, maxn=7, maxT=4, shuffle=None, undivided=True):
    n = rng.randint(1, maxn)
    return {'n': n, 'T': rng.randint(1, maxT),
            'bs': rng.choice(([0] if undivided else []) +
                             [1, 2, 3, 3, n]),
            'shuffle': rng.choice([0, 1]) if shuffle is None else shuffle,
            'seed': rng.randint(0, 10 ** 6),
            'dseed': rng.randint(0, 10 ** 6)}


class Probe(Hook):
    """A user-defined hook: calls fn(epoch_nr, update_nr, net, stepper, logs)
    and returns what it returns."""

    def __init__(self, fn, name, timescale='epoch', interval=1):
        super(Probe, self).__init__(name, timescale, interval)
        self.fn = fn

    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        return self.fn(epoch_nr, update_nr, net, stepper, logs)


def trainer(stepper, hooks=()):
    t = bs.Trainer(stepper, verbose=False)
    for h in hooks:
        t.add_hook(h)
    return t


def sgd_steps(net, data_list, lr=0.05):
    for d in data_list:
        net.provide_external_data(d)
        net.forward_pass(training_pass=True)
        net.backward_pass()
        p = net.get('parameters') - lr * net.get('gradients')
        zoo.set_params(net, p)
        net.apply_weight_modifiers()


def sizes(net):
    """number of steps and batch size the network is set up for"""
    m = getattr(net, '_buffer_manager', None)
    if hasattr(m, 'time_size'):
        return m.time_size, m.batch_size
    a = net.handler.get_numpy_copy(
        net.buffer['Input'].outputs[list(net.buffer['Input']
                                         .outputs.keys())[0]])
    return a.shape[0], a.shape[1]


def forward_contexts(net):
    """the context, as numpy arrays (None where there is none)"""
    m = getattr(net, '_buffer_manager', None)
    hubs = getattr(m, 'hubs', None)
    out = []
    for i, c in enumerate(net.get_context()):
        # (what a backward pass leaves behind is not part of the state)
        if c is None or hubs is None or \
                getattr(hubs[i], 'is_backward_only', True):
            out.append(None)
        else:
            out.append(net.handler.get_numpy_copy(c))
    return out


def snapshot(net, backward=False):
    """Everything a pass computes that a user can see."""
    out = {}
    T = sizes(net)[0]
    for name in net.layers:
        v = net.buffer[name]
        for kind in ('outputs',) + (('output_deltas',) if backward and
                                    name == 'Input' else ()):
            for n in v[kind].keys():
                a = net.handler.get_numpy_copy(v[kind][n])
                # (an extra row at the end may hold the context)
                if a.ndim > 2 and a.shape[0] > T:
                    a = a[:T]
                out['%s.%s.%s' % (name, kind, n)] = a
    for k, v in net.get_loss_values().items():
        out['loss ' + k] = np.array(v)
    for i, c in enumerate(forward_contexts(net)):
        if c is not None:
            out['context %d' % i] = c
    out['parameters'] = net.get('parameters')
    if backward:
        out['gradients'] = net.get('gradients')
    return out


def save_via(via, net, path, data, comment=''):
    """Save the network in one of the ways a user has."""
    if via == 'direct':
        return net.save_as_hdf5(path, comment)
    t = trainer(bs.training.SgdStepper(0.1))
    if via == 'hook':
        t.add_hook(bs.hooks.SaveNetwork(path))
    elif via == 'best':
        t.add_hook(Probe(lambda *a: 1.5, 'value'))
        t.add_hook(bs.hooks.SaveBestNetwork('value', path, 'max'))
    else:
        raise BadPlan(via)
    # ends before the first update
    t.add_hook(bs.hooks.StopAfterEpoch(0))
    t.train(net, Undivided(**data))
