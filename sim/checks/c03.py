"""C03: a saved network loads back as the same network."""
import base64
import os
import pickle
import subprocess
import sys

import boot
import brainstorm as bs
import numpy as np
import world
import zoo
from brainstorm.handlers import NumpyHandler
from checks.common import (REAL_ALL, install_picked, gen_picked,
                           mod_kinds, need,
                           sgd_steps, tol_for)
from core import BadPlan, Violation
from netfile import describe, same_network, in_child

ID = 'C03'
QUICK = 2000
LEVEL = 'exploration'
RULE = ('Random network, precision, initializers, weight/gradient modifiers '
        'and history (passes of several sizes, training, handler changes, '
        'special parameter values), then save, load (same process, forked '
        'process, or a new process with another hash seed, clock and memory '
        'contents), compare everything, continue training both sides, save '
        'and load again. Non-trivial: every run with a history or modifiers.')
MEASURE = 'distinct (layer kinds, precision, modifiers, loader) combinations'
REAL = REAL_ALL + ['h5py/libhdf5', 'process boundaries']
STUB = ['content of freshly allocated memory', 'wall clock']
ASSUMPTIONS = ['random draws (dropout) are compared with equal handler seeds: '
               'the state of random generators is not part of a saved '
               'network']


def gen(rng, tier):
    hist = []
    for _ in range(rng.randint(0, 4)):
        k = rng.choice(['fwd', 'train', 'dtype', 'save', 'set', 'wmods',
                        'gmods', 'reinit'])
        if k in ('fwd', 'train'):
            hist.append([k, rng.randint(1, 4), rng.randint(1, 4),
                         rng.randint(0, 999)])
        elif k == 'dtype':
            hist.append([k, rng.choice(['float32', 'float64'])])
        elif k == 'wmods':
            hist.append([k, gen_picked(rng)])
        elif k == 'gmods':
            hist.append([k, gen_picked(rng, True)])
        elif k == 'reinit':
            hist.append([k, rng.choice(zoo.INITS), rng.randint(0, 999)])
        else:
            hist.append([k, rng.randint(0, 999)])
    return {'net': zoo.gen_net(rng, dtype=rng.choice(['float32', 'float64'])),
            'seed': rng.randint(0, 10 ** 6),
            'init_kind': rng.choice([None] + zoo.INITS),
            'wmods': gen_picked(rng), 'gmods': gen_picked(rng, True),
            'hist': hist,
            'special': rng.choice([0, 0, 0, 1]),
            'loader': rng.choice(['same'] * 6 + ['fork'] * 3 + ['exec']),
            'hash': rng.randint(1, 1000),
            'poison': rng.choice([None, 'nan', 'garbage']),
            'cont': [[rng.randint(1, 4), rng.randint(1, 3),
                      rng.randint(0, 999)]
                     for _ in range(rng.randint(1, 3))],
            'again': rng.choice([0, 1])}


def observe(net, spec, cont, hseed, train=True):
    """What a user can see of a network; ends with continued training."""
    out = {'names': list(net.layers), 'views': zoo.views(net)}
    for i, (T, B, s) in enumerate(cont):
        data = zoo.make_data(spec, T, B, s)
        net.handler.rnd.set_seed(hseed + i)
        net.provide_external_data(data)
        net.forward_pass(training_pass=False)
        out['eval%d' % i] = net.get(zoo.output_path(spec))
        out['evalloss%d' % i] = np.array(sorted(
            net.get_loss_values().items()), dtype=object)[:, 1].astype(float)
        net.handler.rnd.set_seed(hseed + i)
        net.provide_external_data(data)
        net.forward_pass(training_pass=True)
        out['train%d' % i] = net.get(zoo.output_path(spec))
        net.backward_pass()
        out['grad%d' % i] = net.get('gradients')
        if train:
            p = net.get('parameters') - 0.05 * out['grad%d' % i]
            zoo.set_params(net, p)
            net.apply_weight_modifiers()
            out['params%d' % i] = net.get('parameters')
    return out


def compare(a, b, tol, what, sig):
    need(a['names'] == b['names'], sig, '%s: layers differ' % what)
    need(sorted(a['views']) == sorted(b['views']), sig,
         '%s: parameter names differ' % what)
    for k in sorted(a['views']):
        need(zoo.same(a['views'][k], b['views'][k]), sig,
             lambda: '%s: parameters %s: %s' % (
                 what, k, zoo.diff(a['views'][k], b['views'][k])))
    for k in a:
        if k in ('names', 'views'):
            continue
        need(zoo.close(a[k], b[k], tol), sig,
             lambda: '%s: %s: %s' % (what, k, zoo.diff(a[k], b[k])))


def load_and_observe(path, spec, cont, hseed, poison, train, again):
    with world.device(poison=poison, pseed=hseed):
        net = bs.Network.from_hdf5(path)
        d = describe(net)
        if again:
            net.save_as_hdf5(path + '.2')
        return d, observe(net, spec, cont, hseed, train)


def main_child():
    """entry point of the separate process"""
    args = pickle.loads(base64.b64decode(sys.stdin.read()))
    out = load_and_observe(*args)
    sys.stdout.write('RESULT ' + base64.b64encode(
        pickle.dumps(out)).decode() + '\n')


def run(plan, ctx):
    spec = plan['net']
    base = ctx.scratch()
    path = os.path.join(base, 'net.hdf5')
    net = zoo.build(spec, seed=plan['seed'], init_kind=plan['init_kind'])
    install_picked(net, plan['wmods'], plan['gmods'])
    for h in plan['hist']:
        ctx.nontrivial = True
        if h[0] in ('fwd', 'train'):
            d = zoo.make_data(spec, h[1], h[2], h[3])
            if h[0] == 'train':
                sgd_steps(net, [d, d])
            else:
                net.provide_external_data(d)
                net.forward_pass()
        elif h[0] == 'dtype':
            net.set_handler(NumpyHandler(np.dtype(h[1]).type, seed=11))
        elif h[0] == 'save':
            net.save_as_hdf5(path)
        elif h[0] == 'set':
            rs = np.random.RandomState(h[1])
            p = net.get('parameters')
            keep = zoo.views(net)
            zoo.set_params(net, p * (1 + 0.2 * rs.standard_normal(p.shape)))
            for l, v in zoo.param_views(net):
                if v == 'timing':
                    net.handler.set_from_numpy(
                        net.buffer[l].parameters[v],
                        keep['%s.%s' % (l, v)])
        elif h[0] == 'wmods':
            install_picked(net, h[1], [])
        elif h[0] == 'gmods':
            install_picked(net, [], h[1])
        elif h[0] == 'reinit':
            d = {l: {'timing': net.get(l + '.parameters.timing'),
                     'default': bs.initializers.Gaussian(0.3)}
                 for l, v in zoo.param_views(net) if v == 'timing'}
            d.update(zoo.make_init(h[1] if 'CONV' not in zoo.names_in(spec)
                                   else 'gauss'))
            net.initialize(d, seed=h[2])
        else:
            raise BadPlan(h[0])
    if plan['special']:
        p = net.get('parameters')
        idx = [i for i in range(p.size)]
        sp = [np.inf, -np.inf, np.nan, -0.0, 1e-310, 5e-324, 1e308, 1e-40]
        keep = zoo.views(net)
        for j, v in enumerate(sp):
            p[(plan['seed'] + j * 7) % p.size] = v
        zoo.set_params(net, p)
    if plan['wmods'] or plan['gmods']:
        ctx.nontrivial = True
    train = not plan['special']
    cont = plan['cont'] if train else []
    hseed = plan['seed'] + 5
    before = describe(net)
    net.save_as_hdf5(path)
    d = same_network(before, describe(net))
    need(not d, 'saving-disturbs', lambda: 'saving changed %s' % d)
    args = (path, spec, cont, hseed, plan['poison'], train, plan['again'])
    ctx.event('load', plan['loader'])
    if plan['loader'] == 'same':
        loaded, seen = load_and_observe(*args)
    elif plan['loader'] == 'fork':
        st, val = in_child(lambda: load_and_observe(*args))
        need(st == 'ok', 'load-fails', lambda: '%s %s' % (st, val))
        loaded, seen = val
        ctx.fault('loaded by another process')
    else:
        p = subprocess.run(
            [sys.executable, '-W', 'ignore',
             os.path.join(boot.SIM, 'child.py'), 'c03'],
            input=base64.b64encode(pickle.dumps(args)).decode(),
            stdout=subprocess.PIPE, stderr=subprocess.PIPE,
            universal_newlines=True, timeout=60,
            env=boot.child_env(plan['hash']))
        lines = [l for l in p.stdout.splitlines() if l.startswith('RESULT ')]
        need(lines, 'load-fails', lambda: p.stderr[-1500:])
        loaded, seen = pickle.loads(base64.b64decode(lines[0][7:]))
        ctx.fault('loaded by another process with other hash seed')
    if plan['poison']:
        ctx.fault('memory content ' + plan['poison'])
    d = same_network(before, loaded)
    need(not d, 'loaded-differs', lambda: 'the loaded network differs in %s: '
         '%s' % (d, [(str(before[k])[:200], str(loaded[k])[:200])
                     for k in d]))
    tol = tol_for(net)
    if plan['again']:
        st, val = in_child(lambda: load_and_observe(
            path + '.2', spec, cont, hseed, plan['poison'], train, 0))
        need(st == 'ok', 'reload-fails', lambda: '%s %s' % (st, val))
        d = same_network(before, val[0])
        need(not d, 'resaved-differs', lambda: 'saved again: differs in %s'
             % d)
    mine = observe(net, spec, cont, hseed, train)
    compare(mine, seen, tol, 'original / loaded', 'behaves-differently')
    if plan['again']:
        compare(mine, val[1], tol, 'original / loaded twice',
                'behaves-differently')
    for k in sorted(mine):
        if k not in ('names', 'views'):
            ctx.data(mine[k])
    ctx.state(sorted(set(zoo.names_in(spec))), spec['dtype'],
              mod_kinds(plan['wmods']),
              plan['loader'])
