"""C01: a crash while saving a network leaves the old or the new file."""
import os
import random

import brainstorm as bs
import disk
import zoo
from checks.common import (REAL_ALL, gen_picked, install_picked, need,
                           save_via)
from core import BadPlan, Violation
from netfile import Judge, describe

ID = 'C01'
QUICK = 3000
LEVEL = 'fault_enumeration'
RULE = ('A seeded history of 1..4 rounds; each round saves a random network '
        'over what the previous crash left behind while every file-system '
        'call is recorded; then EVERY prefix of the recorded calls is taken '
        'as a process kill, and for every prefix several seeded power-loss '
        'states (any prefix of directory operations, synced data plus any '
        'subset of torn later writes) are judged; the history goes on from '
        'one of those states. Non-trivial: a crash state lies strictly '
        'inside the save.')
MEASURE = 'distinct directory contents after a crash'
REAL = REAL_ALL + ['h5py/libhdf5', 'CPython I/O', 'kernel file system for '
                   'the undisturbed execution']
STUB = ['crash states come from a model of the file system (kill: page cache '
        'survives; power loss: only synced data and a prefix of the directory '
        'operations are certain)']
ASSUMPTIONS = ['directory operations reach the disk in order',
               'one process writes to the path at a time']


def gen(rng, tier):
    rounds = []
    for _ in range(rng.randint(1, 3 if tier == 'quick' else 4)):
        rounds.append({
            'net': zoo.gen_net(rng, maxdepth=3,
                               dtype=rng.choice(['float32', 'float64'])),
            'seed': rng.randint(0, 10 ** 6),
            'wmods': gen_picked(rng), 'gmods': gen_picked(rng, True),
            'comment': rng.choice(['', '', 'a comment']),
            'crash_seed': rng.randint(0, 10 ** 6),
            'resaves': rng.choice([0, 0, 0, 1, 2]),
            'via': rng.choice(['direct', 'direct', 'hook', 'best']),
        })
    return {'prior': rng.choice(['none', 'none', 'junk', 'network']),
            'big': rng.choice([0, 0, 0, 40, 120]),
            'rounds': rounds,
            'name': rng.choice(['net.hdf5', 'net.h5', 'net', 'a b.hdf5'])}


def run(plan, ctx):
    base = ctx.scratch()
    root = os.path.join(base, 'd')
    os.mkdir(root)
    judge = Judge(base)
    name = plan['name']
    path = os.path.join(root, name)
    state = {}
    if plan['prior'] == 'junk':
        state = {name: b'not a network at all\n' * 3}
    elif plan['prior'] == 'network':
        zoo.build(zoo.gen_net(random.Random(1))).save_as_hdf5(path)
        state = disk.snapshot(root)
    for rnd in plan['rounds']:
        for n in os.listdir(root):
            os.unlink(os.path.join(root, n))
        disk.materialise(state, root)
        spec = dict(rnd['net'])
        if plan['big']:
            spec['layers'] = [['FC', plan['big'], 'tanh']] + [
                l for l in spec['layers'] if l[0] not in ('CONV', 'POOL')]
            spec['in'] = [plan['big']]
        net = zoo.build(spec, seed=rnd['seed'])
        install_picked(net, rnd['wmods'], rnd['gmods'])
        data = zoo.make_data(spec, 1, 1, 0)
        initial = disk.snapshot(root)
        old = initial.get(name)
        with disk.Disk(root) as d:
            for _ in range(1 + rnd['resaves']):
                save_via(rnd['via'], net, path, data, rnd['comment'])
        want = describe(net)
        final = disk.snapshot(root)
        new = final.get(name)
        why = judge.is_network(new, want)
        need(why is None, 'saved-file-wrong', lambda: why)
        fs = disk.FS(initial)
        rng = random.Random(rnd['crash_seed'])
        states = [(0, 'kill', fs.current())]
        for k, op in enumerate(d.ops):
            fs.apply(op)
            states.append((k + 1, 'kill', fs.current()))
            for mode in ('durable', 'latest', 'meta-only', 'random',
                         'random'):
                states.append((k + 1, 'power-' + mode,
                               fs.after_power_loss(rng, mode)))
        if fs.current() != final:
            # the recorded calls do not explain what is on disk; no verdict
            # about crash states is possible
            ctx.tally('model-mismatch')
            state = final
            continue
        ops = [disk.NAMES.get(o[0]) for o in d.ops]
        ctx.event('save', ops, [v[1] for v in sorted(want['views'].items())])
        n = len(d.ops)
        survivors = []
        for k, kind, st in states:
            ctx.fault('kill' if kind == 'kill' else 'power loss')
            got = st.get(name)
            ctx.state(sorted((a, hash(b)) for a, b in st.items()))
            if 0 < k < n:
                ctx.nontrivial = True
            survivors.append(st)
            if k == n and kind == 'kill':
                why = None if got == new else judge.is_network(got, want)
                need(why is None, 'returned-save-lost',
                     lambda: 'killed after save returned: %s' % why)
                continue
            if got == old or got == new:
                continue
            why = judge.is_network(got, want)
            if why is not None:
                raise Violation(
                    'damaged-after-' + kind.split('-')[0],
                    'crash (%s) after %d of %d file operations %s: the path '
                    'holds neither the old nor the new network: %s'
                    % (kind, k, n, ops, why))
        ctx.event('states', len(states), judge.loads)
        state = rng.choice(survivors)
