"""C02: storage errors while saving are reported and harm nothing."""
import errno
import os
import random

import brainstorm as bs
import disk
import numpy as np
import zoo
from checks.common import (REAL_ALL, gen_picked, install_picked, need,
                           save_via)
from core import BadPlan, Violation
from netfile import Judge, describe, same_network

ID = 'C02'
QUICK = 2600
LEVEL = 'fault_enumeration'
RULE = ('Saves (direct, by the periodic or by the keep-best hook) of random '
        'networks over an existing or missing file. First a dry run counts '
        'the file operations, then one save per fault schedule: 1..3 faults (error code, short write, interrupted call; '
        'once, a few times or until the end) at seeded operation numbers, '
        'plus for one error code every single operation. Non-trivial: a '
        'fault fired.')
MEASURE = 'distinct (operation kind, error, persistence, outcome) tuples'
REAL = REAL_ALL + ['h5py/libhdf5', 'CPython I/O', 'kernel file system']
STUB = ['failing system calls (LD_PRELOAD shim returns the error)']
ASSUMPTIONS = ['a system call that reports an error did not change the file, '
               'except short writes and close']


def gen(rng, tier):
    scheds = []
    for _ in range(rng.randint(3, 8)):
        fs = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            k = rng.choice(['ENOSPC', 'ENOSPC', 'EIO', 'EIO', 'EACCES',
                            'EMFILE', 'EDQUOT', 'EROFS', 'ENOMEM', 'EINTR',
                            'short', 'short'])
            fs.append({'err': k, 'at': round(rng.random(), 3),
                       'len': rng.choice([1, 1, 2, 5, disk.BIG]),
                       'n': rng.choice([1, 7, 511, 2048])})
        scheds.append(fs)
    return {'net': zoo.gen_net(rng, maxdepth=3,
                               dtype=rng.choice(['float32', 'float64'])),
            'big': rng.choice([0, 0, 60]),
            'seed': rng.randint(0, 10 ** 6),
            'wmods': gen_picked(rng), 'gmods': gen_picked(rng, True),
            'prior': rng.choice(['none', 'network', 'network', 'junk']),
            'sweep': rng.choice([None, 'ENOSPC', 'EIO', 'EIO']),
            'sweep_len': rng.choice([1, disk.BIG]),
            'link': rng.choice([0, 0, 0, 1]),
            'via': rng.choice(['direct', 'direct', 'hook', 'best']),
            'scheds': scheds}


def run(plan, ctx):
    base = ctx.scratch()
    root = os.path.join(base, 'd')
    os.mkdir(root)
    judge = Judge(base)
    path = os.path.join(root, 'net.hdf5')
    if plan['prior'] == 'junk':
        with open(path, 'wb') as f:
            f.write(b'precious data\n')
    elif plan['prior'] == 'network':
        zoo.build(zoo.gen_net(random.Random(2))).save_as_hdf5(path)
    elif plan['prior'] != 'none':
        raise BadPlan('prior')
    target = path
    if plan['link']:
        os.mkdir(os.path.join(root, 'sub'))
        target = os.path.join(root, 'link.hdf5')
        os.symlink('net.hdf5', target)
    spec = dict(plan['net'])
    if plan['big']:
        spec['layers'] = [['FC', plan['big'], 'tanh']] + [
            l for l in spec['layers'] if l[0] not in ('CONV', 'POOL')]
        spec['in'] = [plan['big']]
    net = zoo.build(spec, seed=plan['seed'])
    install_picked(net, plan['wmods'], plan['gmods'])
    data = zoo.make_data(spec, 3, 2, plan['seed'])
    want = describe(net)

    def content(p):
        try:
            with open(p, 'rb') as f:
                return f.read()
        except (IOError, OSError):
            return None

    dry = os.path.join(base, 'dry')
    os.mkdir(dry)
    with disk.Disk(dry) as d:
        save_via(plan['via'], net, os.path.join(dry, 'net.hdf5'), data)
    nops = max(1, d.nops)
    scheds = [list(s) for s in plan['scheds']]
    if plan['sweep']:
        for k in range(nops + 2):
            scheds.append([{'err': plan['sweep'], 'op': k,
                            'len': plan['sweep_len'], 'n': 1}])
    before = content(target)
    for s in scheds:
        outcome = 'returned'
        with disk.Disk(root) as d:
            for f in s:
                at = f.get('op', int(f.get('at', 0) * (nops + 1)))
                if f['err'] == 'short':
                    d.fault(at, min(disk.BIG, at + f['len'] - 1), 0, f['n'],
                            [disk.WRITE])
                elif f['err'] == 'EINTR':
                    d.fault(at, at + min(f['len'], 5) - 1, errno.EINTR, -1,
                            disk.APPLIES['EINTR'])
                else:
                    d.fault(at, min(disk.BIG, at + f['len'] - 1),
                            disk.ERR[f['err']], -1, disk.APPLIES[f['err']])
            try:
                save_via(plan['via'], net, target, data)
            except Exception as e:
                outcome = type(e).__name__
            d.clear()
            fired = d.fired
        for o in d.ops:
            if o[4]:
                ctx.fault('%s on %s' % (errno.errorcode.get(o[4], o[4]),
                                        disk.NAMES[o[0]]))
                ctx.state(o[0], o[4], outcome, [f['len'] for f in s])
        if fired:
            ctx.nontrivial = True
            if any(f['err'] == 'short' for f in s):
                ctx.fault('short write')
        ctx.event('save', [(o[0], o[4]) for o in d.ops], outcome)
        after = content(target)
        if outcome == 'returned':
            why = judge.is_network(after, want)
            need(why is None, 'silent-failure',
                 lambda: 'save returned without an error under faults %s, '
                 'but %s' % (s, why))
            need(content(path) == after, 'silent-failure',
                 'saved through a link, but the file it leads to is another')
        else:
            need(after == before, 'old-file-harmed',
                 lambda: 'save raised %s under faults %s and the previous '
                 'file is %s' % (outcome, s, 'gone' if after is None
                                 else 'changed'))
            ctx.tally('saves that raised')
        d2 = same_network(want, describe(net))
        need(not d2, 'network-disturbed',
             lambda: 'after a failed save the network in memory differs in '
             '%s' % d2)
        try:
            save_via(plan['via'], net, target, data)
        except Exception as e:
            raise Violation('retry-fails', 'after the fault %s cleared, '
                            'saving again fails: %s: %s'
                            % (s, type(e).__name__, e))
        why = judge.is_network(content(target), want)
        need(why is None, 'retry-wrong', lambda: 'saved again after fault %s '
             'cleared: %s' % (s, why))
        # the network still works
        net.provide_external_data(data)
        net.forward_pass(training_pass=False)
        net.get_loss_values()
        # back to the initial situation
        if before is None:
            os.unlink(os.path.realpath(target))
        else:
            with open(target, 'wb') as f:
                f.write(before)
