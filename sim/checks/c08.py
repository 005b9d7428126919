"""C08: hooks run exactly when scheduled, every result is logged once."""
import copy

import brainstorm as bs
import numpy as np
import zoo
from checks.common import (REAL_ALL, Probe, gen_iter, gen_stepper, make_iter,
                           make_stepper, need, trainer)
from core import BadPlan, Violation

ID = 'C08'
QUICK = 20000
LEVEL = 'exploration'
RULE = ('Trainers with 1..6 scripted hooks of seeded timescale, interval, '
        'verbosity, return values (numbers, zero, text, nested and changing '
        'dictionaries, nothing), stop requests with and without value and '
        'errors at seeded calls, hooks with and without a start method, data '
        'iterators that fail at seeded batches, over several train() calls, '
        'with calls of evaluate() in between. '
        'The complete history of calls (hook, epoch, update, logs seen) and '
        'the final logs are compared with a model. Non-trivial: more than 5 '
        'hook calls.')
MEASURE = 'distinct call histories'
REAL = REAL_ALL
STUB = ['hooks and failing data source are user code supplied by the check']
ASSUMPTIONS = []


def gen(rng, tier):
    hooks = []
    for i in range(rng.randint(1, 6)):
        hooks.append({
            'ts': rng.choice(['epoch', 'update']),
            'iv': rng.choice([1, 1, 1, 2, 3, 4]),
            'ret': rng.choice(['none', 'num', 'zero', 'false', 'text', 'dict',
                               'nested', 'varying', 'empty', 'np', 'nan']),
            'stop': rng.choice([None, None, None, rng.randint(1, 8)]),
            'stopval': rng.choice([None, 0, 'why', 2.5]),
            'raise': rng.choice([None, None, None, None, rng.randint(1, 8)]),
            'verbose': rng.choice([None, 0, 1])})
    for h in hooks:
        if h['ret'] in ('dict', 'nested', 'varying', 'empty'):
            # one name can not hold both a dictionary and single values
            h['stopval'] = rng.choice([None, {'a': {'x': 1}} if h['ret'] ==
                                       'nested' else {'c': 1}])
    return {'net': zoo.gen_net(rng, maxdepth=1, dtype='float64'),
            'seed': rng.randint(0, 10 ** 6),
            'it': gen_iter(rng, maxn=6, maxT=2), 'stepper': gen_stepper(rng),
            'hooks': hooks, 'trains': rng.randint(1, 4),
            'evals': [rng.choice([0, 0, 0, 1, 2]) for _ in range(4)],
            'limit': rng.randint(1, 4),
            'batchfail': sorted(rng.randint(0, 12)
                                for _ in range(rng.choice([0, 0, 1, 2]))),
            'scorers': rng.choice([0, 0, 1])}


class Boom(Exception):
    pass


def retval(kind, n):
    if kind == 'none':
        return None
    if kind == 'num':
        return n * 1.5
    if kind == 'zero':
        return 0
    if kind == 'false':
        return False
    if kind == 'text':
        return 't%d' % n
    if kind == 'np':
        return np.float32(n)
    if kind == 'nan':
        return float('nan')
    if kind == 'dict':
        return {'a': n, 'b': -n}
    if kind == 'nested':
        return {'a': {'x': n, 'y': {'z': n * 2}}, 'b': None}
    if kind == 'varying':
        return {'k%d' % (n % 3): n}
    if kind == 'empty':
        return {}
    raise BadPlan(kind)


class Failing(object):
    """user-defined iterator whose source may fail"""

    def __init__(self, it, fails):
        self.it = it
        self.fails = set(fails)
        self.n = 0
        self.sizes = []     # in order of delivery = order of updates
        self.data_shapes = it.data_shapes
        self.length = getattr(it, 'length', None)

    def __call__(self, handler):
        for d in self.it(handler):
            n = self.n
            self.n += 1
            if n in self.fails:
                raise IOError('data source failed')
            self.sizes.append(list(d.values())[0].shape[1])
            yield d


def add(logs, name, val):
    if val is None:
        return
    if isinstance(val, dict):
        sub = logs.setdefault(name, {})
        for k, v in val.items():
            add(sub, k, v)
    else:
        logs.setdefault(name, []).append(val)


def text(logs):
    if isinstance(logs, dict):
        return {k: text(v) for k, v in logs.items()}
    return [repr(v) for v in logs]


def run(plan, ctx):
    spec = plan['net']
    net = zoo.build(spec, seed=plan['seed'])
    it = Failing(make_iter(spec, plan['it']), plan['batchfail'])
    nb = len(list(make_iter(spec, plan['it'])(net.handler)))
    real, starts, losses = [], [], []
    counts = [0] * len(plan['hooks'])

    class H(bs.hooks.Hook):
        def __init__(self, i, h):
            super(H, self).__init__('hook%d' % i, h['ts'], h['iv'],
                                    verbose=h['verbose'])
            self.i, self.h = i, h

        def start(self, net, stepper, verbose, named):
            super(H, self).start(net, stepper, verbose, named)
            starts.append(self.i)

        def __call__(self, epoch_nr, update_nr, net, stepper, logs):
            real.append((self.i, epoch_nr, update_nr, text(logs)))
            counts[self.i] += 1
            n = counts[self.i]
            if self.h['raise'] == n:
                raise Boom('hook %d' % self.i)
            if self.h['stop'] == n:
                if self.h['stopval'] is None:
                    raise StopIteration()
                raise StopIteration(self.h['stopval'])
            return retval(self.h['ret'], n)

    def first(epoch, update, net, stepper, logs):
        losses.append((epoch, update, dict(net.get_loss_values())))

    def limit(epoch, update, net, stepper, logs):
        if epoch >= lim[0]:
            raise StopIteration()

    lim = [plan['limit']]
    if plan['limit'] < 1 or any(h['iv'] < 1 for h in plan['hooks']):
        raise BadPlan('interval')
    hs = [H(i, h) for i, h in enumerate(plan['hooks'])]
    t = trainer(make_stepper(plan['stepper']),
                [Probe(first, 'first', 'update', 1)] + hs +
                [Probe(limit, 'limit', 'epoch', 1)])
    if plan['scorers']:
        t.train_scorers = [bs.scorers.MeanSquaredError(name='mse')]
        if spec['loss'] == 'SCE':
            t.train_scorers = [bs.scorers.Accuracy(name='mse')]
    try:
        t.add_hook(Probe(first, 'first', 'update', 1))
        raise Violation('duplicate-hook', 'a second hook with the same name '
                        'was accepted')
    except ValueError:
        pass

    # ------------------------------ the model ----------------------------- #
    m = {'e': 0, 'u': 0, 'calls': [], 'logs': {}, 'starts': [], 'b': 0,
         'roll': [], 'results': {}}
    mc = [0] * len(hs)

    def emit(ts, logs='logs'):
        stop = False
        c = m['e'] if ts == 'epoch' else m['u']
        for i, h in enumerate(plan['hooks']):
            if h['ts'] != ts or c % h['iv']:
                continue
            m['calls'].append((i, m['e'], m['u'], text(m['logs'])))
            mc[i] += 1
            n = mc[i]
            if h['raise'] == n:
                raise Boom()
            if h['stop'] == n:
                stop = True
                add(m[logs], 'hook%d' % i, h['stopval'])
            else:
                add(m[logs], 'hook%d' % i, retval(h['ret'], n))
        if ts == 'epoch' and m['e'] >= lim[0]:
            stop = True
        return stop

    def model():
        for i in range(len(hs)):
            m['starts'].append(i)
        stop = emit('update')
        stop = emit('epoch') or stop
        while not stop:
            m['e'] += 1
            bs_ = []
            for k in range(nb):
                b = m['b']
                m['b'] += 1
                if b in set(plan['batchfail']):
                    raise IOError()
                m['u'] += 1
                bs_.append(m['u'])
                if emit('update'):
                    stop = True
                    break
            m['roll'].append((m['e'], bs_))
            m['logs'].setdefault('rolling_training', 'R')
            stop = emit('epoch') or stop

    # the logs a hook sees contain the rolling losses, which the model does
    # not know as numbers; compare everything else
    def strip(x):
        return {k: v for k, v in x.items() if k != 'rolling_training'}

    for h in plan['hooks']:
        if h['stopval'] is not None and (h['ret'] in (
                'dict', 'nested', 'varying', 'empty')) != isinstance(
                    h['stopval'], dict):
            raise BadPlan('stop value')
    def evaluation():
        for i in range(len(hs)):
            m['starts'].append(i)
        emit('epoch', 'results')
        emit('update', 'results')

    todo = []
    for seg in range(max(1, plan['trains'])):
        todo += ['train'] + ['evaluate'] * plan.get('evals', [0] * 9)[seg % 4]
    for seg, op in enumerate(todo):
        err = merr = res = None
        try:
            res = t.train(net, it) if op == 'train' else \
                t.evaluate(net, mon=it)
        except (Boom, IOError) as e:
            err = type(e).__name__
        try:
            model() if op == 'train' else evaluation()
        except (Boom, IOError) as e:
            merr = type(e).__name__
        need(err == merr, 'error-not-surfaced', '%s call %d: got %s, '
             'expected %s' % (op, seg, err, merr))
        need(text(t.results) == text(m['results']), 'results-wrong',
             lambda: 'after %s call %d results are %s, expected %s' % (
                 op, seg, text(t.results), text(m['results'])))
        if op == 'evaluate' and not err:
            need(text(res) == text(m['results']), 'results-wrong',
                 lambda: 'evaluate returned %s, expected %s' % (
                     text(res), text(m['results'])))
        if err:
            ctx.fault('hook error' if err == 'Boom' else 'data source error')
        a = [c[:3] for c in real]
        b = [c[:3] for c in m['calls']]
        need(a == b, 'wrong-calls', lambda: 'call %d: hook calls '
             '(hook, epoch, update) differ from the schedule: %s, expected %s'
             % (seg, a[-12:], b[-12:]))
        need(starts == m['starts'], 'wrong-starts',
             lambda: 'hooks started: %s, expected %s' % (starts, m['starts']))
        for x, y in zip(real, m['calls']):
            need(strip(x[3]) == strip(y[3]), 'logs-seen-wrong',
                 lambda: 'hook %d at epoch %d update %d sees logs %s, '
                 'expected %s' % (x[:3] + (strip(x[3]), strip(y[3]))))
        need(strip(text(t.logs)) == strip(text(m['logs'])), 'logs-wrong',
             lambda: 'logs %s, expected %s' % (strip(text(t.logs)),
                                               strip(text(m['logs']))))
        need((t.current_epoch_nr, t.current_update_nr) == (m['e'], m['u']),
             'counters-wrong', lambda: 'counters %s, expected %s' % (
                 (t.current_epoch_nr, t.current_update_nr),
                 (m['e'], m['u'])))
        if op == 'train':
            lim[0] = m['e'] + plan['limit']
    # rolling training losses: batch-size weighted mean over the epoch's steps
    by = {u: l for e, u, l in reversed(losses) if u}
    roll = t.logs.get('rolling_training', {})
    for name in (sorted(by[min(by)]) if by else []):
        got = roll.get(name, [])
        need(len(got) == len(m['roll']), 'rolling-wrong',
             lambda: '%d entries of rolling %s, expected %d' % (
                 len(got), name, len(m['roll'])))
        for g, (e, us) in zip(got, m['roll']):
            w = np.array([it.sizes[u - 1] for u in us], float)
            want = np.sum(w * np.array([by[u][name] for u in us])) / w.sum()
            need(zoo.close(g, want), 'rolling-wrong',
                 lambda: 'rolling %s of epoch %d is %r, expected %r'
                 % (name, e, g, want))
    if len(real) > 5:
        ctx.nontrivial = True
    ctx.event([c[:3] for c in real], text(t.logs))
    ctx.state([c[:3] for c in real])
