"""C06: a quit signal at any instant stops training cleanly."""
import copy
import io
import signal
import sys

import brainstorm as bs
import numpy as np
import sched
import world
import zoo
from brainstorm.hooks import (MonitorLoss, SaveLogs, SaveNetwork,
                              StopAfterEpoch, StopOnSigQuit)
from checks.common import (REAL_ALL, Probe, gen_iter, gen_picked, gen_stepper,
                           install_picked, make_iter, make_stepper, need)
from core import BadPlan, Violation

ID = 'C06'
QUICK = 2800
LEVEL = 'exploration'
RULE = ('A training run is measured (executed lines of brainstorm, device '
        'operations, output calls); then it is repeated with 1..3 quit '
        'signals delivered at seeded positions of one of those kinds (inside '
        'any line, operation or output call). The result is compared with a '
        'run in which a scripted hook stops at the same check, then both are '
        'continued. Non-trivial: a signal was delivered during training.')
MEASURE = 'distinct functions in which a signal arrived x check it stopped at'
REAL = REAL_ALL + ['CPython signal delivery']
STUB = ['the signal source (raised at a chosen position)', 'terminal']
ASSUMPTIONS = ['a signal before train() has started the hook is not covered '
               '(the process then has the default action)']


def gen(rng, tier):
    return {'net': zoo.gen_net(rng, maxdepth=2), 'seed': rng.randint(0, 10**6),
            'it': gen_iter(rng, maxn=5, maxT=2), 'val': gen_iter(rng, maxn=4,
                                                                 maxT=2),
            'stepper': gen_stepper(rng), 'wmods': gen_picked(rng),
            'timescale': rng.choice(['epoch', 'update']),
            'interval': rng.choice([1, 1, 2, 3]),
            'pos': rng.choice([0, 1, 2, 3]),
            'epochs': rng.randint(1, 3),
            'extra': rng.choice([[], ['loss'], ['net'], ['logs'],
                                 ['loss', 'net', 'logs']]),
            'mode': rng.choice(['line', 'line', 'op', 'out']),
            'at': sorted(round(rng.random(), 4)
                         for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 5]))),
            'verbose': rng.choice([0, 1]),
            'prior': rng.choice(['default', 'left', 'left', 'user']),
            'again': rng.choice([0, 1, 1])}


class Out(io.RawIOBase):
    """A terminal: counts write calls and may be the place where a signal
    arrives."""

    def __init__(self, at=(), action=None):
        io.RawIOBase.__init__(self)
        self.n = 0
        self.at = set(at)
        self.action = action

    def writable(self):
        return True

    def write(self, b):
        n = self.n
        self.n += 1
        if n in self.at:
            self.action()
        return len(b)


class Started(Probe):
    started = False

    def start(self, *args, **kwargs):
        super(Started, self).start(*args, **kwargs)
        self.started = True


def users_handler(signum, frame):
    pass


class Run(object):
    """One execution: train, maybe train again."""

    def __init__(self, plan, ctx, stop_at=None):
        self.plan = plan
        spec = plan['net']
        self.dir = ctx.scratch()
        self.net = zoo.build(spec, seed=plan['seed'])
        install_picked(self.net, plan['wmods'], [])
        self.it = make_iter(spec, plan['it'])
        self.val = make_iter(spec, plan['val'])
        self.checks = 0
        self.inside = False
        self.delivered = []
        self.fatal = False
        self.stop_at = stop_at
        ts, iv = plan['timescale'], plan['interval']
        if iv < 1:
            raise BadPlan('interval')

        def pre(*a):
            self.checks += 1
            self.inside = True

        def post(*a):
            self.inside = False

        hooks = []
        if 'loss' in plan['extra']:
            hooks.append(MonitorLoss('val', 'vloss', 'epoch', 1))
        if 'net' in plan['extra']:
            hooks.append(SaveNetwork(self.dir + '/n.h5', 'savenet'))
        if 'logs' in plan['extra']:
            hooks.append(SaveLogs(self.dir + '/l.h5', 'savelogs', 'update',
                                  2))
        hooks.append(Probe(lambda e, u, *a: u, 'unr', 'update', 1))
        if stop_at is None:
            q = StopOnSigQuit('quit', ts, iv)
        else:
            def stopper(*a):
                if self.checks in stop_at:
                    raise StopIteration('scripted')
            q = Probe(stopper, 'quit', ts, iv)
        k = plan['pos']
        hooks[k:k] = [Probe(pre, 'pre', ts, iv), q, Started(post, 'post', ts,
                                                            iv)]
        self.after = [h for h in hooks if isinstance(h, Started)][0]
        self.prior = signal.getsignal(signal.SIGQUIT)
        self.stop = StopAfterEpoch(plan['epochs'])
        hooks.append(self.stop)
        self.t = bs.Trainer(make_stepper(plan['stepper']),
                            verbose=bool(plan['verbose']))
        for h in hooks:
            self.t.add_hook(h)

    def signal(self):
        now = signal.getsignal(signal.SIGQUIT)
        default = now in (signal.SIG_DFL, None)
        if now == self.prior and not self.after.started:
            # the hook may not have been started
            self.delivered.append(None)
            return
        if default and self.delivered and \
                self.delivered[-1] == (self.checks, False):
            # the hook has taken an earlier signal and not had its check
            self.fatal = True
        self.delivered.append((self.checks, self.inside))
        if not default:
            sched.quit_signal()

    def train(self, mode, at=()):
        """returns the measure of the chosen kind"""
        out = Out(at if mode == 'out' else (), self.signal)
        old = sys.stdout
        sys.stdout = io.TextIOWrapper(io.BufferedWriter(out, 16),
                                      write_through=True)
        try:
            if mode == 'line':
                with sched.LineCounter(at, self.signal) as c:
                    self.t.train(self.net, self.it, val=self.val)
                self.where = c.where
                return c.n
            if mode == 'op':
                hits = set(at)

                def hook(n, name):
                    if n in hits:
                        self.signal()
                with world.device(hook=hook) as d:
                    self.t.train(self.net, self.it, val=self.val)
                    self.where = ['op'] * len(self.delivered)
                    return d.n
            self.t.train(self.net, self.it, val=self.val)
            sys.stdout.flush()
            self.where = ['write'] * len(self.delivered)
            return out.n
        finally:
            new, sys.stdout = sys.stdout, old
            try:
                new.detach()
            except Exception:
                pass

    def result(self):
        logs = copy.deepcopy(self.t.logs)
        logs.pop('quit', None)
        return {'epoch': self.t.current_epoch_nr,
                'update': self.t.current_update_nr,
                'params': self.net.get('parameters'), 'logs': logs,
                'checks': self.checks}


def same_result(a, b, what, sig):
    for k in ('epoch', 'update', 'checks'):
        need(a[k] == b[k], sig, lambda: '%s: %s is %s, expected %s'
             % (what, k, a[k], b[k]))
    need(zoo.same(a['params'], b['params']), sig,
         lambda: '%s: parameters: %s' % (what, zoo.diff(a['params'],
                                                        b['params'])))
    need(repr(_plain(a['logs'])) == repr(_plain(b['logs'])), sig,
         lambda: '%s: logs %s, expected %s' % (what, a['logs'], b['logs']))


def _plain(x):
    if isinstance(x, dict):
        return {k: _plain(x[k]) for k in sorted(x)}
    return [repr(float(v)) if isinstance(v, (int, float, np.floating))
            else repr(v) for v in x]


def run(plan, ctx):
    if plan['mode'] not in ('line', 'op', 'out'):
        raise BadPlan('mode')
    mode = plan['mode']
    verbose = plan['verbose'] or mode == 'out'
    plan['verbose'] = verbose
    # 1: undisturbed, measured; the hook must change nothing
    a = Run(plan, ctx)
    n = a.train(mode)
    free = Run(plan, ctx, stop_at=())
    free.train('none')
    same_result(a.result(), free.result(), 'hook without signal',
                'hook-not-neutral')
    at = [int(x * n) for x in plan['at']]
    if not at:
        return
    if plan['prior'] == 'default':
        signal.signal(signal.SIGQUIT, signal.SIG_DFL)
    elif plan['prior'] == 'user':
        signal.signal(signal.SIGQUIT, users_handler)
    elif plan['prior'] != 'left':
        # else: what the earlier training runs left behind
        raise BadPlan('prior')
    b = Run(plan, ctx)
    try:
        b.train(mode, at)
    except Violation:
        raise
    except Exception as e:
        raise Violation('training-aborted', 'signal at %s %s: train() raised '
                        '%s: %s' % (mode, at, type(e).__name__, e))
    need(not b.fatal, 'killed', lambda: 'signals at %s %s: a second signal '
         'before the next check ends the process' % (mode, at))
    got = [d for d in b.delivered if d is not None]
    ctx.fault('quit signal in ' + mode, len(got))
    ctx.event(mode, at, b.delivered)
    if got:
        ctx.nontrivial = True
    # the first signal decides
    may = set()
    total = free.checks
    if got:
        c, inside = got[0]
        may = {c, c + 1} if inside else {c + 1}
    if not may or min(may) > total:
        may = {None}
    elif max(may) > total:
        may = {x for x in may if x <= total} | {None}
    stopped = b.checks
    ctx.state(mode, b.where, stopped)
    # candidates: where a scripted stop would have ended
    tried = []
    for k in sorted(may, key=lambda x: (x is None, x)):
        r = Run(plan, ctx, stop_at=() if k is None else (k,))
        r.train('none')
        try:
            same_result(b.result(), r.result(),
                        'signal at %s %s (check %s)' % (mode, at, k),
                        'not-clean')
        except Violation as v:
            tried.append(v)
            continue
        break
    else:
        raise tried[0]
    # 2: continuing is not stopped by the old signal
    if plan['again']:
        b.stop.max_epochs += 1
        r.stop.max_epochs += 1
        r.stop_at = ()
        r2 = r
        # the scripted hook must not fire again
        for h in (r2,):
            h.stop_at = ()
        b.train('none')
        _disarm(r2)
        r2.train('none')
        same_result(b.result(), r2.result(), 'continued after the signal',
                    'continue-differs')


def _disarm(r):
    r.t.hooks['quit'].fn = lambda *a: None
