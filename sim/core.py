"""Runner: seeded plans, forked workers, shrinking, replay files, evidence.

A check provides
    ID, QUICK (number of seeds), gen(rng, tier) -> JSON-able plan,
    run(plan, ctx) -> None, raising Violation when the property is broken.
One plan is one exactly repeatable simulated execution.
"""
import copy
import hashlib
import io
import json
import os
import random
import select
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_TIMEOUT = 120.


class Violation(Exception):
    def __init__(self, sig, msg=''):
        Exception.__init__(self, '%s: %s' % (sig, msg))
        self.sig = sig
        self.msg = msg


class BadPlan(Exception):
    """The plan is not meaningful (only produced by shrinking)."""


class Ctx(object):
    """Collects what one simulated run did."""

    def __init__(self):
        self.faults = {}
        self.count = {}
        self.digest = hashlib.sha256()
        self.states = set()
        self.steps = 0
        self.nontrivial = False
        self.scratch_dirs = []

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def tally(self, kind, n=1):
        self.count[kind] = self.count.get(kind, 0) + n

    def event(self, *what):
        """An event of the recorded history (part of the run's digest)."""
        self.steps += 1
        self.digest.update(repr(what).encode())

    def data(self, arr):
        import numpy as np
        a = np.ascontiguousarray(arr)
        if a.dtype.kind == 'f':
            # (the sign of a NaN depends on the alignment of memory)
            a = np.where(np.isnan(a), np.nan, a)
        self.digest.update(str((a.shape, a.dtype)).encode() + a.tobytes())

    def state(self, *what):
        """Remember a distinct state / interleaving."""
        self.states.add(hashlib.md5(repr(what).encode()).hexdigest()[:12])

    def scratch(self):
        import tempfile
        base = os.environ.get('SIM_SCRATCH') or None
        d = tempfile.mkdtemp(prefix='sim-', dir=base)
        self.scratch_dirs.append(d)
        return d

    def cleanup(self):
        import shutil
        for d in self.scratch_dirs:
            shutil.rmtree(d, ignore_errors=True)
        self.scratch_dirs = []


def rng_for(prop, seed, index):
    return random.Random('%s:%s:%s' % (prop, seed, index))


def _where(tb):
    """innermost frame inside the code under test (function name only)"""
    name = '?'
    for f in traceback.extract_tb(tb):
        if '/brainstorm/' in f.filename and '/verif/' not in f.filename:
            name = '%s:%s' % (os.path.basename(f.filename), f.name)
    return name


class _Quiet(object):
    """Swallow everything the code under test prints."""

    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        sys.stdout = io.StringIO()
        sys.stderr = io.StringIO()

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o, self.e


def run_plan(check, plan):
    """Run one plan; returns a JSON-able record."""
    import world
    ctx = Ctx()
    rec = {'v': None}
    t0 = time.time()
    try:
        with _Quiet():
            world.reset()
            check.run(copy.deepcopy(plan), ctx)
    except Violation as v:
        rec['v'] = [v.sig, v.msg]
    except BadPlan as b:
        rec['bad'] = str(b)
    except world.Budget as b:
        rec['v'] = ['no-progress', 'the run did not finish within %s '
                    'simulated steps' % b.args]
    except BaseException as e:
        tb = sys.exc_info()[2]
        if isinstance(e, KeyboardInterrupt):
            raise
        rec['v'] = ['unexpected:%s@%s' % (type(e).__name__, _where(tb)),
                    ''.join(traceback.format_exception(type(e), e, tb))[-1800:]]
    finally:
        world.reset()
        ctx.cleanup()
    rec.update(faults=ctx.faults, count=ctx.count, steps=ctx.steps,
               simtime=world.last_simtime(), devops=world.last_ops(),
               states=sorted(ctx.states), nontrivial=ctx.nontrivial,
               digest=ctx.digest.hexdigest(), t=time.time() - t0)
    return rec


# ------------------------------ worker pool ------------------------------- #

def _send(fd, obj):
    b = json.dumps(obj).encode()
    b = struct.pack('<I', len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _recv(fd):
    def get(n):
        out = b''
        while len(out) < n:
            c = os.read(fd, n - len(out))
            if not c:
                raise EOFError
            out += c
        return out
    n, = struct.unpack('<I', get(4))
    return json.loads(get(n).decode())


class Worker(object):
    def __init__(self, fn):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(w1)
                os.close(r2)
                dn = os.open('/dev/null', os.O_RDWR)
                os.dup2(dn, 0)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                while True:
                    try:
                        job = _recv(r1)
                    except EOFError:
                        break
                    _send(w2, fn(job))
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        self.job = None
        self.started = None
        self.past = []      # jobs this process did before

    def submit(self, job):
        self.job = job
        self.started = time.time()
        _send(self.w, job)

    def kill(self):
        for pid in (-self.pid, self.pid):
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        try:
            st = os.waitpid(self.pid, 0)[1]
        except OSError:
            st = 0
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        return st


def pool(fn, jobs, nworkers, timeout=RUN_TIMEOUT):
    """Yield (job, result) in job order.  A worker that dies or hangs yields
    ('died', status) / ('hang', seconds) as a violation record."""
    jobs = iter(jobs)
    workers = [Worker(fn) for _ in range(nworkers)]
    order, results = [], {}
    nxt = 0
    exhausted = False
    try:
        while True:
            for w in workers:
                if w.job is None and not exhausted:
                    if len(order) - nxt > 40 * nworkers:
                        break
                    try:
                        j = next(jobs)
                    except StopIteration:
                        exhausted = True
                        break
                    k = len(order)
                    order.append(j)
                    w.submit({'k': k, 'job': j})
            busy = [w for w in workers if w.job is not None]
            if not busy and exhausted:
                break
            ready = select.select([w.r for w in busy], [], [], 1.0)[0]
            now = time.time()
            for i, w in enumerate(workers):
                if w.job is None:
                    continue
                k = w.job['k']
                if w.r in ready:
                    try:
                        results[k] = _recv(w.r)
                        if results[k].get('v'):
                            results[k]['past'] = list(w.past)
                        w.past.append(w.job['job'])
                        w.job = None
                    except EOFError:
                        st = w.kill()
                        results[k] = {'v': ['process-died',
                                            'wait status %d' % st]}
                        workers[i] = Worker(fn)
                elif now - w.started > timeout:
                    w.kill()
                    results[k] = {'v': ['hang', 'no answer within %d s'
                                        % timeout]}
                    workers[i] = Worker(fn)
            while nxt in results:
                yield order[nxt], results.pop(nxt)
                nxt += 1
    finally:
        for w in workers:
            w.kill()


def isolated(fn, arg, timeout=RUN_TIMEOUT):
    """Run fn(arg) in one forked process."""
    for _, r in pool(lambda j: fn(j['job']), [arg], 1, timeout):
        r.pop('past', None)
        return r


def run_after(check, prelude, plan):
    """Run the plan in a process that ran the plans of the prelude before."""
    for p in prelude:
        run_plan(check, p)
    return run_plan(check, plan)


def find_prelude(check, past, plan, sig, limit=60.):
    """A short list of earlier runs after which the plan fails, or None: the
    code under test carries something over from one run to the next."""
    t0 = time.time()

    def fails(pre):
        r = isolated(lambda p: run_after(check, p[0], p[1]), [pre, plan],
                     300.)
        return bool(r.get('v')) and r['v'][0] == sig
    n, found = 1, None
    while found is None:
        pre = past[-n:]
        if fails(pre):
            found = pre
        elif n >= len(past) or time.time() - t0 > limit:
            return None
        n *= 4
    step = max(1, len(found) // 2)
    while time.time() - t0 < limit:
        for i in range(0, len(found), step):
            cand = found[:i] + found[i + step:]
            if fails(cand):
                found = cand
                break
        else:
            if step == 1:
                break
            step //= 2
    return found


# ------------------------------- shrinking -------------------------------- #

def _paths(plan, prefix=()):
    if isinstance(plan, dict):
        for k in sorted(plan):
            yield prefix + (k,), plan[k]
            for x in _paths(plan[k], prefix + (k,)):
                yield x
    elif isinstance(plan, list):
        for i, v in enumerate(plan):
            yield prefix + (i,), v
            for x in _paths(v, prefix + (i,)):
                yield x


def _edit(plan, path, fn):
    p = copy.deepcopy(plan)
    o = p
    for k in path[:-1]:
        o = o[k]
    fn(o, path[-1])
    return p


def candidates(plan):
    """Smaller plans, most aggressive first."""
    items = list(_paths(plan))
    lists = [(p, v) for p, v in items if isinstance(v, list) and v]
    for p, v in lists:
        n = len(v)
        size = n
        while size >= 1:
            for s in range(0, n, size):
                yield _edit(plan, p, lambda o, k, s=s, z=size:
                            o.__setitem__(k, o[k][:s] + o[k][s + z:]))
            size //= 2
    for p, v in items:
        if isinstance(v, bool):
            if v:
                yield _edit(plan, p, lambda o, k: o.__setitem__(k, False))
        elif isinstance(v, int) and v > 0 and not str(p[-1]).endswith('seed'):
            for t in sorted({0, 1, v // 2, v - 1}):
                if t < v:
                    yield _edit(plan, p, lambda o, k, t=t:
                                o.__setitem__(k, t))
        elif v is not None and isinstance(v, (dict, str)) and \
                isinstance(p[-1], str) and p[-1].endswith('?'):
            yield _edit(plan, p, lambda o, k: o.__setitem__(k, None))


def shrink(check, plan, sig, limit=45.):
    t0 = time.time()
    tries = 0
    work = lambda j: run_plan(check, j['job'])
    improved = True
    while improved and time.time() - t0 < limit:
        improved = False
        cands = candidates(plan)
        for cand, r in pool(work, cands, 4, 20.):
            tries += 1
            if r.get('v') and r['v'][0] == sig:
                plan, improved = cand, True
                break
            if time.time() - t0 > limit:
                break
    return plan, tries


# --------------------------------- checks --------------------------------- #

def load_check(prop):
    import importlib
    return importlib.import_module('checks.' + prop.lower())


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def write_replay(prop, seed, index, plan, rec, shrunk, prelude=()):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s-%s.json' % (prop, seed, index))
    with open(p, 'w') as f:
        json.dump({'property': prop, 'seed': seed, 'index': index,
                   'plan': plan, 'sig': rec['v'][0], 'message': rec['v'][1],
                   'digest': rec.get('digest'), 'shrink_tries': shrunk,
                   'prelude': list(prelude),
                   'replay_cmd': '/opt/venv/bin/python /verif/sim/main.py '
                                 'replay ' + p}, f, indent=1, sort_keys=True)
    return p


def check(prop, tier, seed, nworkers=8, budget=None, nseeds=None):
    chk = load_check(prop)
    t0 = time.time()
    known = [k for k in known_findings() if k['property'] == prop and
             k.get('status', 'known') == 'known']
    known_sigs = {k['sig'] for k in known}
    for k in known:
        r = isolated(lambda p: run_plan(chk, p), k['plan'])
        if r.get('v') and r['v'][0] == k['sig']:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        else:
            print('note: known finding %r does not reproduce any more'
                  % k['sig'])

    if nseeds is None:
        nseeds = chk.QUICK if tier == 'quick' else None
        if budget is None and tier == 'quick':
            budget = 420.       # (only matters on a very slow machine)
    if budget is None and nseeds is None:
        budget = getattr(chk, 'THOROUGH_S', 600.)

    def jobs():
        i = 0
        while True:
            if nseeds is not None and i >= nseeds:
                return
            if budget is not None and time.time() - t0 > budget:
                return
            yield i
            i += 1

    def work(j):
        i = j['job']
        plan = chk.gen(rng_for(prop, seed, i), tier)
        return run_plan(chk, plan)

    agg = {'runs': 0, 'nontrivial': 0, 'faults': {}, 'count': {},
           'steps': 0, 'simtime': 0., 'devops': 0, 'known_hits': 0}
    states, digests = set(), set()
    failure = None
    for i, r in pool(work, jobs(), nworkers,
                     getattr(chk, 'TIMEOUT', RUN_TIMEOUT)):
        agg['runs'] += 1
        for f in ('faults', 'count'):
            for k, n in r.get(f, {}).items():
                agg[f][k] = agg[f].get(k, 0) + n
        agg['steps'] += r.get('steps', 0)
        agg['simtime'] += r.get('simtime', 0.)
        agg['devops'] += r.get('devops', 0)
        states.update(r.get('states', ()))
        if r.get('bad'):
            # (none on the unchanged tree, see selftest)
            agg['count']['unusable plans'] = \
                agg['count'].get('unusable plans', 0) + 1
        if r.get('nontrivial'):
            if r['digest'] not in digests:
                agg['nontrivial'] += 1
        digests.add(r.get('digest'))
        if r.get('v'):
            if r['v'][0] in known_sigs:
                agg['known_hits'] += 1
                continue
            failure = (i, r)
            break
    wall = time.time() - t0
    samples = []
    for i in range(min(3, agg['runs'])):
        samples.append({'seed_index': i,
                        'plan': chk.gen(rng_for(prop, seed, i), tier)})
    cov = {
        'evaluations': agg['runs'],
        'distinct_nontrivial': agg['nontrivial'],
        'rule': chk.RULE,
        'samples': samples,
        'seeds': '%s:%d..%d' % (seed, 0, max(0, agg['runs'] - 1)),
        'runs_per_hour': int(agg['runs'] / max(wall, 1e-6) * 3600),
        'simulated_seconds': round(agg['simtime'], 3),
        'device_operations': agg['devops'],
        'history_events': agg['steps'],
        'faults_injected': agg['faults'],
        'observations': agg['count'],
        'distinct_states': len(states),
        'distinct_states_measure': getattr(chk, 'MEASURE', ''),
        'distinct_histories': len(digests),
        'real_components': chk.REAL,
        'stubbed_components': chk.STUB,
        'known_finding_hits': agg['known_hits'],
    }
    viol = 0
    if failure:
        viol = 1
        i, r = failure
        plan = chk.gen(rng_for(prop, seed, i), tier)
        tries = 0
        prelude = []
        past = [chk.gen(rng_for(prop, seed, k), tier)
                for k in r.pop('past', [])]
        if r['v'][0] not in ('hang', 'process-died'):
            alone = isolated(lambda p: run_plan(chk, p), plan)
            if alone.get('v') and alone['v'][0] == r['v'][0]:
                plan, tries = shrink(chk, plan, r['v'][0])
            else:
                prelude = find_prelude(chk, past, plan, r['v'][0]) or []
            final = isolated(lambda p: run_after(chk, prelude, p), plan)
            if not final.get('v'):
                plan = chk.gen(rng_for(prop, seed, i), tier)
                final = r
            r = final
        path = write_replay(prop, seed, i, plan, r, tries, prelude)
        print('seed %s index %d: %s\n%s' % (seed, i, r['v'][0], r['v'][1]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    ev = {'property': prop, 'tier': tier, 'seed': int(seed),
          'level': getattr(chk, 'LEVEL', 'exploration'), 'coverage': cov,
          'assumptions': chk.ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2),
          'violations': viol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.replace(p + '.tmp', p)
    print('%s %s: %d runs (%d distinct non-trivial), %d fault(s), %.1f s%s'
          % (prop, tier, agg['runs'], agg['nontrivial'],
             sum(agg['faults'].values()), wall,
             '' if not viol else ', VIOLATED'))
    return 1 if viol else 0
