#!/opt/venv/bin/python
"""Entry point.

  main.py check C01 [--tier quick|thorough] [--seeds N] [--budget S]
  main.py replay FILE
  main.py one C01 INDEX        run one seed verbosely
  main.py digest C01 N         print digests of the first N seeds
  main.py selftest [C01 ...]   determinism self test
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot  # noqa


def main():
    boot.reexec()
    import argparse
    import json
    import core
    import world
    world.install()
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('args', nargs='*')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--seeds', type=int, default=None)
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--workers', type=int,
                    default=min(8, os.cpu_count() or 8))
    a = ap.parse_args()
    if a.cmd == 'check':
        rc = 0
        for p in a.args:
            rc |= core.check(p, a.tier, a.seed, a.workers, a.budget, a.seeds)
        return rc
    if a.cmd == 'replay':
        with open(a.args[0]) as f:
            rp = json.load(f)
        chk = core.load_check(rp['property'])
        r = core.isolated(lambda p: core.run_after(
                              chk, rp.get('prelude', []), p), rp['plan'],
                          getattr(chk, 'TIMEOUT', core.RUN_TIMEOUT))
        if r.get('v'):
            print(r['v'][0])
            print(r['v'][1])
            same = r['v'][0] == rp['sig'] and \
                (rp.get('digest') in (None, r.get('digest')))
            print('exactly as recorded' if same else 'DIFFERS from recording')
            print('VIOLATION property=%s replay=%s' % (rp['property'],
                                                       a.args[0]))
            return 1
        print('no violation')
        return 0
    if a.cmd == 'one':
        chk = core.load_check(a.args[0])
        for i in a.args[1:]:
            plan = chk.gen(core.rng_for(a.args[0], a.seed, int(i)), a.tier)
            print(json.dumps(plan))
            r = core.run_plan(chk, plan)
            v = r.pop('v')
            print(json.dumps(r))
            if v:
                print(v[0])
                print(v[1])
        return 0
    if a.cmd == 'digest':
        chk = core.load_check(a.args[0])
        n = int(a.args[1])

        def work(j):
            return core.run_plan(chk, chk.gen(
                core.rng_for(a.args[0], a.seed, j['job']), a.tier))
        for i, r in core.pool(work, range(n), a.workers):
            print(i, r.get('digest'), r.get('v'),
                  'BAD PLAN ' + r['bad'] if r.get('bad') else '')
        return 0
    if a.cmd == 'selftest':
        import selftest
        return selftest.main(a.args, a.seed)
    raise SystemExit('unknown command')


if __name__ == '__main__':
    sys.exit(main())
