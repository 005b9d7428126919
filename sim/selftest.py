"""Determinism self test: the digests of the first N seeds of every check have
to be the same in two processes with other hash seeds, worker counts, and on
immediate repetition; and every reported violation has to replay (that is
tested when a violation is reported)."""
import subprocess
import sys

import boot

ALL = ['C%02d' % i for i in range(1, 28)]


def digests(prop, n, seed, workers, hashseed):
    env = boot.child_env(hashseed=hashseed)
    r = subprocess.run([boot.PY, '-W', 'ignore', boot.SIM + '/main.py',
                        'digest', prop, str(n), '--seed', str(seed),
                        '--workers', str(workers)], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return r.stdout.decode() + r.stderr.decode()[-500:]


def main(props, seed, n=None):
    import os
    n = n or int(os.environ.get("SELFTEST_N", 60))
    rc = 0
    for p in props or ALL:
        a = digests(p, n, seed, 8, 0)
        b = digests(p, n, seed, 3, 0)
        c = digests(p, n, seed, 8, 77)
        ok = a == b and a.count('\n') == n and 'BAD PLAN' not in a
        print('%s %s%s' % (p, 'deterministic' if ok else 'NOT DETERMINISTIC',
                           '' if a == c else ' (differs with another hash '
                           'seed)'))
        if a != b:
            for x, y in zip(a.splitlines(), b.splitlines()):
                if x != y:
                    print('  ', x, '|', y)
                    break
        sys.stdout.flush()
        rc |= not ok
    return int(rc)
