"""Developer driver: python3-vt -m pyv.dev [-n] [-t] pattern ..."""
import sys, time, fnmatch, importlib, os, glob
sys.path.insert(0, __import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))))
from pyv import unit as U
U.native_setup()


def load():
    from spec import all_units  # noqa


if __name__ == '__main__':
    args = sys.argv[1:]
    tb = '-t' in args
    nat = '-n' in args
    nosym = '-N' in args
    args = [a for a in args if not a.startswith('-')]
    import all_units
    for u in U.UNITS:
        if not any(fnmatch.fnmatch(u.name, a) or a in u.props for a in args):
            continue
        if not nosym:
            R = U.verify(u)
            print('%-40s %-11s %5.1fs paths=%d obl=%d q=%d %s' % (u.name, R.status, R.wall, R.paths, len(R.obligations), R.queries, R.detail), flush=True)
            if tb and hasattr(R, 'tb'):
                print(R.tb)
            if tb and hasattr(R, 'fail_vals'):
                print('REAL', R.fail_vals[0]); print('SPEC', R.fail_vals[1]); print('PC', R.fail_vals[2])
        if nat and u.native:
            c, m, n, nt = U.search(u, 0, 2.0)
            print('   native: cases=%d nontrivial=%d %s' % (n, nt, m or 'ok'), U.describe(c)[:300] if m else '', flush=True)
