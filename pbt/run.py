# -*- coding: utf-8 -*-
import argparse
import importlib
import os
import sys

sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def fresh_sources():
    """Never read compiled files of the code under test left by an older
    tree: third-party packages are loaded first, with their own caches."""
    for name in ('numpy', 'scipy.optimize', 'scipy.linalg', 'sympy',
                 'networkx', 'h5py', 'matplotlib.pyplot', 'mpmath',
                 'sympy.utilities.autowrap', 'sympy.printing.theanocode'):
        try:
            importlib.import_module(name)
        except Exception:
            pass
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent/pycache'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--cases', type=int, default=None)
    ap.add_argument('--workers', type=int, default=None)
    ap.add_argument('--replay', default=None)
    a = ap.parse_args()
    from pbt import engine
    fresh_sources()
    import pyphs
    root = os.path.realpath(engine.REPO)
    if not os.path.realpath(pyphs.__file__).startswith(root + os.sep):
        print('HARNESS ERROR: pyphs imported from', pyphs.__file__)
        return 2
    mod = importlib.import_module('pbt.checks.' + a.property.lower())
    if a.replay:
        return engine.replay(mod, a.replay)
    return engine.main(mod, a.tier, a.seed, a.workers, a.cases)


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except ImportError as e:
        # the code under test cannot even be imported, or the harness is wrong
        import traceback
        traceback.print_exc()
        print('HARNESS ERROR: import failed:', e)
        code = 2
    sys.stdout.flush()
    os._exit(code)
