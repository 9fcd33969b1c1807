"""Run-time contract evaluation of the real code (the bounded stand-in and the
replay side of every check).  Runs in the repository's own Python with
PYTHONPATH=/repo; every contract is evaluated through the public interface
against an oracle written here, never against another function of the code."""
import json
import math
import os
import random
import shutil
import sys
import tempfile
import time
import traceback
import warnings

warnings.simplefilter('ignore')
os.environ.setdefault('MPLBACKEND', 'Agg')

MAXFAIL = 5


class Stop(Exception):
    pass


class R:
    def __init__(self, prop, seed, tier, budget):
        import numpy as np
        self.prop, self.seed, self.tier = prop, seed, tier
        self.thorough = tier == 'thorough'
        self.rng = np.random.default_rng([seed, sum(map(ord, prop))])
        self.py = random.Random('%s-%d' % (prop, seed))
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.fails = []
        self.known = []
        self.t0 = time.time()
        self.budget = budget
        self.scratch = tempfile.mkdtemp(prefix='shgpy_rt_')
        self.contracts = {}

    def time_left(self):
        return self.budget-(time.time()-self.t0)

    def more(self):
        return self.time_left() > 0

    def case(self, contract, desc):
        return Case(self, contract, desc)

    def finding(self, key, desc, what):
        """a violation identified by `key`; the driver decides whether it is listed"""
        self.known.append({'key': key, 'contract': key, 'input': short(desc, 4000), 'observed': short(what, 4000)})

    def fail(self, contract, desc, what):
        self.fails.append({'contract': contract, 'input': short(desc, 4000), 'observed': short(what, 4000)})
        if len(self.fails) >= MAXFAIL:
            raise Stop()


class Case:
    """with R.case('contract name', input) as c: ...; c.ok(cond, msg)"""
    def __init__(self, r, contract, desc):
        self.r, self.contract, self.desc = r, contract, desc
        self.n = 0

    def __enter__(self):
        return self

    def ok(self, cond, msg=''):
        self.n += 1
        if not cond:
            raise ContractBroken(msg() if callable(msg) else msg)

    def eq(self, a, b, msg=''):
        self.ok(a == b, lambda: '%s: got %s, expected %s' % (msg, short(a), short(b)))

    def close(self, a, b, msg='', tol=1e-8):
        self.ok(close(a, b, tol), lambda: '%s: got %s, expected %s' % (msg, short(a), short(b)))

    def same(self, a, b, msg=''):
        """bitwise/structurally equal"""
        self.ok(same(a, b), lambda: '%s: got %s, expected %s' % (msg, short(a), short(b)))

    def raises(self, excs, f, msg=''):
        self.n += 1
        try:
            r = f()
        except excs:
            return
        except Exception as e:
            raise ContractBroken('%s: raised %r instead of %s' % (msg, e, names(excs)))
        raise ContractBroken('%s: returned %s instead of raising %s' % (msg, short(r), names(excs)))

    def __exit__(self, t, v, tb):
        r = self.r
        if t is not None and not issubclass(t, Exception):
            return False
        if t is not None and issubclass(t, (Stop,)):
            return False
        r.evaluations += 1
        r.contracts[self.contract] = r.contracts.get(self.contract, 0)+1
        d = short(self.desc, 600)
        if self.n or t:
            r.distinct.add(hash((self.contract, d)))
        if len(r.samples) < 6 and all(s['contract'] != self.contract for s in r.samples):
            r.samples.append({'contract': self.contract, 'input': d})
        if t is None:
            return True
        if issubclass(t, ContractBroken):
            r.fail(self.contract, self.desc, str(v))
        else:
            r.fail(self.contract, self.desc, 'exception: '+''.join(traceback.format_exception(t, v, tb)[-6:]))
        return True


class ContractBroken(Exception):
    pass


def names(e):
    return '/'.join(x.__name__ for x in (e if isinstance(e, tuple) else (e,)))


def short(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n]+'...'


def close(a, b, tol=1e-8):
    import numpy as np
    try:
        a = np.asarray(a, dtype=complex)
        b = np.asarray(b, dtype=complex)
    except (TypeError, ValueError):
        return False
    if a.shape != b.shape:
        return False
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return False
    scale = max(1.0, float(np.max(np.abs(b))) if b.size else 1.0)
    return bool(np.all(np.abs(a-b) <= tol*scale))


def same(a, b):
    import numpy as np
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype == object:
            return all(same(x, y) for x, y in zip(a.flatten(), b.flatten()))
        return bool(np.all((a == b) | ((a != a) & (b != b))))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a.keys()) == list(b.keys()) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def snap(x):
    """deep snapshot for frame conditions (sympy values are immutable)"""
    import copy
    return copy.deepcopy(x)


# ---- helpers on sympy values (only sympy itself is trusted) -------------------
def num(e, vals):
    """numeric value of a sympy expression under {symbol: number}"""
    import sympy as sp
    e = sp.sympify(e)
    fs = sorted(e.free_symbols, key=lambda s: (str(s), repr(s.assumptions0)))
    if not fs:
        return complex(e.evalf(17)) if not e.is_Number else complex(e)
    ds = [sp.Symbol('v_%d' % i) for i in range(len(fs))]
    f = sp.lambdify(ds, e.xreplace(dict(zip(fs, ds))), 'numpy')
    return complex(f(*[vals[s] for s in fs]))


def numv(es, vals):
    """numeric values of a list of expressions"""
    return [num(e, vals) for e in es]


def main(prop, run):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--out', required=True)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--budget', type=float, default=15)
    a = ap.parse_args()
    r = R(prop, a.seed, a.tier, a.budget)
    crash = None
    cwd = os.getcwd()
    try:
        os.chdir(r.scratch)
        run(r)
    except Stop:
        pass
    except Exception:
        crash = traceback.format_exc()
    finally:
        os.chdir(cwd)
        shutil.rmtree(r.scratch, ignore_errors=True)
    json.dump({'property': prop, 'evaluations': r.evaluations, 'distinct': len(r.distinct),
               'contracts': r.contracts, 'samples': r.samples, 'fails': r.fails, 'known': r.known,
               'crash': crash, 'wall_s': time.time()-r.t0}, open(a.out, 'w'), indent=1)


if __name__ == '__main__':
    sys.exit('import only')
