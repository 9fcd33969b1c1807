"""Shared pieces of the fitting contracts (C20-C24)."""
import numpy as np, sympy as sp, math
import common as K, gen as G


def ref_cost(fform, fdat, order, x):
    vals = dict(zip(order, x))
    tot = 0.0
    for k, v in fform.items():
        M = (len(v)-1)//2
        for n in range(2*M+1):
            tot += abs(K.num(v[n], vals)-complex(fdat[k][n]))**2
    return tot


def ref_grad(fform, fdat, order, x):
    vals = dict(zip(order, x))
    g = np.zeros(len(order))
    for k, v in fform.items():
        for n in range(len(v)):
            e = sp.sympify(v[n])
            r = K.num(e, vals)-complex(fdat[k][n])
            for i, s in enumerate(order):
                if s in e.free_symbols:
                    g[i] += 2*(r.conjugate()*K.num(sp.diff(e, s), vals)).real
    return g


def syms(py, n):
    """real symbols whose name order differs from declaration order"""
    pool = ['x10', 'x2', 'Zz', 'yzx', '_q', 'theta', 'real_xxx', 'imag_xxx', 'A', 'xs', 'b', 'x1', 'a_1', 'x', 'y', 'z']
    py.shuffle(pool)
    return [sp.Symbol(n, real=True) for n in pool[:n]]


def problem(py, rng, M=None, nsym=None, keys=None, extra=True):
    M = py.choice([0, 1, 2]) if M is None else M
    S = syms(py, nsym or py.choice([1, 2, 3, 5]))
    keys = keys or py.choice([['PP', 'PS'], ['PP'], ['SS', 'PP', 'PS'], ['b', 'a0', 'PP']])
    d = G.fform_dict(py, M, keys=list(keys), syms=S, density=.8)
    used = {s for v in d.values() for e in v for s in sp.sympify(e).free_symbols}
    for s in S:
        if s not in used:
            k = py.choice(keys)
            i = py.randrange(2*M+1)
            d[k][i] = d[k][i]+(1-2*sp.I)*s
    dk = list(keys)
    if extra:
        dk = dk+['zz']
        py.shuffle(dk)
    fd = G.fdat_dict(rng, py, M, keys=dk)
    for k in fd:
        fd[k] = fd[k]/max(1, np.max(np.abs(fd[k])))*2
    order = sorted({s for v in d.values() for e in v for s in sp.sympify(e).free_symbols}, key=str)
    return M, d, fd, order


def desc(M, d, fd):
    return 'M=%d formula=%s data=%s' % (M, {k: [str(e) for e in v] for k, v in d.items()}, {k: v.tolist() for k, v in fd.items()})
