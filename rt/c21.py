import common as K, gen as G, fit
import numpy as np, sympy as sp, os
import scipy.optimize as so

REC = []


def _bh(func, x0, **kw):
    REC.append((func, np.array(x0, dtype=float), kw))
    r = so.OptimizeResult(x=np.array(x0, dtype=float)+1)
    return r


so.basinhopping = _bh


def run(R):
    from shgpy import fFormContainer, fDataContainer
    from shgpy.fformfit import basinhopping_fit_jac, basinhopping_fit_jac_with_bounds
    py, rng = R.py, R.rng

    def get(fun, args, kw):
        del REC[:]
        fun(*args, **kw)
        f, x0, k = REC[0]
        jac = (k.get('minimizer_kwargs') or {}).get('jac')

        def both(x):
            if jac is True:
                return f(x)
            return f(x), np.array(jac(x))
        return both

    def check(c, both, d, fd, order, what):
        for j in range(4):
            x = rng.uniform(-1.5, 1.5, len(order)) if j else np.arange(1., len(order)+1)
            v, g = both(x)
            c.close(v, fit.ref_cost(d, fd, order, x), '%s: cost at %s' % (what, x.tolist()))
            c.eq(np.shape(g), (len(order),), '%s: length of the gradient' % what)
            c.close(g, fit.ref_grad(d, fd, order, x), '%s: gradient at %s' % (what, x.tolist()))

    def one(M, d, fd, order, bounds, save, name='gradient'):
        with R.case(name, 'bounds=%s save=%s %s' % (bounds, save, fit.desc(M, d, fd))) as c:
            ff, f = fFormContainer(d, M=M), fDataContainer(fd, M=M)
            guess = {s: 0.5 for s in reversed(order)}
            kw = {'niter': 1}
            p = os.path.join(R.scratch, 'g%d_' % R.evaluations)
            if save:
                kw.update(save_cost_func_filename=p+'cost.so', grad_save_cost_func_filename_prefix=p+'grad')
            fun = basinhopping_fit_jac_with_bounds if bounds else basinhopping_fit_jac
            if bounds:
                kw['bounds_dict'] = {s: (-2, 2) for s in order}
            check(c, get(fun, (ff, f, guess), kw), d, fd, order, 'generated')
            if save:
                for b in (False, True):
                    kw2 = {'niter': 1, 'load_cost_func_filename': p+'cost.so', 'load_grad_cost_func_filename_prefix': p+'grad'}
                    fun = basinhopping_fit_jac_with_bounds if b else basinhopping_fit_jac
                    if b:
                        kw2['bounds_dict'] = {s: (-2, 2) for s in order}
                    check(c, get(fun, (ff, f, guess), kw2), d, fd, order, 'loaded')
    a = sp.Symbol('a', real=True)
    one(0, {'PP': np.array([a], dtype=object)}, {'PP': np.array([1+2j])}, [a], False, True, 'single parameter')
    b = sp.Symbol('b', real=True)
    one(0, {'PP': np.array([b*sp.exp(sp.I*a)], dtype=object)}, {'PP': np.array([0j])}, [a, b], False, True, 'cost independent of a parameter')
    M, d, fd, order = fit.problem(py, rng, M=1, nsym=12, keys=['PP', 'SS'])
    one(M, d, fd, order, False, True, 'more than ten parameters')
    n = 0
    while n < (25 if R.thorough else 4) and (n < 2 or R.more()):
        n += 1
        M, d, fd, order = fit.problem(py, rng, M=py.choice([0, 1, 2]))
        one(M, d, fd, order, bool(n % 2), bool(n % 3))


if __name__ == '__main__':
    K.main('C21', run)
