import common as K, gen as G, fit
import numpy as np, sympy as sp, os


def run(R):
    from shgpy import fFormContainer, fDataContainer
    from shgpy.fformfit import gen_cost_func, load_func
    py, rng = R.py, R.rng

    def one(M, d, fd, order, chunk, save, load, name='cost function'):
        with R.case(name, 'chunk=%s order=%s %s' % (chunk, order, fit.desc(M, d, fd))) as c:
            ff, f = fFormContainer(d, M=M), fDataContainer(fd, M=M)
            nat = sorted({s for v in d.values() for e in v for s in sp.sympify(e).free_symbols}, key=str)
            kw = {}
            if order != nat:
                kw['argument_list'] = order
            if chunk:
                kw['chunk'] = True
            fn = os.path.join(R.scratch, 'cost_%d.so' % R.evaluations)
            if save:
                kw['save_filename'] = fn
            cost = gen_cost_func(ff, f, **kw)
            fs = [('generated', cost)]
            if save and load:
                fs.append(('loaded', load_func(fn)))
            for j in range(4):
                x = rng.uniform(-2, 2, len(order)) if j else np.arange(1., len(order)+1)
                for n, g in fs:
                    c.close(g(x), fit.ref_cost(d, fd, order, x), '%s cost at %s' % (n, x.tolist()))
                big = np.empty(2*len(order)+1)
                big[::2] = 77.
                big[1::2] = x
                c.close(cost(big[1::2]), fit.ref_cost(d, fd, order, x), 'cost at the strided view %s' % x.tolist())
            c.close(cost(np.arange(len(order))), fit.ref_cost(d, fd, order, np.arange(len(order))), 'cost at integer parameters')
            for k in d:
                c.eq(list(ff.get_pc(k)), [sp.sympify(e) for e in d[k]], 'formula unchanged')
                c.same(f.get_pc(k), fd[k], 'data unchanged')
    a, b = sp.symbols('a b', real=True)
    one(0, {'PP': np.array([a], dtype=object)}, {'PP': np.array([1+2j])}, [a], False, True, True, 'single parameter')
    one(0, {'PP': np.array([3*sp.I*a*b], dtype=object)}, {'PP': np.array([0j])}, [b, a], True, True, True, 'zero data')
    one(1, {'PP': np.array([0, a, 0], dtype=object), 'SS': np.array([0, 0, 0], dtype=object)}, {'SS': np.array([1, 2j, -3+1j]), 'PP': np.array([1j, 1, 4.5])}, [a], False, False, False, 'constant entries')
    one(1, {'PP': np.array([0, a+1, 0], dtype=object), 'SS': np.array([sp.I, b, 0], dtype=object)}, {'SS': np.array([1, 2j, -3+1j]), 'PP': np.array([1j, 1, 4.5])}, [a, b], True, False, False, 'constant entries')
    for chunk in (False, True):
        for o in ([a, b], [b, a]):
            one(1, {'PP': np.array([0, a+2*b, 0], dtype=object), 'SS': np.array([sp.I*a, b**2, 0], dtype=object)}, {'SS': np.array([1, 2j, -3+1j]), 'PP': np.array([1j, 1, 4.5])}, o, chunk, False, False, 'argument order')
    n = 0
    while n < (40 if R.thorough else 5) and (n < 4 or R.more()):
        n += 1
        M, d, fd, order = fit.problem(py, rng, nsym=12 if n == 2 else None)
        o = list(order)
        if n % 2:
            py.shuffle(o)
        one(M, d, fd, o, n % 3 == 0, n % 2 == 0, True)
    M, d, fd, order = fit.problem(py, rng, M=16 if R.thorough else 7, nsym=3, keys=['PP'])
    one(M, d, fd, order, True, False, False, 'many frequencies')


if __name__ == '__main__':
    K.main('C20', run)
