import common as K, gen as G, fit
import numpy as np, sympy as sp, os


def run(R):
    from shgpy import fFormContainer
    from shgpy.fformfit import gen_model_func, load_model_func
    py, rng = R.py, R.rng

    def one(M, d, mt, name):
        order = sorted({s for v in d.values() for e in v for s in sp.sympify(e).free_symbols}, key=str)
        with R.case(name, 'M=%d max_terms=%s %s' % (M, mt, {k: [str(e) for e in v] for k, v in d.items()})) as c:
            ff = fFormContainer(d, M=M)
            fo = os.path.join(R.scratch, 'model_%d' % R.evaluations)
            kw = {} if mt is None else {'max_terms_per_file': mt}
            f = gen_model_func(ff, fo, **kw)
            g = load_model_func(ff, fo)
            for j in range(3):
                x = rng.uniform(-2, 2, len(order)) if j else np.arange(1, len(order)+1)
                vals = dict(zip(order, [float(t) for t in x]))
                for k, v in d.items():
                    for m in range(-M, M+1):
                        want = K.num(v[m+M], vals)
                        c.close(f(x, k, m), want, 'generated model at %s, %s, %d' % (x.tolist(), k, m))
                        c.close(g(x, k, m), want, 'loaded model at %s, %s, %d' % (x.tolist(), k, m))
    x, y, z, w, v = [sp.Symbol(n, real=True) for n in ('x10', 'x2', 'z', 'W', 'a')]
    O = lambda *a: np.array(a, dtype=object)
    one(0, {'PP': O(x*y+2*sp.I*z-w**2+3*x*sp.I*y*y+v+1)}, 2, 'terms split over files')
    one(0, {'PP': O(sum(i*x**i*y for i in range(1, 12))+sp.I*sum(x*y**i for i in range(1, 14)))}, None, 'terms split over files')
    one(1, {'PP': O(x, 0, sp.I*x*y), 'PS': O(sp.Integer(2), 1.5*sp.I, y)}, None, 'every entry')
    if R.thorough:
        one(1, {'PP': O(x*y, z+w*sp.I+v, (x+sp.I*y)**3), 'P': O(x, y, z), 'PP_1': O(w, v, x)}, 1, 'every entry')
        for i in range(8):
            M, d, fd, order = fit.problem(py, rng, M=1, keys=['PP'])
            one(M, d, py.choice([1, 2, 3, None]), 'random formulas')
        M, d, fd, order = fit.problem(py, rng, M=11, keys=['PP'], nsym=3)
        one(M, d, None, 'many frequencies')
    else:
        M, d, fd, order = fit.problem(py, rng, M=1, keys=['PP'], nsym=4)
        one(M, d, 3, 'random formulas')
    # frequencies and chunks with several digits stay apart
    if R.more():
        M = 10 if R.thorough else 1
        one(M, {'PP': O(*[(n+1)*x+sp.I*n*y for n in range(2*M+1)])}, None, 'every entry')
    one(1, {'PP_1_real': O(x, 2*x, sp.I), 'PP': O(2*x+1, x*sp.I, 3*y), 'P[1]': O(x, 2, y)}, None, 'names of combinations')
    # regenerating into an existing folder
    with R.case('folder is replaced', 'x*y+..., then x') as c:
        fo = os.path.join(R.scratch, 'again')
        gen_model_func(fFormContainer({'PP': O(x+y+z+sp.I*(x+y+z))}, M=0), fo, max_terms_per_file=1)
        ff = fFormContainer({'PP': O(5*x+2*sp.I*y)}, M=0)
        gen_model_func(ff, fo, max_terms_per_file=1)
        c.close(load_model_func(ff, fo)(np.array([2., 3.]), 'PP', 0), 10+6j, 'loaded model')


if __name__ == '__main__':
    K.main('C22', run)
