import common as K, gen as G, fit
import numpy as np, sympy as sp, os, pathlib


def run(R):
    from shgpy import fFormContainer, fDataContainer
    from shgpy.core.data_handler import load_fform, save_fform
    from shgpy.fformfit import gen_cost_func, load_func
    py, rng = R.py, R.rng
    special = [sp.Symbol('x'), sp.Symbol('x', real=True), sp.Symbol('x', positive=True), sp.Symbol('x', integer=True), sp.Symbol('chi_{xyz}', real=True),
               sp.Symbol('lambda'), sp.Symbol('I'), sp.Symbol('E'), sp.Symbol('S', real=True), sp.Symbol('psi', complex=True), sp.Symbol('a b', real=True),
               sp.Symbol('beta', nonzero=True), sp.Symbol('N'), sp.Symbol('Q', real=True), sp.Symbol('pi', real=True), sp.Symbol('1x', real=True)]

    def one(M, d, name, desc=None):
        with R.case(name, desc or 'M=%d %s' % (M, {k: [sp.srepr(sp.sympify(e)) for e in v] for k, v in d.items()})) as c:
            f = fFormContainer(d, M=M)
            fn = os.path.join(R.scratch, 'form.p')
            save_fform(f, fn if py.random() < .5 else pathlib.Path(fn))
            g = load_fform(fn)
            c.eq(type(g), fFormContainer, 'type')
            c.eq(g.get_M(), M, 'M')
            c.eq(g.get_keys(), list(d), 'combinations')
            for k in d:
                a, b = list(g.get_pc(k)), [sp.sympify(e) for e in d[k]]
                c.eq(len(a), 2*M+1, 'length')
                c.ok(a == b, lambda: 'entries of %r: got %s, expected %s' % (k, a, b))
                for x, y in zip(a, b):
                    c.eq({(s.name, tuple(sorted(s.assumptions0.items()))) for s in x.free_symbols}, {(s.name, tuple(sorted(s.assumptions0.items()))) for s in y.free_symbols}, 'symbols')
            c.eq(g.get_free_symbols(), f.get_free_symbols(), 'free symbols')
            c.eq([str(x) for x in g.get_free_symbols()], [str(x) for x in f.get_free_symbols()], 'free symbols')
    for i in range(200 if R.thorough else 30):
        if i > 10 and not R.more():
            break
        M = py.choice([0, 1, 2, 5, 16, 17])
        one(M, G.fform_dict(py, M, syms=G.SYMS+special, density=.6), 'save and load')
    O = lambda *a: np.array(a, dtype=object)
    x, y = special[1], special[4]
    one(0, {'PP': O(0)}, 'save and load')
    one(1, {'PP': O(0, 0, 0), 'SS': O(1, 2, 3)}, 'save and load')
    one(1, {'PP': O(1.0, 2.5j, -1e-17), 'SS': O(sp.Rational(1, 3), sp.Float('0.1', 30), sp.pi)}, 'save and load')
    one(1, {'PP': O(sp.exp(sp.I*x)*sp.sqrt(y), sp.Abs(x), sp.conjugate(special[0])), 'k e y': O(sp.re(special[0]), (x+1)**sp.Rational(1, 3), sp.cos(2*x+y))}, 'save and load')
    # the last one saved counts
    with R.case('formula file overwritten', 'three saves') as c:
        fn = os.path.join(R.scratch, 'f')
        for n in range(3):
            f = fFormContainer({'K%d' % n: O(*[x*n]*(2*n+1))}, M=n)
            save_fform(f, fn)
            g = load_fform(fn)
            c.eq(g.get_keys(), ['K%d' % n], 'combinations')
            c.eq(list(g.get_pc('K%d' % n)), [x*n]*(2*n+1), 'entries')
    # cost functions
    data = fDataContainer({'PP': np.array([1+2j])}, M=0)
    for chunk in (False, True):
        for asp in (str, pathlib.Path):
            with R.case('cost function file overwritten and loaded before', 'chunk=%s path=%s' % (chunk, asp.__name__)) as c:
                fn = asp(os.path.join(R.scratch, 'c_%s%s.so' % (chunk, asp.__name__)))
                olds = []
                for n in range(1, 5 if R.thorough else 4):
                    f = fFormContainer({'PP': O(n*x**n)}, M=0)
                    gen_cost_func(f, data, save_filename=fn, chunk=chunk)
                    g = load_func(fn)
                    olds.append((n, g))
                    for m, h in olds:
                        for v in (0.5, -1.25):
                            c.close(h(np.array([v])), abs(m*v**m-(1+2j))**2, 'function saved as number %d, %d saved since, at %s' % (m, n-m, v))
    # without multiprocessing nothing depends on the file afterwards; with it, see known findings
    for chunk in (False,):
        fn = os.path.join(R.scratch, 'mp.so')
        gen_cost_func(fFormContainer({'PP': O(2*x)}, M=0), data, save_filename=fn)
        with R.case('multiprocessing=True', 'first load') as c:
            g = load_func(fn, multiprocessing=True)
            c.close(g(np.array([2.])), abs(4-(1+2j))**2, 'value')
        gen_cost_func(fFormContainer({'PP': O(5*x)}, M=0), data, save_filename=fn)
        try:
            got = load_func(fn, multiprocessing=True)(np.array([2.]))
        except Exception as e:
            got = repr(e)
        want = abs(10-(1+2j))**2
        if not K.close(got, want):
            R.finding('load_func(multiprocessing=True) after overwrite', 'load_func(path, multiprocessing=True) of a file that was overwritten after being loaded with multiprocessing=True before', 'got %s, expected %s' % (got, want))


if __name__ == '__main__':
    K.main('C24', run)
