import common as K, gen as G
import numpy as np, sympy as sp


def series(v, M, x):
    return sum(v[n+M]*np.exp(1j*n*x) for n in range(-M, M+1))


def run(R):
    from shgpy import FormContainer, fFormContainer, fDataContainer
    from shgpy.core.data_handler import form_to_fform, fform_to_form, fform_to_fdat, fdat_to_dat, form_to_dat, fform_to_dat, form_to_fdat
    from shgpy import shg_symbols as S
    py, rng = R.py, R.rng
    grid = lambda N: np.array([2*np.pi*j/N for j in range(N)])

    def check_dat(c, dat, keys, f, N, what):
        c.eq(dat.get_keys(), keys, what+' combinations')
        for k in keys:
            v = dat.get_pc(k, 'radians')
            c.eq(np.shape(v), (2, N), what+' shape')
            c.close(v[0], grid(N), what+' angles of %r' % k, 1e-12)
            c.close(v[1], np.real([f(k, x) for x in grid(N)]), what+' values of %r' % k)
    for i in range(200 if R.thorough else 16):
        if i > 6 and not R.more():
            break
        M = py.choice([0, 1, 2, 4, 16, 18])
        d = G.fform_dict(py, M, density=.4 if M > 5 else .8)
        N = py.choice([1, 2, 3, 7, 20])
        extra = sp.Symbol('not_there')
        with R.case('evaluating a Fourier formula', 'M=%d N=%d %s' % (M, N, {k: list(v) for k, v in d.items()})) as c:
            ff = fFormContainer(d, M=M)
            sub = {s: float(rng.uniform(-2, 2)) for s in G.SYMS}
            sub[extra] = 5.0
            snap = dict(sub)
            fd = fform_to_fdat(ff, sub)
            c.eq(fd.get_M(), M, 'M')
            c.eq(fd.get_keys(), list(d), 'combinations')
            ref = {k: np.array(K.numv(list(v), sub)) for k, v in d.items()}
            for k in d:
                c.close(fd.get_pc(k), ref[k], 'values of %r' % k)
            check_dat(c, fform_to_dat(ff, sub, N), list(d), lambda k, x: series(ref[k], M, x), N, 'fform_to_dat')
            check_dat(c, fdat_to_dat(fd, N), list(d), lambda k, x: series(ref[k], M, x), N, 'fdat_to_dat')
            c.eq(sub, snap, 'parameter dictionary unchanged')
            for k in d:
                c.eq(list(ff.get_pc(k)), [sp.sympify(x) for x in d[k]], 'formula unchanged')
    for i in range(100 if R.thorough else 12):
        M = py.choice([0, 1, 3, 16, 17])
        d = G.fdat_dict(rng, py, M, dtype=py.choice([complex, np.complex64]))
        N = py.choice([1, 2, 5, 40])
        with R.case('Fourier data to data', 'M=%d N=%d %s' % (M, N, {k: v.tolist() for k, v in d.items()})) as c:
            dat = fdat_to_dat(fDataContainer(d, M=M), N)
            for k in d:
                s = np.max(np.abs(d[k]))
                v = dat.get_pc(k, 'radians')
                c.close(v[0], grid(N), 'angles', 1e-12)
                c.close(v[1]/s, np.real([series(d[k].astype(complex), M, x) for x in grid(N)])/s, 'values of %r' % k, 1e-8 if d[k].dtype == complex else 1e-4)
    X = S.phi
    for i in range(60 if R.thorough else 10):
        if i > 4 and not R.more():
            break
        M = py.choice([4, 5, 9, 16])
        d = {}
        for k in G.keysets(py):
            e = sp.Integer(py.choice([0, 0, 2]))
            for _ in range(py.randint(0, 3)):
                co = G.coefficient(py)
                while co.is_real is not True:
                    co = G.coefficient(py)
                e += co*sp.cos(X)**py.randint(0, 2)*sp.sin(X)**py.randint(0, 2)
            d[k] = e
        N = py.choice([1, 3, 12])
        with R.case('all routes agree', 'M=%d N=%d %s' % (M, N, d)) as c:
            sub = {s: float(rng.uniform(.3, 2)) for s in G.SYMS}
            form = FormContainer(d)
            f = lambda k, x: K.num(d[k], dict(sub, **{}) | {X: float(x)})
            check_dat(c, form_to_dat(form, sub, N), list(d), f, N, 'form_to_dat')
            ff = form_to_fform(form, M=M)
            check_dat(c, fform_to_dat(ff, sub, N), list(d), f, N, 'form_to_fform, fform_to_dat')
            fd = form_to_fdat(form, sub, M=M)
            fd2 = fform_to_fdat(ff, sub)
            c.eq(fd.get_M(), M, 'M')
            for k in d:
                c.close(fd.get_pc(k), fd2.get_pc(k), 'form_to_fdat of %r' % k)
            check_dat(c, fdat_to_dat(fd, N), list(d), f, N, 'form_to_fdat, fdat_to_dat')
            check_dat(c, form_to_dat(fform_to_form(ff), sub, N), list(d), f, N, 'fform_to_form, form_to_dat')
    a, b = sp.symbols('a b', real=True)
    sp.Symbol('a', real=True)
    with R.case('missing parameters are refused', 'a, b') as c:
        ff = fFormContainer({'PP': np.array([0, a*b, 0], dtype=object)}, M=1)
        for f in (lambda: fform_to_fdat(ff, {a: 1.}), lambda: fform_to_dat(ff, {}, 4), lambda: form_to_dat(FormContainer({'PP': a*b}), {a: 1}, 4),
                  lambda: form_to_fdat(FormContainer({'PP': a*b*sp.cos(X)}), {b: 1}, 4), lambda: form_to_dat(FormContainer({'PP': a, 'PS': b}), {a: 1}, 4)):
            c.raises(Exception, f, 'missing value')
    with R.case('substitution is simultaneous in effect', 'a->1, b->2 in any order of the dictionary') as c:
        ff = fFormContainer({'PP': np.array([a-b, 2*a, b*sp.I], dtype=object)}, M=1)
        for sub in ({a: 1., b: 2.}, {b: 2., a: 1.}):
            c.close(fform_to_fdat(ff, sub).get_pc('PP'), [-1, 2, 2j], 'values')


if __name__ == '__main__':
    K.main('C18', run)
