import common as K, gen as G
import numpy as np, sympy as sp


def run(R):
    from shgpy import FormContainer, fFormContainer, fform_to_form, form_to_fform
    from shgpy import shg_symbols as S
    phi = S.phi

    def series(name, d, M, desc):
        with R.case(name, desc) as c:
            ff = fFormContainer(d, M=M)
            before = {k: np.copy(v) for k, v in ff.get_items()}
            form = fform_to_form(ff)
            c.ok(isinstance(form, FormContainer), 'returns a FormContainer')
            c.eq(form.get_keys(), list(d), 'combinations')
            for k in d:
                e = form.get_pc(k)
                vals = G.values(list(d[k]), R.rng, extra=[phi])
                co = np.array([K.num(z, vals) for z in d[k]])
                for x in [0.0, 0.37, 2.9, -1.3, float(R.rng.uniform(0, 6))]:
                    vals[phi] = x
                    c.close(K.num(e, vals), np.sum(co*np.exp(1j*x*np.arange(-M, M+1))), 'series of %r at phi=%g' % (k, x))
            for k, v in ff.get_items():
                c.same(v, before[k], 'input unchanged')

    k = 0
    for M in [0, 1, 2, 16, 5, 17]+[R.py.randint(0, 20) for _ in range(200 if R.thorough else 8)]:
        if k > 5 and not R.more():
            break
        k += 1
        d = G.fform_dict(R.py, M)
        series('Fourier series', d, M, 'M=%d %s' % (M, {a: str(list(b)) for a, b in d.items()}))
    for M in (1, 3):
        for pos in range(2*M+1):
            a = np.zeros(2*M+1, dtype=object)
            a[pos] = sp.Symbol('x')
            series('single coefficient', {'SS': a}, M, 'M=%d, only entry %d' % (M, pos))
    # round trip
    ab = [(a, b) for a in range(9) for b in range(9-a)]
    for i in range(60 if R.thorough else 10):
        if i > 3 and not R.more():
            break
        M = R.py.choice([3, 8, 8, 10])
        d = {}
        for key in G.keysets(R.py)[:3]:
            pool = [p for p in ab if sum(p) <= M]
            d[key] = sp.Add(*[G.coefficient(R.py)*sp.cos(phi)**a*sp.sin(phi)**b for a, b in R.py.sample(pool, R.py.randint(1, 5))])
        with R.case('round trip', 'M=%d %s' % (M, d)) as c:
            back = fform_to_form(form_to_fform(FormContainer(d), M=M))
            c.eq(back.get_keys(), list(d), 'combinations')
            for k, e in d.items():
                vals = G.values([e], R.rng, extra=[phi])
                for x in [0.0, 1.1, -2.4, 4.0]:
                    vals[phi] = x
                    c.close(K.num(back.get_pc(k), vals), K.num(e, vals), 'function %r at phi=%g' % (k, x))


if __name__ == '__main__':
    K.main('C02', run)
