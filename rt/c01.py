import common as K, gen as G
import numpy as np, sympy as sp


def oracle(terms, n):
    """terms: [(coef, a, b)]"""
    return sp.Add(*[c*sp.sympify(G.trig_coeffs(a, b).get(n, 0)) for c, a, b in terms])


def run(R):
    from shgpy import FormContainer, form_to_fform, fFormContainer
    from shgpy import shg_symbols as S
    phi = S.phi
    mk = lambda terms: sp.Add(*[c*sp.cos(phi)**a*sp.sin(phi)**b for c, a, b in terms])
    ab = [(a, b) for a in range(9) for b in range(9-a)]

    def check(name, formulas, M, desc):
        """formulas: {key: (expr, terms)}"""
        with R.case(name, desc) as c:
            form = FormContainer({k: e for k, (e, _) in formulas.items()})
            ff = form_to_fform(form, M=M)
            c.ok(isinstance(ff, fFormContainer), 'returns an fFormContainer')
            c.eq(ff.get_M(), M, 'M')
            c.eq(ff.get_keys(), list(formulas), 'combinations')
            for k, (e, terms) in formulas.items():
                v = ff.get_pc(k)
                c.eq(v.shape, (2*M+1,), 'shape')
                vals = G.values([t[0] for t in terms]+list(v), R.rng)
                for n in range(-M, M+1):
                    if n != 0:
                        c.ok(not sp.sympify(v[n+M]).has(phi), 'coefficient %d depends on phi' % n)
                    c.close(K.num(v[n+M], vals), K.num(oracle(terms, n), vals), 'key %r, n=%d of %s' % (k, n, e))
            c.eq(form.get_items(), list({k: sp.sympify(e) for k, (e, _) in formulas.items()}.items()), 'input unchanged')

    # complete table at once: every cos^a sin^b with its own symbol, incl. n beyond the table
    syms = {p: sp.Symbol('c_%d_%d' % p) for p in ab}
    terms = [(syms[p],)+p for p in ab]
    for M in (18, 8):
        with R.case('table entries', 'sum of c_ab cos^a sin^b over all a+b<=8, M=%d' % M) as c:
            ff = form_to_fform(FormContainer({'PP': mk(terms)}), M=M)
            v = ff.get_pc('PP')
            for n in range(-M, M+1):
                e = sp.expand(v[n+M])
                for (a, b), s in syms.items():
                    c.close(complex(e.coeff(s)), G.trig_coeffs(a, b).get(n, 0), 'coefficient %d of cos^%d sin^%d' % (n, a, b), 1e-12)

    one = sp.Integer(1)
    x, y = sp.Symbol('x'), sp.Symbol('y', real=True)
    special = [
        ('bare cos', [(one, 1, 0)]), ('bare sin', [(one, 0, 1)]), ('bare cos^2', [(one, 2, 0)]),
        ('bare cos*sin', [(one, 1, 1)]), ('bare sin^8', [(one, 0, 8)]), ('x*cos^3 sin^5', [(x, 3, 5)]),
        ('-cos', [(-one, 1, 0)]), ('constant', [(sp.Rational(3, 7), 0, 0)]), ('symbol', [(x, 0, 0)]), ('sum without phi', [(x+y, 0, 0)]),
        ('1+cos', [(one, 0, 0), (one, 1, 0)]), ('x+cos^4', [(x, 0, 0), (one, 4, 0)]), ('I*sin+x', [(sp.I, 0, 1), (x, 0, 0)]),
        ('(x+y)*cos^2', [((x+y), 2, 0)]), ('2x*cos sin + x^2', [(2*x, 1, 1), (x**2, 0, 0)]),
        ('cos^8+sin^8', [(one, 8, 0), (one, 0, 8)]), ('1/x', [(1/x, 2, 1)]), ('cos(theta)*cos', [(sp.cos(S.theta), 1, 0), (sp.sin(S.theta), 0, 1)]),
        ('x*y*cos^2 + y*cos', [(x*y, 2, 0), (y, 1, 0)]),
    ]
    for name, terms in special:
        check('single-formula cases', {'SP': (mk(terms), terms)}, R.py.choice([1, 2, 8, 9]), name)
    for M in (0, 1, 3):
        check('small M', {'PP': (x*sp.cos(phi)**2, [(x, 2, 0)]), 'SS': (sp.Integer(0), []), 'PS': (sp.Float(2.5), [(sp.Float(2.5), 0, 0)])}, M, 'M=%d' % M)
    with R.case('plain numbers', 'FormContainer({"PP": 0, "SS": 2.5})') as c:
        ff = form_to_fform(FormContainer({'PP': 0, 'SS': 2.5}), M=2)
        c.close([complex(z) for z in ff.get_pc('PP')], [0]*5, 'zero formula')
        c.close([complex(z) for z in ff.get_pc('SS')], [0, 0, 2.5, 0, 0], 'constant formula')
    with R.case('default M', 'form_to_fform(form) uses M=16') as c:
        ff = form_to_fform(FormContainer({'PP': sp.cos(phi)**2}))
        c.eq(ff.get_pc('PP').shape, (33,), 'shape')
        c.close([complex(z) for z in ff.get_pc('PP')], [G.trig_coeffs(2, 0).get(n, 0) for n in range(-16, 17)], 'cos^2')
    # refusals
    for e in [sp.sin(2*phi), sp.cos(phi)**9, sp.cos(phi)**5*sp.sin(phi)**4, phi, phi*sp.cos(phi), sp.exp(sp.I*phi), 1/sp.cos(phi), sp.cos(phi+x), x*sp.tan(phi),
              sp.cos(phi)+sp.cos(3*phi), sp.cos(phi/2)**2, sp.cos(phi)*sp.Abs(sp.sin(phi)), x+phi**2, sp.sqrt(sp.cos(phi)**2+x)]:
        with R.case('other dependence on phi is refused', str(e)) as c:
            try:
                ff = form_to_fform(FormContainer({'PP': e}), M=3)
            except Exception:
                c.ok(True)
                continue
            vals = G.values([e], R.rng)
            xs = np.arange(4096)*2*np.pi/4096
            f = sp.lambdify(phi, e.subs({k: v for k, v in vals.items() if k != phi}), 'numpy')
            ys = np.array(f(xs+1e-7), dtype=complex)
            for n in range(-3, 4):
                c.close(K.num(ff.get_pc('PP')[n+3], vals), np.mean(ys*np.exp(-1j*n*xs)), 'wrong coefficient %d instead of a refusal' % n, 1e-3)
    # random sums
    k = 0
    while R.more() and k < (400 if R.thorough else 25):
        k += 1
        M = R.py.choice([1, 2, 4, 8, 10])
        fs = {}
        for key in G.keysets(R.py)[:3]:
            terms = {}
            for _ in range(R.py.randint(1, 6)):
                p = R.py.choice(ab)
                terms[p] = G.coefficient(R.py)
            terms = [(co,)+p for p, co in terms.items()]
            fs[key] = (mk(terms), terms)
        check('random sums', fs, M, {kk: str(e) for kk, (e, _) in fs.items()})


if __name__ == '__main__':
    K.main('C01', run)
