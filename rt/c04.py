import common as K, gen as G
import numpy as np, sympy as sp, time


def run(R):
    import shgpy.formgen as fg
    from shgpy import FormContainer, shg_symbols as S
    py = R.py

    def compare(c, form, theta, t1, t2):
        c.ok(isinstance(form, FormContainer), 'returns a FormContainer')
        c.eq(sorted(form.get_keys()), ['PP', 'PS', 'SP', 'SS'], 'combinations')
        syms = set()
        for v in (t1, t2):
            if v is not None:
                for e in v.flatten():
                    syms |= sp.sympify(e).free_symbols
        for rep in range(3):
            vals = {s: float(R.rng.uniform(-1.5, 1.5)) for s in syms}
            th = theta
            if isinstance(theta, sp.Basic):
                for s in theta.free_symbols:
                    vals[s] = float(R.rng.uniform(-1.5, 1.5))
                th = K.num(theta, vals).real
            chi = {'eee': G.numtensor(t1, vals)}
            if t2 is not None:
                chi['qee'] = G.numtensor(t2, vals)
            ph = float(R.rng.uniform(-7, 7))
            vals[S.phi] = ph
            want = G.intensities(float(th), ph, **chi)
            for k in want:
                c.close(K.num(form.get_pc(k), vals), want[k], '%s at phi=%g theta=%g' % (k, ph, th))

    thetas = [0.31234567, S.theta, 0, -0.7654321, sp.pi/6]
    for i in range(200 if R.thorough else 6):
        if i > 2 and not R.more():
            break
        th = thetas[i % 5]
        t1 = G.real_chi(py, 3, density=.3, cplx=i % 2 == 0, sym=.4)
        desc = 'theta=%s t1=%s' % (th, t1.tolist())
        with R.case('formgen_just_dipole', desc) as c:
            b = np.copy(t1)
            compare(c, fg.formgen_just_dipole(t1, th), th, t1, None)
            c.same(t1, b, 'tensor unchanged')
        with R.case('gen_P_just_dipole + make_form_from_P_and_Q', desc) as c:
            compare(c, fg.make_form_from_P_and_Q(*fg.gen_P_just_dipole(t1, th)), th, t1, None)
            c.same(t1, b, 'tensor unchanged')
    with R.case('complex parameters are refused', 'Symbol without assumptions') as c:
        bad = np.zeros((3, 3, 3), dtype=object)
        bad[0, 0, 0] = sp.Symbol('x')
        c.raises(ValueError, lambda: fg.formgen_just_dipole(bad, .3), 'formgen_just_dipole')
        c.raises(ValueError, lambda: fg.gen_P_just_dipole(bad, .3), 'gen_P_just_dipole')
    for i in range(40 if R.thorough else 2):
        if i > 1 and not R.more():
            break
        th = [S.theta, 0.43219876, -1.1][i % 3]
        t1 = G.real_chi(py, 3, density=.25, cplx=True, sym=.3)
        t2 = G.real_chi(py, 4, density=.12, cplx=i % 2 == 0, sym=.3, tag='q')
        desc = 'theta=%s t1=%s t2=%s' % (th, t1.tolist(), t2.tolist())
        if i % 2 == 0:
            with R.case('gen_P_dipole_quadrupole + make_form_from_P_and_Q', desc) as c:
                compare(c, fg.make_form_from_P_and_Q(*fg.gen_P_dipole_quadrupole(t1, t2, th)), th, t1, t2)
        if i % 2 == 1 or R.thorough:
            with R.case('formgen_dipole_quadrupole', desc) as c:
                b1, b2 = np.copy(t1), np.copy(t2)
                compare(c, fg.formgen_dipole_quadrupole(t1, t2, th), th, t1, t2)
                c.same(t1, b1, 'tensor unchanged')
                c.same(t2, b2, 'tensor unchanged')


if __name__ == '__main__':
    K.main('C04', run)
