import common as K, gen as G
import numpy as np, sympy as sp, time


def check(R, name, theta, kw, desc, single=True):
    from shgpy.formgen import formgen
    from shgpy import FormContainer, shg_symbols as S
    with R.case(name, desc) as c:
        before = {k: np.copy(v) for k, v in kw.items() if v is not None}
        form = formgen(theta, **kw)
        c.ok(isinstance(form, FormContainer), 'returns a FormContainer')
        c.eq(sorted(form.get_keys()), ['PP', 'PS', 'SP', 'SS'], 'combinations')
        for k, v in before.items():
            c.same(kw[k], v, 'tensor %s unchanged' % k)
        syms = set()
        for v in before.values():
            for e in v.flatten():
                syms |= sp.sympify(e).free_symbols
        for rep in range(3):
            vals = {s: float(R.rng.uniform(-1.5, 1.5)) for s in syms}
            th = theta
            if isinstance(theta, sp.Basic):
                for s in theta.free_symbols:
                    vals[s] = float(R.rng.uniform(-1.5, 1.5))
                th = K.num(theta, vals).real
            chi = {k[2:]: G.numtensor(v, vals) for k, v in before.items()}
            ph = float(R.rng.uniform(-7, 7))
            vals[S.phi] = ph
            want = G.intensities(float(th), ph, **chi)
            for k in want:
                got = K.num(form.get_pc(k), vals)
                c.close(got, want[k], '%s at phi=%g theta=%g' % (k, ph, th))


def run(R):
    from shgpy import shg_symbols as S
    py = R.py
    with_q = 0
    # every entry of every tensor on its own basis (linear part) through sparse cases
    thetas = [0.3, S.theta, 0, -0.7, sp.pi/6, 2*S.psi, 1.2]
    combos = [('eee',), ('mee',), ('eee', 'mee'), ('eee', 'qee'), ('eee', 'mee', 'qee'), ('qee',), ('mee', 'qee')]
    first = 7 if R.thorough else 5
    i = 0
    t_end = R.t0+R.budget
    while (i < first or time.time() < t_end) and i < (200 if R.thorough else 40):
        cb = combos[i % 7]
        if i >= first and 'qee' in cb and t_end-time.time() < 8:
            i += 1
            if t_end-time.time() < 2:
                break
            continue
        th = thetas[i % len(thetas)] if i >= 7 else [S.theta, 0.4, -0.7, 0.3, sp.Rational(1, 2), S.theta, 0.9][i]
        kw = {}
        for t in cb:
            rank = 4 if t == 'qee' else 3
            kw['t_'+t] = G.real_chi(py, rank, density=py.choice([.3, .15]) if rank == 4 else py.choice([.3, .6, .2]),
                                    cplx=py.random() < .7, sym=py.choice([0.1, .3]), tag=t[0])
        if py.random() < .5:
            for t in ('eee', 'mee', 'qee'):
                kw.setdefault('t_'+t, None)
        check(R, 'formgen against numeric physics: '+'+'.join(cb), th, kw, 'theta=%s, %s' % (th, {k: str(None if v is None else v.tolist()) for k, v in kw.items()}))
        i += 1
    for bad in [dict(), dict(t_eee=None)]:
        with R.case('no tensor is refused', str(bad)) as c:
            from shgpy.formgen import formgen
            c.raises(ValueError, lambda: formgen(0.3, **bad), 'formgen without tensors')


if __name__ == '__main__':
    K.main('C03', run)
