import common as K, gen as G
import numpy as np


def run(R):
    from shgpy import fDataContainer
    py, rng = R.py, R.rng
    for i in range(600 if R.thorough else 80):
        if i > 30 and not R.more():
            break
        M = py.choice([0, 1, 2, 5, 16, 20])
        dt = py.choice([complex, complex, np.complex64])
        d = G.fdat_dict(rng, py, M, dtype=dt)
        tol = 1e-9 if dt is complex else 1e-4
        ops = [(py.choice(['scale', 'norm', 'shift', 'shiftdeg', 'copy']), float(rng.uniform(.2, 3)), py.choice([1, -2, np.pi, .3, 6.5, 0])) for _ in range(py.randint(1, 6))]
        with R.case('history of operations', 'M=%d %s %s %s' % (M, dt, {k: v.tolist() for k, v in d.items()}, ops)) as c:
            f = fDataContainer(d, M=M)
            m = {k: np.array(v, dtype=complex) for k, v in d.items()}
            snap = {k: np.copy(v) for k, v in d.items()}
            sc, ph = 1.0, 0.0
            ns = np.arange(-M, M+1)
            for o, s, a in ops:
                if o == 'scale':
                    f.scale_fdata(s)
                    m = {k: s*v for k, v in m.items()}
                    sc *= s
                elif o == 'norm':
                    mx = max(np.max(np.abs(v)) for v in m.values())
                    f.normalize_fdata(s)
                    m = {k: v*(s/mx) for k, v in m.items()}
                    sc *= s/mx
                    c.close(f.get_maxval()[1], s, 'maximum after normalize', tol)
                elif o == 'shift':
                    f.phase_shift_fdata(a, 'radians')
                    m = {k: v*np.exp(1j*ns*a) for k, v in m.items()}
                    ph += a
                elif o == 'shiftdeg':
                    f.phase_shift_fdata(a*30, 'degrees')
                    m = {k: v*np.exp(1j*ns*np.deg2rad(a*30)) for k, v in m.items()}
                    ph += np.deg2rad(a*30)
                elif o == 'copy':
                    f = f.copy()
                c.eq(f.get_keys(), list(d), 'combinations')
                c.eq(f.get_M(), M, 'M')
                for (k, v), w, (kk, vv) in zip(m.items(), f.get_values(), f.get_items()):
                    u = max(1e-300, np.max(np.abs(v)))
                    c.eq(k, kk, 'item order')
                    for x in (w, vv, f.get_pc(k)):
                        c.eq(np.shape(x), (2*M+1,), 'shape')
                        c.close(x/u, v/u, 'coefficients of %r after %s' % (k, o), tol)
                c.close(f.get_scale()/abs(sc), 1, 'scale after %s' % o, max(tol, 1e-9)*(1 if dt is complex else 10))
                c.close(f.get_phase_shift('radians'), ph, 'phase shift after %s' % o)
                pc, v = f.get_maxval()
                mags = {k: float(np.max(np.abs(f.get_pc(k)))) for k in d}
                c.close(v/max(mags.values()), 1, 'maximum magnitude', 1e-6 if dt is not complex else 1e-12)
                c.close(mags[pc]/max(mags.values()), 1, 'combination named for the maximum', 1e-6 if dt is not complex else 1e-12)
                for k in d:
                    c.close(f.get_pc_maxval(k)/max(mags[k], 1e-300), 1, 'maximum of %r' % k, 1e-6)
            for k in d:
                c.same(d[k], snap[k], 'input unchanged')
    with R.case('full turn is the identity', '2pi and 360 degrees') as c:
        d = G.fdat_dict(rng, py, 4, keys=['PP', 'SS'])
        f = fDataContainer(d, M=4)
        f.phase_shift_fdata(2*np.pi, 'radians')
        f.phase_shift_fdata(-360, 'degrees')
        f.phase_shift_fdata(360, 'degrees')
        for k in d:
            u = np.max(np.abs(d[k]))
            c.close(f.get_pc(k)/u, d[k]/u, 'coefficients')
    g = np.zeros(5, dtype=complex)
    bad = {'length': ({'PP': g}, 3), 'default M': ({'PP': g}, 16), 'real': ({'PP': np.zeros(5)}, 2), 'object': ({'PP': np.zeros(5, dtype=object)}, 2), 'list': ({'PP': [0j]*5}, 2),
           'key': ({1: g}, 2), '2d': ({'PP': np.zeros((5, 1), dtype=complex)}, 2), 'int': ({'PP': np.zeros(5, dtype=int)}, 2), 'second': ({'PP': g, 'SS': np.zeros(4, dtype=complex)}, 2),
           'second real': ({'PP': g, 'SS': np.zeros(5)}, 2), 'None': (None, 2), 'short': ({'PP': np.zeros(1, dtype=complex)}, 2)}
    for n, (d, M) in bad.items():
        with R.case('malformed input is refused', n) as c:
            c.raises(ValueError, lambda: fDataContainer(d, M=M), n)
    with R.case('negative scale factors are refused', '-2') as c:
        f = fDataContainer({'PP': g+1}, M=2)
        c.raises(ValueError, lambda: f.scale_fdata(-2), 'scale_fdata')
        c.close(f.get_pc('PP'), g+1, 'unchanged')
        c.eq(f.get_scale(), 1, 'scale')


if __name__ == '__main__':
    K.main('C16', run)
