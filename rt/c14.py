import common as K, gen as G, dc
import numpy as np

TAU = 2*np.pi


def run(R):
    from shgpy import DataContainer, fDataContainer
    py, rng = R.py, R.rng
    for i in range(400 if R.thorough else 40):
        if i > 20 and not R.more():
            break
        d = G.dat_dict(rng, py)
        deg = {k: np.array([np.rad2deg(v[0]), v[1]]) for k, v in d.items()}
        w = py.choice(['degrees', 'Degrees', 'DEGREES']) if False else 'degrees'
        a = float(rng.uniform(-400, 400))
        with R.case('degrees and radians', '%s shift %g' % ({k: v.tolist() for k, v in d.items()}, a)) as c:
            x, y = DataContainer(d, 'radians'), DataContainer(deg, w)
            for step in ('new', 'shifted', 'scaled'):
                if step == 'shifted':
                    x.phase_shift_data(np.deg2rad(a), 'radians')
                    y.phase_shift_data(a, 'degrees')
                if step == 'scaled':
                    x.scale_data(2)
                    y.scale_data(2)
                m = {k: tuple(v) for k, v in x.get_items('radians')}
                dc.agree(c, y, m, msg='degree-built container (%s)' % step, tol=1e-8)
                for z in (x, y):
                    rad = dict(z.get_items('radians'))
                    dg = dict(z.get_items('degrees'))
                    c.eq(list(rad), list(dg), 'keys of get_items')
                    vr, vd = z.get_values('radians'), z.get_values('degrees')
                    for n, k in enumerate(rad):
                        want = np.array([np.asarray(rad[k][0])*180/np.pi, rad[k][1]])
                        for got, what in ((dg[k], 'get_items'), (z.get_pc(k, 'degrees'), 'get_pc'), (z.get_pc(k, 'Degrees'), 'get_pc'), (vd[n], 'get_values')):
                            c.eq(np.shape(got), np.shape(want), what+' shape')
                            c.close(got[0], want[0], '%s in degrees (%s)' % (what, step))
                            c.ok(np.array_equal(got[1], want[1]), lambda: '%s: values changed with the unit: %s, %s' % (what, got[1], want[1]))
                        for got, what in ((z.get_pc(k, 'radians'), 'get_pc'), (vr[n], 'get_values'), (z.get_pc(k, 'RADIANS'), 'get_pc')):
                            c.ok(np.array_equal(got, rad[k]), what+' in radians')
                    c.close(z.get_phase_shift('degrees'), z.get_phase_shift('radians')*180/np.pi, 'phase shift')
                    p = z.as_pandas('degrees', index='none')
                    q = z.as_pandas('radians', index='none')
                    c.close(np.asarray(p['ANGLE'], float), np.asarray(q['ANGLE'], float)*180/np.pi, 'as_pandas angles')
                    c.ok(np.array_equal(np.asarray(p['VALUE']), np.asarray(q['VALUE'])), 'as_pandas values')
            c.close(y.get_phase_shift('degrees'), a, 'reported phase shift in degrees')
            c.close(x.get_phase_shift('degrees'), a, 'reported phase shift in degrees')
        M = py.choice([0, 1, 3, 16])
        fd = G.fdat_dict(rng, py, M)
        with R.case('Fourier data shift', 'M=%d shift %g' % (M, a)) as c:
            x, y = fDataContainer(fd, M=M), fDataContainer(fd, M=M)
            x.phase_shift_fdata(np.deg2rad(a), 'radians')
            y.phase_shift_fdata(a, py.choice(['degrees', 'Degrees']))
            for k in fd:
                c.close(x.get_pc(k), y.get_pc(k), 'coefficients of %r' % k)
            for z in (x, y):
                c.close(z.get_phase_shift('degrees'), a, 'reported phase shift in degrees')
                c.close(z.get_phase_shift('Radians'), np.deg2rad(a), 'reported phase shift in radians')
    dat = DataContainer({'PP': np.array([[0.0, 1.0], [1.0, 2.0]])}, 'degrees')
    fdat = fDataContainer({'PP': np.zeros(3, dtype=complex)}, M=1)
    calls = {
        'DataContainer.get_pc': lambda u: dat.get_pc('PP', u), 'DataContainer.get_items': dat.get_items, 'DataContainer.get_values': dat.get_values,
        'DataContainer.get_phase_shift': dat.get_phase_shift, 'DataContainer.phase_shift_data': lambda u: dat.phase_shift_data(1, u),
        'fDataContainer.get_phase_shift': fdat.get_phase_shift, 'fDataContainer.phase_shift_fdata': lambda u: fdat.phase_shift_fdata(1, u),
        'DataContainer()': lambda u: DataContainer({'PP': np.array([[0.0, 1.0], [1.0, 2.0]])}, u), 'DataContainer.as_pandas': lambda u: dat.as_pandas(u)}
    for n, f in calls.items():
        for u in ('rad', 'deg', 'degree', '', 'radians ', 'turns'):
            with R.case('unknown units raise ValueError', '%s %r' % (n, u)) as c:
                c.raises(ValueError, lambda: f(u), n)
    with R.case('refused shift leaves the data alone', 'unknown unit') as c:
        c.close(dat.get_pc('PP', 'degrees')[0], [0, 1], 'angles')
        c.close(dat.get_phase_shift('degrees'), 0, 'phase shift')


if __name__ == '__main__':
    K.main('C14', run)
