import common as K, gen as G, dc
import numpy as np, math

TAU = 2*np.pi


def run(R):
    from shgpy import DataContainer
    py, rng = R.py, R.rng
    for i in range(600 if R.thorough else 70):
        if i > 25 and not R.more():
            break
        d = G.dat_dict(rng, py)
        ops = [(py.choice(['scale', 'min', 'norm', 'shift', 'filter', 'filterargs', 'scale0', 'get']), float(rng.uniform(0.2, 4)), py.choice([-1.25, .5, 3, np.pi, 200.0, -45])) for _ in range(py.randint(1, 7))]
        with R.case('history of operations', '%s %s' % ({k: v.tolist() for k, v in d.items()}, ops)) as c:
            dat = DataContainer(d, 'radians')
            m = dc.norm(d)
            sc, off, ph = 1.0, 0.0, 0.0
            for o, f, a in ops:
                if o == 'scale':
                    c.ok(dat.scale_data(f) is None or True)
                    m = {k: (x, f*y) for k, (x, y) in m.items()}
                    sc *= f
                elif o == 'scale0' and py.random() < .3:
                    dat.scale_data(0)
                    m = {k: (x, 0*y) for k, (x, y) in m.items()}
                    sc = 0.0
                elif o == 'min':
                    dat.subtract_min()
                    mn = min(np.min(y) for x, y in m.values())
                    m = {k: (x, y-mn) for k, (x, y) in m.items()}
                    off -= mn
                    c.close(dat.get_minval()[1], 0, 'overall minimum after subtract_min', 1e-12)
                elif o == 'norm':
                    mx = max(np.max(y) for x, y in m.values())
                    if mx <= 1e-9:
                        continue
                    if py.random() < .4:
                        dat.normalize_data()
                        f = 1.0
                    else:
                        dat.normalize_data(f)
                    m = {k: (x, y*(f/mx)) for k, (x, y) in m.items()}
                    sc *= f/mx
                    c.close(dat.get_maxval()[1], f, 'overall maximum after normalize_data', 1e-12)
                elif o == 'shift':
                    u = py.choice(['radians', 'degrees', 'Radians', 'DEGREES'])
                    dat.phase_shift_data(a, u)
                    r = np.deg2rad(a) if u.lower() == 'degrees' else a
                    m = dc.sortd({k: ((x+r) % TAU, y) for k, (x, y) in m.items()})
                    ph += r
                elif o == 'filter':
                    dat.filter(np.tanh)
                    m = {k: (x, np.tanh(y)) for k, (x, y) in m.items()}
                elif o == 'filterargs':
                    dat.filter(lambda y, p, q=1: y*p+q, 2, q=-3)
                    m = {k: (x, y*2-3) for k, (x, y) in m.items()}
                dc.agree(c, dat, m, msg='after %s' % o)
                c.close(dat.get_scale(), sc, 'scale after %s' % o)
                s = max(1.0, abs(off))
                c.close(dat.get_offset()/s, off/s, 'offset after %s' % o)
                c.close(dat.get_phase_shift('radians'), ph, 'phase shift after %s' % o)
                for fn, pcf, ext in (('get_maxval', 'get_pc_maxval', np.max), ('get_minval', 'get_pc_minval', np.min)):
                    pc, v = getattr(dat, fn)()
                    c.ok(pc in m, '%s names %r' % (fn, pc))
                    want = ext([ext(dat.get_pc(k, 'radians')[1]) for k in m])
                    c.eq(float(v), float(want), fn)
                    c.eq(float(ext(dat.get_pc(pc, 'radians')[1])), float(v), '%s: combination %r attains it' % (fn, pc))
                    for k in m:
                        c.eq(float(getattr(dat, pcf)(k)), float(ext(dat.get_pc(k, 'radians')[1])), pcf)
    for f in (-1, -0.5, -1e-9):
        with R.case('negative scale factors are refused', str(f)) as c:
            d = {'PP': np.array([[0.0, 1.0], [1.0, 2.0]])}
            dat = DataContainer(d, 'radians')
            c.raises(ValueError, lambda: dat.scale_data(f), 'scale_data')
            dc.agree(c, dat, dc.norm(d))
            c.eq(dat.get_scale(), 1, 'scale unchanged after refusal')
    for vals in ([-5.0, -3.0, -9.0], [0.0, 0.0, 0.0], [1e300, -1e300, 0.0], [-1e-300, -2e-300, -3e-300]):
        with R.case('extreme values', str(vals)) as c:
            dat = DataContainer({'PP': np.array([[0.0, 1.0, 2.0], vals]), 'SS': np.array([[0.0], [vals[0]]])}, 'radians')
            c.eq(dat.get_maxval(), ('PP', max(vals)) if max(vals) != vals[0] else dat.get_maxval(), 'maximum')
            c.eq(dat.get_maxval()[1], max(vals), 'maximum')
            c.eq(dat.get_minval()[1], min(vals), 'minimum')
    with R.case('scale factors of other types', 'int, np.float32, True') as c:
        dat = DataContainer({'PP': np.array([[0, 1], [1, 2]])}, 'radians')
        dat.scale_data(3)
        dat.scale_data(np.float64(0.5))
        c.close(dat.get_pc('PP', 'radians')[1], [1.5, 3.0], 'values')
        c.close(dat.get_scale(), 1.5, 'scale')


if __name__ == '__main__':
    K.main('C13', run)
