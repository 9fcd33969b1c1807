import common as K, gen as G, dc
import numpy as np, math, warnings


def run(R):
    from shgpy import DataContainer
    py, rng = R.py, R.rng
    TAU = 2*np.pi

    def build(d, units, desc, name='normal form', **kw):
        with R.case(name, desc) as c:
            snap = {k: np.copy(v) for k, v in d.items()}
            dat = DataContainer(d, units, **kw)
            dc.normal_form(c, dat)
            dc.agree(c, dat, dc.norm(snap, units.lower() == 'degrees'))
            for k in d:
                c.same(d[k], snap[k], 'input array unchanged')
    # duplicates, negative, large, unsorted, integer
    A = lambda x, y=None, t=float: np.array([x, np.arange(len(x))+1 if y is None else y], dtype=t)
    special = {
        'multiples of 2pi': A([0, TAU, 1.0, -TAU, 3*TAU]),
        'all equal': A([1.5, 1.5, 1.5]),
        'single': A([7.0]),
        'negative': A([-1.0, -0.25, -6.5, 2.0]),
        'reversed': A([6.0, 5.0, 4.0, 3.0, 2.0, 1.0]),
        'large': A([1000.0, -1000.0, 12345.678]),
        'pi multiples': A([0, np.pi, -np.pi, 3*np.pi, np.pi/2, -np.pi/2]),
        'same value different angle': A([2.0, 1.0, 3.0], [5, 5, 5]),
        'duplicate in the middle': A([0.5, 4.0, 0.5, 2.0, 4.0, 1.0]),
        'float32': A([0.5, 4.0, 2.0, 9.0], t=np.float32),
    }
    for name, a in special.items():
        for key in ('PP',):
            if name == 'float32':
                with R.case('normal form', name) as c:
                    dat = DataContainer({key: a}, 'radians')
                    dc.normal_form(c, dat)
                    dc.agree(c, dat, dc.norm({key: a}), tol=1e-5)
                continue
            build({key: a, 'SS': A([0.1, 0.2])}, 'radians', '%s: %s' % (name, a.tolist()))
    deg = {
        'degrees': A([0.0, 90, 450, 180, -90]),
        'degrees 360': A([0.0, 360.0, 720.0, 10]),
        'integer degrees': A([0, 45, 90, 270], [1, 2, 3, 4], int),
        'integer degrees unsorted': A([350, 10, -20, 365, 4], [1, 2, 3, 4, 5], int),
    }
    for name, a in deg.items():
        with R.case('normal form, degrees', '%s: %s' % (name, a.tolist())) as c:
            dat = DataContainer({'PS': a}, 'degrees')
            dc.normal_form(c, dat)
            m = {}
            pts = []
            seen = set()
            for x, y in a.T:
                if x % 360 not in seen:
                    seen.add(x % 360)
                    pts.append((x % 360, y))
            pts.sort()
            dc.agree(c, dat, {'PS': (np.deg2rad([p[0] for p in pts]), np.array([p[1] for p in pts], dtype=float))})
    build({'PP': A([0, 1, 7, 3], [4, 5, 6, 7], int)}, 'radians', 'integer radians')
    for i in range(400 if R.thorough else 60):
        d = G.dat_dict(rng, py)
        if py.random() < .5:
            for k in d:
                n = d[k].shape[1]
                if n > 2:
                    d[k][0][py.randrange(n)] = d[k][0][0]
        u = py.choice(['radians', 'degrees'])
        if u == 'degrees':
            for k in d:
                d[k][0] = np.rad2deg(d[k][0])
        build(d, u, '%s %s' % (u, {k: v.tolist() for k, v in d.items()}), 'normal form, random')
    # accepts an iterable of pairs
    with R.case('items as definition', 'list of (key, array)') as c:
        a = A([3.0, 1.0])
        dat = DataContainer([('PP', a), ('SS', a+1)], 'radians')
        dc.agree(c, dat, dc.norm({'PP': a, 'SS': a+1}))
    # every later operation keeps the normal form and the pairing
    for i in range(200 if R.thorough else 25):
        if i > 8 and not R.more():
            break
        d = G.dat_dict(rng, py)
        ops = [py.choice(['shift', 'shiftdeg', 'scale', 'min', 'norm', 'filter', 'copy']) for _ in range(py.randint(1, 6))]
        log = []
        with R.case('normal form after operations', '%s %s' % ({k: v.tolist() for k, v in d.items()}, ops)) as c:
            dat = DataContainer(d, 'radians')
            m = dc.norm(d)
            for o in ops:
                if o == 'shift':
                    a = py.choice([-1.0, 0.5, 7.5, -20.0, np.pi, TAU, float(rng.uniform(-9, 9))])
                    dat.phase_shift_data(a, 'radians')
                    m = dc.sortd({k: ((x+a) % TAU, y) for k, (x, y) in m.items()})
                elif o == 'shiftdeg':
                    a = py.choice([-90, 45.5, 361])
                    dat.phase_shift_data(a, 'degrees')
                    m = dc.sortd({k: ((x+np.deg2rad(a)) % TAU, y) for k, (x, y) in m.items()})
                elif o == 'scale':
                    dat.scale_data(2.5)
                    m = {k: (x, 2.5*y) for k, (x, y) in m.items()}
                elif o == 'min':
                    dat.subtract_min()
                    mn = min(np.min(y) for x, y in m.values())
                    m = {k: (x, y-mn) for k, (x, y) in m.items()}
                elif o == 'norm':
                    mx = max(np.max(y) for x, y in m.values())
                    if mx > 0:
                        dat.normalize_data(3)
                        m = {k: (x, y*3/mx) for k, (x, y) in m.items()}
                elif o == 'filter':
                    dat.filter(lambda y, p: y**2+p, 1)
                    m = {k: (x, y**2+1) for k, (x, y) in m.items()}
                elif o == 'copy':
                    dat = dat.copy()
                dc.normal_form(c, dat)
                dc.agree(c, dat, m, msg='after %s' % o, tol=1e-8)
    # malformed input
    good = A([0.0, 1.0])
    bad = {'None': None, 'int': 3, 'list value': {'PP': [[0, 1], [2, 3]]}, 'key not str': {1: good}, '1-d': {'PP': np.array([1.0, 2.0])},
           '3-d': {'PP': np.zeros((2, 2, 2))}, 'object dtype': {'PP': np.array([[0, 1], [2, 3]], dtype=object)}, 'string': 'PP', 'empty 0-d': {'PP': np.array(1.0)},
           'one row': {'PP': np.zeros((1, 3))}, 'second bad': {'PP': good, 'SS': [1, 2]}, 'tuple key': {('PP',): good}}
    for n, d in bad.items():
        with R.case('malformed input raises ValueError', n) as c:
            c.raises(ValueError, lambda: DataContainer(d, 'radians'), n)
    for u in ('rad', 'deg', '', 'radian', 'Degree'):
        with R.case('unknown unit raises ValueError', u) as c:
            c.raises(ValueError, lambda: DataContainer({'PP': good}, u), u)


if __name__ == '__main__':
    K.main('C12', run)
