import common as K, gen as G, dc
import numpy as np, os, itertools
from scipy.interpolate import interp1d


def run(R):
    from shgpy.core import data_handler as D
    import pathlib
    py, rng = R.py, R.rng
    cnt = itertools.count()

    def write(x, y, delim=',', extra=False, fmt='%r', eol='\n'):
        fn = os.path.join(R.scratch, 'd%d.csv' % next(cnt))
        with open(fn, 'w', newline='') as f:
            for a, b in zip(x, y):
                row = [fmt % float(a) if fmt != 'g' else '%g' % a, '%r' % float(b)]
                if extra:
                    row.append('17')
                f.write(delim.join(row)+eol)
        return fn

    def dft(y, m):
        j = np.arange(len(y))
        return np.sum(y*np.exp(-2j*np.pi*j*m/len(y)))/len(y)
    for i in range(100 if R.thorough else 20):
        n = py.choice([1, 2, 3, 30])
        x, y = rng.uniform(-400, 400, n), rng.normal(size=n)*py.choice([1, 1e-9, 1e8])
        if i % 4 == 0:
            x = np.repeat(x[:1], n)
        dl = py.choice([',', '\t', ';', ' '])
        with R.case('rows are preserved', 'delimiter=%r %s %s' % (dl, x.tolist(), y.tolist())) as c:
            fn = write(x, y, dl, extra=bool(i % 2), eol=py.choice(['\n', '\r\n']))
            v = D.read_csv(fn, delimiter=dl) if dl != ',' else D.read_csv(fn)
            c.eq(np.shape(v), (2, n), 'shape')
            c.eq(list(v[0]), list(x), 'first column')
            c.eq(list(v[1]), list(y), 'second column')
    allk = ['PP', 'PS', 'SP', 'SS']
    for i in range(120 if R.thorough else 24):
        units = py.choice(['degrees', 'radians'])
        nto = py.random() < .3
        keys = py.choice([['PP', 'PS'], ['SS', 'SP'], ['PS', 'SS']]) if nto else py.choice([allk, ['PP'], ['SS', 'PP', 'x']])
        N, M = py.choice([5, 12, 24]), py.choice([1, 3, 16])
        x = 2*np.pi*np.arange(N)/N
        dat, dark = {k: rng.normal(size=N)+2 for k in keys}, {k: rng.normal(size=N) for k in keys}
        u = (lambda t: np.rad2deg(t)) if units == 'degrees' else (lambda t: t)
        dunits = py.choice(['degrees', 'radians'])
        du = (lambda t: np.rad2deg(t)) if dunits == 'degrees' else (lambda t: t)
        perm = rng.permutation(N)
        fn = {k: write(u(x[perm]), dat[k][perm]) for k in keys}
        dk = list(keys)
        py.shuffle(dk)
        if nto:
            dk = keys
        fdark = {k: write(du(x), dark[k]) for k in dk}

        def complete(d):
            """values as functions of the grid angle"""
            if not nto:
                return d
            o = dict(d)
            # 90 degree rotation on the grid only if 4 | N: compare through point sets instead
            return o

        def pts(d):
            m = {k: (x, d[k]) for k in keys}
            if nto:
                other = {'PP': 'SS', 'SS': 'PP', 'PS': 'SP', 'SP': 'PS'}
                for k in allk:
                    if k not in m:
                        m[k] = ((x+np.pi/2) % (2*np.pi), d[other[k]])
            return m

        def agree(c, got, want, msg):
            c.eq(sorted(got.get_keys()), sorted(want), msg+' combinations')
            dc.agree(c, got, {k: want[k] for k in got.get_keys()}, msg=msg, tol=1e-8)
        desc = '%s oblique=%s dark %s N=%d M=%d %s %s' % (units, nto, dunits, N, M, {k: v.tolist() for k, v in dat.items()}, {k: v.tolist() for k, v in dark.items()})
        kw = {'normal_to_oblique': True} if nto else {}
        with R.case('load_data', desc) as c:
            agree(c, D.load_data(fn, units, **kw), pts(dat), 'data')
        diff = {k: dat[k]-dark[k] for k in keys}
        with R.case('dark subtraction', desc) as c:
            agree(c, D.load_data_and_dark_subtract(fn, units, fdark, dunits, **kw), pts(diff), 'difference')
        for use_dark in (False, True):
            ms = py.random() < .5
            sc = py.choice([1, 1, 2.5, 1e-3, 40])
            kind = py.choice(['cubic', 'linear'])
            with R.case('load and transform', 'dark=%s min_subtract=%s scale=%s kind=%s %s' % (use_dark, ms, sc, kind, desc)) as c:
                base = diff if use_dark else dat
                k2 = dict(kw, M=M, interp_kind=kind)
                if sc != 1:
                    k2['scale'] = sc
                if ms:
                    k2['min_subtract'] = True
                if use_dark:
                    k2.update(dark_filenames_dict=fdark, dark_angle_units=dunits)
                a, f = D.load_data_and_fourier_transform(fn, units, **k2)
                w = pts(base)
                mn = min(np.min(v[1]) for v in w.values()) if ms else 0
                w = {k: (p, sc*(q-mn)) for k, (p, q) in w.items()}
                agree(c, a, w, 'data')
                c.eq(sorted(f.get_keys()), sorted(w), 'Fourier combinations')
                c.eq(f.get_M(), M, 'M')
                for k, (p, q) in w.items():
                    o = np.argsort(p)
                    yy = interp1d(p[o], q[o], kind=kind, fill_value='extrapolate')(x)
                    s = max(np.max(np.abs(yy)), 1e-300)
                    c.close(f.get_pc(k)/s, np.array([dft(yy, m) for m in range(-M, M+1)])/s, 'Fourier coefficients of %r' % k, 2e-5)
    fn = {'PP': write([0, 1, 2], [3, 4, 5])}
    with R.case('mismatched dark files are refused', 'keys, angles') as c:
        for dark in ({'PS': fn['PP']}, {}, {'PP': fn['PP'], 'SS': fn['PP']}, {'PP': write([0, 1, 2.5], [0, 0, 0])}, {'PP': write([0, 1], [0, 0])}):
            c.raises(Exception, lambda: D.load_data_and_dark_subtract(fn, 'radians', dark, 'radians'), str(dark))
            c.raises(Exception, lambda: D.load_data_and_fourier_transform(fn, 'radians', dark, 'radians', interp_kind='linear', M=1), str(dark))
    with R.case('default number of frequencies', 'M=16') as c:
        x = 2*np.pi*np.arange(40)/40
        a, f = D.load_data_and_fourier_transform({'PP': write(x, np.cos(16*x)+2*np.sin(3*x))}, 'radians')
        want = np.zeros(33, dtype=complex)
        want[0] = want[32] = .5
        want[13], want[19] = 1j, -1j
        c.close(f.get_pc('PP'), want, 'coefficients', 1e-5)


if __name__ == '__main__':
    K.main('C27', run)
