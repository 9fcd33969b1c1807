import common as K, gen as G, dc
import numpy as np, math
from scipy.interpolate import interp1d


def run(R):
    from shgpy import DataContainer, fDataContainer
    from shgpy.core.data_handler import dat_to_fdat, fdat_to_dat
    py, rng = R.py, R.rng

    def dft(y, m):
        N = len(y)
        return sum(complex(y[j])*complex(math.cos(2*math.pi*j*m/N), -math.sin(2*math.pi*j*m/N)) for j in range(N))/N
    # data on the grid: the interpolant plays no role
    for i in range(150 if R.thorough else 10):
        if i > 4 and not R.more():
            break
        M = py.choice([0, 1, 2, 5, 16, 17])
        N0 = py.choice([4, 5, 8, 24, 36])
        d = {}
        for k in G.keysets(py):
            N = N0+py.choice([0, 0, 3])
            o = rng.permutation(N)
            d[k] = np.array([2*np.pi*np.arange(N)/N, rng.normal(size=N)*py.choice([1, 1e-6, 3e5])])[:, o]
        units = py.choice(['radians', 'degrees'])
        kind = py.choice(['cubic', 'linear', 'cubic', 'nearest', 3])
        with R.case('data on the grid: discrete Fourier transform', 'M=%d kind=%s %s %s' % (M, kind, units, {k: v.tolist() for k, v in d.items()})) as c:
            dd = {k: v.copy() for k, v in d.items()}
            if units == 'degrees':
                for v in dd.values():
                    v[0] = np.rad2deg(v[0])
            dat = DataContainer(dd, units)
            f = dat_to_fdat(dat, interp_kind=kind, M=M) if kind != 'cubic' else dat_to_fdat(dat, M=M)
            c.eq(f.get_keys(), list(d), 'combinations')
            c.eq(f.get_M(), M, 'M')
            for k, v in d.items():
                y = v[1][np.argsort(v[0])]
                s = np.max(np.abs(y))
                c.close(f.get_pc(k)/s, np.array([dft(y, m) for m in range(-M, M+1)])/s, 'coefficients of %r' % k, 1e-5)
            c.eq(f.get_scale(), 1, 'scale')
    # off the grid: the named interpolant (scipy is trusted to interpolate)
    for i in range(60 if R.thorough else 6):
        M = py.choice([1, 3, 16])
        kind = py.choice(['cubic', 'linear', 'quadratic', 'previous', 'nearest', 1, 3])
        N = py.choice([9, 25])
        d = {k: np.array([np.sort(rng.uniform(0, 2*np.pi, N)), rng.normal(size=N)]) for k in G.keysets(py)}
        for v in d.values():
            if np.min(np.diff(v[0])) < .02:
                v[0] = np.linspace(.05, 6.1, N)+.05*np.sin(np.arange(N))
        with R.case('interpolated data', 'M=%d kind=%s %s' % (M, kind, {k: v.tolist() for k, v in d.items()})) as c:
            f = dat_to_fdat(DataContainer(d, 'radians'), kind, M)
            for k, v in d.items():
                y = interp1d(v[0], v[1], kind=kind, fill_value='extrapolate')(2*np.pi*np.arange(N)/N)
                s = max(1, np.max(np.abs(y)))
                c.close(f.get_pc(k)/s, np.array([dft(y, m) for m in range(-M, M+1)])/s, 'coefficients of %r' % k, 1e-5)
    # recovery of band-limited signals
    for i in range(60 if R.thorough else 8):
        M = py.choice([0, 1, 2, 5, 16])
        N = 2*M+1+py.choice([0, 1, 4, 30])
        N = max(N, 4)
        d = G.fdat_dict(rng, py, M, real_signal=True)
        with R.case('band-limited signals are recovered', 'M=%d N=%d %s' % (M, N, {k: v.tolist() for k, v in d.items()})) as c:
            f = dat_to_fdat(fdat_to_dat(fDataContainer(d, M=M), N), M=M)
            for k, v in d.items():
                s = np.max(np.abs(v))
                c.close(f.get_pc(k)/s, v/s, 'coefficients of %r' % k, 2e-5)
    # scaled / shifted containers: frequencies of the shifted signal
    with R.case('shifted data', 'x -> x+a') as c:
        N, M = 24, 3
        y = rng.normal(size=N)
        dat = DataContainer({'PP': np.array([2*np.pi*np.arange(N)/N, y])}, 'radians')
        dat.phase_shift_data(2*np.pi*5/N, 'radians')
        dat.scale_data(3)
        f = dat_to_fdat(dat, M=M).get_pc('PP')
        c.close(f, [3*dft(np.roll(y, 5), m) for m in range(-M, M+1)], 'coefficients', 1e-5)


if __name__ == '__main__':
    K.main('C19', run)
