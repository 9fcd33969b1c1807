"""C05: the whole chain uncontracted -> contracted on the real code (minutes; run
by the driver only when the proof is not complete, or in the thorough tier) and
the cheap pieces."""
import common as K, gen as G
import numpy as np, sympy as sp, os, sys, multiprocessing as mp, itertools, traceback, pickle


def coeffs(theta, eee, qee, M):
    N = 2*max(M, 8)+3
    ph = 2*np.pi*np.arange(N)/N
    I = [G.intensities(theta, p+np.pi, eee, None, qee) for p in ph]
    n = np.arange(-M, M+1)
    return {k: np.array([np.sum(np.array([i[k] for i in I])*np.exp(-1j*m*ph))/N for m in n]) for k in ('PP', 'PS', 'SP', 'SS')}


def chis(seed, cplx):
    rng = np.random.default_rng(seed)
    e, q = rng.normal(size=(3,)*3), rng.normal(size=(3,)*4)
    if cplx:
        e, q = e+1j*rng.normal(size=e.shape), q+1j*rng.normal(size=q.shape)
    return e, q


class Lazy:
    """tensor product that is contracted without being formed"""
    def __init__(self, fs):
        self.fs = [np.asarray(f) for f in fs]

    @property
    def shape(self):
        return sum((f.shape for f in self.fs), ())


def numeric(a):
    try:
        return a.astype(complex)
    except (TypeError, ValueError, AttributeError):
        return None


MONO = [m for d in range(5) for m in itertools.product(range(d+1), repeat=3) if sum(m) == d]
NM = len(MONO)
WHERE = {m: i for i, m in enumerate(MONO)}
THETA = [None]
FS = []


class Overflow(Exception):
    pass


class Times(dict):
    def __missing__(self, k):
        m = tuple(p+q for p, q in zip(MONO[k[0]], MONO[k[1]]))
        if m not in WHERE:
            raise Overflow('degree of the field components above 4')
        self[k] = WHERE[m]
        return self[k]


TIMES = Times()


class Poly:
    """a polynomial of degree at most 4 in Fx, Fy, Fz with complex coefficients
    (the angle theta has a number); stands for the expression in the generator"""
    __slots__ = ('v',)
    __array_priority__ = 100

    def __init__(self, v):
        self.v = v

    def __add__(self, o):
        return Poly(self.v+lift(o))
    __radd__ = __add__

    def __neg__(self):
        return Poly(-self.v)

    def __sub__(self, o):
        return Poly(self.v-lift(o))

    def __rsub__(self, o):
        return Poly(lift(o)-self.v)

    def __mul__(self, o):
        if isinstance(o, (int, float, complex, np.number)):
            return Poly(self.v*o)
        w = lift(o)
        r = np.zeros(NM, complex)
        for i in np.nonzero(self.v)[0]:
            for j in np.nonzero(w)[0]:
                r[TIMES[i, j]] += self.v[i]*w[j]
        return Poly(r)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return Poly(self.v/tonumber(o))

    def conjugate(self):
        return Poly(self.v.conj())      # the field components are real symbols

    def __eq__(self, o):
        try:
            return bool(np.array_equal(self.v, lift(o)))
        except Exception:
            return NotImplemented

    def __hash__(self):
        return hash(self.v.tobytes())

    def subs(self, *a):
        raise AttributeError('by contract')


def tonumber(x):
    if isinstance(x, (int, float, complex, np.number)):
        return complex(x)
    from shgpy import shg_symbols as S
    return complex(sp.sympify(x).subs({S.theta: THETA[0]}).evalf())


CACHE = {}


def lift(e):
    if isinstance(e, Poly):
        return e.v
    k = (type(e), e)
    if k not in CACHE:
        v = np.zeros(NM, complex)
        if isinstance(e, sp.Basic) and e.free_symbols & set(FS):
            for m, c in sp.Poly(sp.expand(e), *FS).terms():
                if m not in WHERE:
                    raise Overflow('degree of the field components above 4')
                v[WHERE[m]] += tonumber(c)
        else:
            v[WHERE[0, 0, 0]] = tonumber(e)
        CACHE[k] = v
    return CACHE[k]


def dense(a):
    a = np.asarray(a)
    r = np.zeros((a.size, NM), complex)
    for i, e in enumerate(a.ravel()):
        r[i] = lift(e)
    return r.reshape(a.shape+(NM,))


def objects(r):
    out = np.empty(int(np.prod(r.shape[:-1])), dtype=object)
    for i, v in enumerate(r.reshape(-1, NM)):
        out[i] = Poly(v)
    return out.reshape(r.shape[:-1])


def by_contract(F):
    """replace the slow helpers of the generator by their contracts (which are
    themselves evaluated on the real helpers by conv/helpers below and by C06)"""
    TP, TC, CF, SU = (getattr(F, n, None) for n in ('tensor_product', 'tensor_contract', '_convolve_ftensors', '_substitute_into_array'))
    from shgpy import shg_symbols as S
    FS[:] = [S.Fx, S.Fy, S.Fz]

    def product(*ts):
        ts = [np.asarray(t) for t in ts]
        if sum(t.size > 1 for t in ts) and np.prod([float(t.size) for t in ts]) > 200:
            return Lazy(ts)
        r = ts[0]
        for t in ts[1:]:
            r = np.multiply.outer(r, t)
        return r

    def contract(t, pairs):
        if not isinstance(t, Lazy):
            return TC(t, pairs)
        fs = [numeric(f) for f in t.fs]
        if any(f is None for f in fs):
            return TC(np.multiply.outer(t.fs[0], t.fs[1]), pairs)
        lab = list(range(len(t.shape)))
        for i, j in pairs:
            lab[j] = lab[i]
        args = []
        pos = 0
        for f in fs:
            args += [f, lab[pos:pos+f.ndim]]
            pos += f.ndim
        out = [l for l in lab if lab.count(l) == 1]
        return np.einsum(*args, out, optimize=True).astype(object)

    def convolve(a, b, M=None, dtype=object):
        M = (len(a)-1)//2 if M is None else M
        A, B = dense(a), dense(b)
        sa, sb = A.shape[1:-1], B.shape[1:-1]
        A, B = A.reshape(len(a), -1, A.shape[-1]), B.reshape(len(b), -1, B.shape[-1])
        r = np.zeros((2*M+1, A.shape[1], B.shape[1], NM), dtype=complex)
        for i in range(min(len(a), 2*M+1)):
            for j in range(min(len(b), 2*M+1)):
                if 0 <= i+j-M <= 2*M and A[i].any() and B[j].any():
                    for u in np.nonzero(A[i].any(axis=0))[0]:
                        for v in np.nonzero(B[j].any(axis=0))[0]:
                            r[i+j-M, :, :, TIMES[u, v]] += np.multiply.outer(A[i, :, u], B[j, :, v])
        return objects(r.reshape((2*M+1,)+sa+sb+(NM,)))

    def substitute(a, *subs):
        v = {}
        for s, x in subs:
            v[s] = x
        if not any(isinstance(e, Poly) for e in a.ravel()):
            return SU(a, *subs)
        out = dense(a)
        n = {s: tonumber(x) for s, x in v.items()}
        val = np.array([np.prod([n[s]**p for s, p in zip(FS, m)]) if all(s in n or not p for s, p in zip(FS, m)) else np.nan for m in MONO])
        keep = ~np.isnan(val)
        if np.any(out[..., ~keep]):
            raise ValueError('a field component is left in the saved tensor')
        r = out[..., keep] @ val[keep]
        return r.astype(object)
    for n, old, new in (('tensor_product', TP, product), ('tensor_contract', TC, contract), ('_convolve_ftensors', CF, convolve), ('_substitute_into_array', SU, substitute)):
        if old is not None:
            setattr(F, n, new)


def tonum(a, theta):
    """the saved tensors with numbers for the symbolic angle"""
    from shgpy import shg_symbols as S
    if a.dtype == object and a.size and isinstance(a.ravel()[0], np.ndarray):
        r = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            r[i] = tonum(a[i], theta)
        return r
    if numeric(a) is not None:
        return a
    cache = {}
    out = np.empty(a.size, dtype=object)
    for i, e in enumerate(a.ravel()):
        k = (e, type(e))
        if k not in cache:
            cache[k] = K.num(e, {s: theta for s in sp.sympify(e).free_symbols})
        out[i] = cache[k]
    return out.reshape(a.shape)


def worker(job, seed, scratch, q):
    try:
        from shgpy import fformgen as F
        from shgpy.core.data_handler import load_fform
        kind, M, aoi, real = job
        THETA[0] = aoi
        if not real:
            by_contract(F)
        pre = os.path.join(scratch, '%s_%d_%s' % (kind, M, real))
        out = []
        if kind == 'numeric':
            F.generate_uncontracted_fourier_transforms(aoi, pre, M=M)
        else:
            F.generate_uncontracted_fourier_transforms_symb(pre, M=M)
        th = aoi
        for pc in ('pp', 'ps', 'sp', 'ss'):
            np.save(pre+'n_'+pc, tonum(np.load(pre+'_'+pc+'.npy', allow_pickle=True), th))
        for r, (cplx, nd) in enumerate([(True, None), (True, 3), (False, None)]):
            e, qq = chis(seed+r, cplx)
            fn = pre+'_f%d' % r
            F.generate_contracted_fourier_transforms(fn, pre+'n', e, qq, M=M, ndigits=nd)
            ff = load_fform(fn)
            want = coeffs(th, e, qq, M)
            got = {k: np.array([K.num(x, {}) for x in ff.get_pc(k)]) for k in ff.get_keys()}
            out.append((job, 'complex=%s ndigits=%s theta=%s chi_dipole=%s chi_quadrupole=%s' % (cplx, nd, th, e.tolist(), qq.tolist()), ff.get_keys(), got, want, nd))
        q.put(out)
    except Exception:
        q.put(traceback.format_exc())


def helpers(R):
    from shgpy import fformgen as F
    x, y = sp.symbols('x y')
    f = getattr(F, '_substitute_into_array', None)
    if f is not None:
        with R.case('substitution in arrays', 'object array of expressions and numbers') as c:
            a = np.array([[x+y, 2*x], [3, y*sp.I]], dtype=object)
            b = f(a, (x, 5), (y, sp.Rational(1, 3)))
            c.close([[K.num(v, {}) for v in r] for r in b], [[5+1/3, 10], [3, 1j/3]], 'values')
            c.eq(a[0, 0], x+y, 'input')
    f = getattr(F, '_round_complex_tensor', None)
    if f is not None:
        with R.case('rounding', 'numbers and expressions') as c:
            a = np.array([1.23456+.98765j, -2.00049, 1.23456*x+sp.I*x*.98765, 3], dtype=object)
            b = f(a, 3)
            c.close([K.num(v, {x: 1}) for v in b], [1.235+.988j, -2.0, 1.235+.988j, 3], 'rounded')
    f = getattr(F, '_conjugate_tensor', None)
    if f is not None:
        with R.case('conjugation', 'numbers and expressions') as c:
            z = sp.Symbol('z', real=True)
            a = np.array([[1+2j, 3*sp.I*z], [z, 4]], dtype=object)
            b = f(a)
            c.close([[K.num(v, {z: 2}) for v in r] for r in b], [[1-2j, -6j], [2, 4]], 'conjugate')


def conv(R):
    """the Fourier convolution used by the generator"""
    from shgpy import fformgen as F
    f = getattr(F, '_convolve_ftensors', None)
    if f is None:
        return
    for M in (0, 1, 2, 5, 16):
        for sh1, sh2 in (((3,), (3,)), ((3, 3), (3,)), ((3,), (3, 3))):
            with R.case('convolution', 'M=%d %s %s' % (M, sh1, sh2)) as c:
                a = R.rng.normal(size=(2*M+1,)+sh1)+1j*R.rng.normal(size=(2*M+1,)+sh1)
                b = R.rng.normal(size=(2*M+1,)+sh2)
                for kw in ({}, {'M': M}):
                    r = f(a.astype(object), b.astype(object), **kw)
                    want = np.zeros((2*M+1,)+sh1+sh2, dtype=complex)
                    for n in range(-M, M+1):
                        for m in range(-M, M+1):
                            if -M <= n-m <= M:
                                want[n+M] += np.tensordot(a[m+M], b[n-m+M], axes=0)
                    c.close(r, want, 'product of the two series')


def refuse(R):
    from shgpy import fformgen as F
    x = sp.Symbol('x')
    e, q = chis(1, False)
    for n, (a, b) in {'dipole': (1, 0), 'quadrupole': (0, 1)}.items():
        with R.case('non-real parameters are refused', n) as c:
            E, Q = e.astype(object), q.astype(object)
            if a:
                E[1, 2, 0] = x
            if b:
                Q[0, 0, 1, 2] = 2*x
            c.raises(ValueError, lambda: F.generate_contracted_fourier_transforms(os.path.join(R.scratch, 'x'), os.path.join(R.scratch, 'nofile'), E, Q, M=1), n)


def run(R):
    conv(R)
    helpers(R)
    refuse(R)
    jobs = [('numeric', 8, 0.6, False), ('symb', 8, 0.9, False)]
    if R.thorough or os.environ.get('SHGPY_DEEP'):
        jobs += [('numeric', 10, 0.3, False), ('symb', 9, 0.2, False)]
    if R.thorough:
        jobs += [('numeric', 8, 0.7, True)]
    q = mp.Queue()
    ps = [mp.Process(target=worker, args=(j, R.seed*10, R.scratch, q)) for j in jobs]
    for p in ps:
        p.start()
    res = [q.get(timeout=3000) for _ in ps]
    for p in ps:
        p.join()
    for r in res:
        if isinstance(r, str):
            with R.case('generation', 'chain') as c:
                c.ok(False, r)
            continue
        for job, desc, keys, got, want, nd in r:
            with R.case('Fourier transform of the intensity', '%s %s' % (job, desc)) as c:
                c.eq(set(keys), {'PP', 'PS', 'SP', 'SS'}, 'combinations')
                for k in want:
                    if nd is None:
                        c.close(got[k], want[k], 'coefficients of '+k, 1e-7)
                    else:
                        d = np.asarray(got[k])-want[k]
                        c.ok(np.all(np.abs(d.real) <= 10**-nd) and np.all(np.abs(d.imag) <= 10**-nd), lambda: 'rounded coefficients of %s: %s, exact %s' % (k, got[k], want[k]))


if __name__ == '__main__':
    K.main('C05', run)
