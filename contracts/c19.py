"""Data to Fourier data: the discrete Fourier transform, for any number of combinations,
points and frequencies, of the interpolated data."""
from pyvc import terms as TM
from pyvc.terms import T, ZERO, ONE
from pyvc.core import Unsupported
from pyvc.values import *
from pyvc.stubs import Meth, TAB
from .cont import *

K, j, Mv = TM.var('K', 'i'), TM.var('j', 'i'), TM.var('M', 'i')
s0 = TM.var('s0')


def np4(k):
    return 4+T.atom(('i', '+N', T.const(k)))


def interp(p, kind):
    """contract of scipy's interp1d: a function of the data and the position"""
    def f(I, a, k):
        k = dict(k)
        kd = k.pop('kind', a[2] if len(a) > 2 else 'linear')
        fv = k.pop('fill_value', None)
        x, y = a[:2]
        if k or kd != kind or fv != 'extrapolate' or not isinstance(x, Arr) or not isinstance(y, Arr):
            p.ctx.oblige('the requested interpolation', False, 'path', repr((kd, fv, k)), concl=kd != kind and isinstance(kd, (str, int)))
            raise Unsupported('interpolation')
        n = x.shape[0]
        x, y = x.copy(), y.copy()

        def call(I, a, kw):
            z = a[0]
            if not isinstance(z, Arr) or z.ndim != 1:
                raise Unsupported('interpolation at %r' % (z,))
            return mkarr(z.shape, lambda i: value(x, y, z.get(i)), 'float')
        return Meth('interp1d', call)
    return f


def value(x, y, z):
    """the interpolant of the points at z: an uninterpreted function of the data and z"""
    q = TM.fresh('q')
    qa = TM.single_atom(q)
    b = T.atom(('b', 98))
    sub = {qa: b}
    return T.atom(('r', 'fn:interp', vsub(x.get((q,)), sub), vsub(y.get((q,)), sub), T.const(x.shape[0]), T.const(z)))


def prove(p):
    p.assume_note('scipy interp1d(x, y, kind, fill_value="extrapolate") is a function of the data and of the position, equal to the data at the data points')
    p.assume_note('single precision storage of the coefficients is treated as exact')

    def start(I, M):
        for c in (('ge', j), ('gt', K-j), ('gt', K), ('ge', T.const(M)), ('ge', s0)):
            I.ctx.assume(c)

    def orig(M, kind, default):
        def body(I):
            start(I, M)
            TAB['scipy.interpolate.interp1d'].fn = interp(p, kind)
            c = datacont(I, K, ang, n=np4)
            method(I, c, 'scale_data', s0)
            b = p.snap(c)
            kw = {} if default else {'interp_kind': kind, 'M': M}
            f = p.run(D+'dat_to_fdat', [c], kw)
            p.unchanged('data', b)
            X = mkarr((np4(j),), lambda i: ang(j, i[0]))
            Y = mkarr((np4(j),), lambda i: s0*yin(j, i[0]))
            N = np4(j)
            q = TM.fresh('q')
            want = lambda i: TM.Sum(q, ZERO, N, value(X, Y, 2*TM.PI*q/N)*TM.E(-(T.const(i[0])-M)*2*TM.PI*q/N))/N
            kj = I.getitem(method(I, f, 'get_keys'), j)
            p.true('class', isinstance(f, Inst) and f.cls.name == 'fDataContainer')
            p.true('combination names', kj == I.getitem(method(I, c, 'get_keys'), j))
            p.eq('number of combinations', length(I, method(I, f, 'get_keys')), K)
            p.eq('M', method(I, f, 'get_M'), M)
            p.arr_eq('coefficients', method(I, f, 'get_pc', kj), (2*T.const(M)+1,), want)
            p.eq('scale', method(I, f, 'get_scale'), 1)
            p.eq('phase shift', method(I, f, 'get_phase_shift', 'radians'), 0)
        return body
    for M, kind, default in ((Mv, 'cubic', False), (Mv, 'nearest', False), (Mv, 3, False), (16, 'cubic', True), (2, 'linear', False)):
        p.verify(D+'dat_to_fdat', orig(M, kind, default), 'M = %s, %s%s' % (M, kind, ', defaults' if default else ''))

    def grid(I):
        """data already on the uniform grid of N points are used as they are: the
        coefficients are the discrete Fourier transform of the data themselves"""
        start(I, Mv)
        TAB['scipy.interpolate.interp1d'].fn = interp(p, 'cubic')
        N = np4(j)
        gx = lambda k, i: 2*TM.PI*i/np4(k)
        c = datacont(I, K, gx, n=np4)
        f = p.run(D+'dat_to_fdat', [c], {'M': Mv})
        kj = I.getitem(method(I, f, 'get_keys'), j)
        a = method(I, f, 'get_pc', kj)
        q = TM.fresh('q')
        seen = []

        def on(at):
            """interp1d at a data point is the value there"""
            if at[1] == 'fn:interp':
                seen.append(at)
                z = at[5]
                X, Y, n = at[2], at[3], at[4]
                if not (X == 2*TM.PI*T.atom(('b', 98))/N and n == N):
                    return None
                for b in z.atoms():
                    if 2*TM.PI*T.atom(b)/N == z:
                        return vsub(Y, {('b', 98): T.atom(b)})
            return None
        m = TM.fresh('m')
        v = num(a.get((m,))).subst(on)
        p.true('the data are interpolated', bool(seen))
        p.eq('coefficients', v, TM.Sum(q, ZERO, N, yin(j, q)*TM.E(-(m-Mv)*2*TM.PI*q/N))/N)
    p.verify(D+'dat_to_fdat', grid, 'data on the uniform grid')

    def ortho(I):
        """recovery of a series with frequencies up to M from N > 2M points"""
        th, n, d, N, k = TM.var('th'), TM.var('n', 'i'), TM.var('d', 'i'), TM.var('N', 'i'), TM.var('k', 'i')
        S = TM.var('S', 'c')                         # sum of E(q*th) over q < n, with (E(th)-1)*S = E(n*th)-1
        p.eq('geometric sum, n = 0', (TM.E(th)-1)*0, TM.E(th*0)-1)
        p.eq('geometric sum, step', (TM.E(n*th)-1)+(TM.E(th)-1)*TM.E(n*th), TM.E((n+1)*th)-1)
        p.eq('full turns', TM.E(2*TM.PI*d/N*N), ONE)
        p.eq('N equal terms', TM.Sum(n, ZERO, N, TM.E(2*TM.PI*0*n/N)), N)
        # E(2*pi*d/N) = 1 only if N divides d
        for z in (('gt', d), ('gt', N-d)):
            I.ctx.assume(z)
        if I.decide(('gt', k)):
            I.ctx.assume(('ge', (k-1)*N))            # product of nonnegative numbers
        else:
            I.ctx.assume(('ge', (-k)*N))
        p.true('N does not divide d for 0 < d < N', ('not', ('eq', d-k*N)))
        # the coefficient of the data sum_m c_m E(m x) at frequency f is then
        # sum_m c_m (1/N) sum_q E(2*pi*(m-f)*q/N) = c_f, as |m-f| <= 2*M < N
    p.verify('lemma', ortho, 'recovery of band-limited data', lemma=True)
