"""DataContainer: scale, offset, shift, normalize, filter and reports act by exactly the
requested amounts, for any number of combinations and points, over a general history."""
from pyvc import terms as TM
from pyvc.terms import T, ZERO, ONE
from pyvc.core import Unsupported
from pyvc.values import *
from pyvc.loops import extreme, extreme_index
from pyvc.stubs import Meth
from .cont import *

C = D+'DataContainer'
K, j = TM.var('K', 'i'), TM.var('j', 'i')
s0, a0, s, a = TM.var('s0'), TM.var('a0'), TM.var('s'), TM.var('a')


def start(I):
    for c in (('ge', j), ('gt', K-j), ('gt', K)):
        I.ctx.assume(c)


def prove(p):
    p.assume_note('containers start from data in normal form (C12 shows that construction gives that)')
    SH = lambda k, i: ang(k, i)+a0

    def setup(I):
        """a container that has been shifted and scaled before"""
        start(I)
        I.ctx.assume(('ge', s0))
        c = datacont(I, K, ang)
        method(I, c, 'phase_shift_data', a0, 'radians')
        method(I, c, 'scale_data', s0)
        return c
    Y0 = lambda k, i: s0*yin(k, i)

    def ext(kind, Y, X=SH):
        """extreme value over everything, the first combination attaining it, and the
        extreme of combination j"""
        k, i = TM.fresh('k'), TM.fresh('i')
        f = lambda kk: extreme(kind, i, npts(kk), nf(kk, X, Y)[2](i))
        return extreme(kind, k, K, f(k)), extreme_index(kind, k, K, f(k), 'first'), f(j)

    def reports(I, c, Y, what):
        for kind, n in (('max', 'get_maxval'), ('min', 'get_minval')):
            m, idx, pc = ext(kind, Y)
            r = method(I, c, n)
            p.eq('%s: %s value' % (what, kind), I.getitem(r, 1), m)
            kk = I.getitem(r, 0)
            p.true('%s: combination attaining the %s' % (what, kind), isinstance(kk, SStr) and kk == I.getitem(method(I, c, 'get_keys'), idx), repr(kk))
            kj = I.getitem(method(I, c, 'get_keys'), j)
            p.eq('%s: %s of a combination' % (what, kind), method(I, c, 'get_pc_%sval' % kind, kj), pc)

    def hist(I):
        c = setup(I)
        I.ctx.assume(('ge', s))
        check_dc(p, I, c, K, j, nf(j, SH, Y0), 'shifted and scaled', scale=s0, phase=a0)
        reports(I, c, Y0, 'reports')
        method(I, c, 'scale_data', s)
        Y1 = lambda k, i: s*s0*yin(k, i)
        check_dc(p, I, c, K, j, nf(j, SH, Y1), 'scaled', scale=s*s0, phase=a0)
        m = ext('min', Y1)[0]
        method(I, c, 'subtract_min')
        Y2 = lambda k, i: s*s0*yin(k, i)-m
        check_dc(p, I, c, K, j, nf(j, SH, Y2), 'minimum subtracted', scale=s*s0, phase=a0, offset=-m)
        method(I, c, 'phase_shift_data', a, 'Degrees')
        X2 = lambda k, i: ang(k, i)+a0+a*DEG
        check_dc(p, I, c, K, j, nf(j, X2, Y2), 'shifted', scale=s*s0, phase=a0+a*DEG, offset=-m)
        d = method(I, c, 'copy')
        method(I, c, 'scale_data', 2)
        Y3 = lambda k, i: 2*(s*s0*yin(k, i)-m)
        check_dc(p, I, c, K, j, nf(j, X2, Y3), 'scaled again', scale=2*s*s0, phase=a0+a*DEG, offset=-m)
        check_dc(p, I, d, K, j, nf(j, X2, Y2), 'copy', scale=s*s0, phase=a0+a*DEG, offset=-m)
    p.verify(C, hist, 'shift, scale, scale, subtract minimum, shift in degrees, scale')

    def norm(I):
        c = setup(I)
        des = TM.var('desired')
        m = ext('max', Y0)[0]
        I.ctx.assume(('gt', m))
        I.ctx.assume(('ge', des))
        method(I, c, 'normalize_data', des)
        f = des/m
        check_dc(p, I, c, K, j, nf(j, SH, lambda k, i: f*s0*yin(k, i)), 'normalized', scale=s0*f, phase=a0)
    p.verify(C, norm, 'normalize')

    def norm1(I):
        c = setup(I)
        m = ext('max', Y0)[0]
        I.ctx.assume(('gt', m))
        method(I, c, 'normalize_data')
        check_dc(p, I, c, K, j, nf(j, SH, lambda k, i: s0*yin(k, i)/m), 'normalized', scale=s0/m, phase=a0)
    p.verify(C, norm1, 'normalize to 1')

    def meaning(I):
        """subtracting the minimum makes it 0; normalizing makes the maximum the wanted one"""
        m, M, y, des = TM.var('m'), TM.var('M'), TM.var('y'), TM.var('desired')
        I.ctx.assume(('ge', y-m))
        I.ctx.assume(('ge', M-y))
        I.ctx.assume(('gt', M))
        I.ctx.assume(('ge', des))
        p.true('values minus their minimum are not negative', ('ge', y-m))
        r = TM.var('desired/M')
        I.ctx.assume(('eq', r*M-des))
        I.ctx.assume(('ge', r))
        p.true('scaled values do not exceed the wanted maximum', ('ge', des-r*y))
        p.true('the maximum becomes the wanted one', ('eq', r*M-des))
    p.verify(C, meaning, 'meaning of minimum subtraction and normalization', lemma=True)

    def filt(I):
        c = setup(I)
        u, v = TM.var('u'), TM.var('v')
        before = I.getitem(method(I, c, 'get_values', 'radians'), j)
        form = nf(j, SH, Y0)

        def f(I2, args, kw):
            # an arbitrary filter: any function of the y array (here of the index and
            # of the value at its position); it must be called with the y data
            y = args[0]
            if not isinstance(y, Arr) or len(args) != 2 or args[1] != u or set(kw) != {'v'} or kw['v'] != v:
                p.ctx.oblige('arguments handed to the filter', False, 'path', repr((args, kw)), concl=False)
                raise Unsupported('filter call')
            return mkarr(y.shape, lambda i: T.atom(('r', 'filtered', T.const(i[0]), num(y.get(i)))), 'float')
        method(I, c, 'filter', Meth('filter', f), u, v=v)
        n, X, Y = form
        new = (n, X, lambda i: T.atom(('r', 'filtered', T.const(i), Y(i))))
        check_dc(p, I, c, K, j, new, 'filtered', scale=s0, phase=a0)
    p.verify(C, filt, 'filter')

    def bad(I):
        c = setup(I)
        b = p.snap(c)
        x = TM.var('x')
        I.ctx.assume(('gt', -x))
        p.expect_raise(ValueError, lambda: method(I, c, 'scale_data', x), 'a negative scale is refused')
        p.expect_raise(ValueError, lambda: method(I, c, 'phase_shift_data', x, 'turns'), 'an unknown unit is refused')
        p.unchanged('container', b)
    p.verify(C, bad, 'refusals')
