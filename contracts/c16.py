"""fDataContainer: scaling, shifting, normalizing and reporting, for any number of
combinations, any M and any complex coefficients, over a general history."""
from pyvc import terms as TM
from pyvc.terms import T, ZERO, ONE
from pyvc.core import Unsupported
from pyvc.values import *
from pyvc.loops import extreme, extreme_index
from .cont import *

F = D+'fDataContainer'


def fdata(I, K, M, dtype='complex'):
    return construct(I, 'fDataContainer', keyed('pc', K, lambda k: mkarr((2*T.const(M)+1,), lambda i: T.atom(('c', 'd', k, T.const(i[0])-M)), dtype)), M=M)


def prove(p):
    K, j = TM.var('K', 'i'), TM.var('j', 'i')
    s0, a0 = TM.var('s0'), TM.var('a0')
    DEG = TM.PI/180

    def check(I, c, M, fac, scale, phase, what):
        """every coefficient is fac(m)*d; reports are scale and phase"""
        keys = method(I, c, 'get_keys')
        p.eq(what+': number of combinations', length(I, keys), K)
        kj = I.getitem(keys, j)
        want = lambda i: T.atom(('c', 'd', j, T.const(i[0])-M))*fac(T.const(i[0])-M)
        n = (2*T.const(M)+1,)
        p.arr_eq(what+': coefficients', method(I, c, 'get_pc', kj), n, want)
        p.arr_eq(what+': coefficients (get_values)', I.getitem(method(I, c, 'get_values'), j), n, want)
        it = I.getitem(method(I, c, 'get_items'), j)
        p.true(what+': key of get_items', I.equal(I.getitem(it, 0), kj) is True)
        p.arr_eq(what+': coefficients (get_items)', I.getitem(it, 1), n, want)
        p.eq(what+': reported scale', method(I, c, 'get_scale'), scale)
        p.eq(what+': reported phase shift', method(I, c, 'get_phase_shift', 'radians'), phase)
        p.eq(what+': reported phase shift in degrees', method(I, c, 'get_phase_shift', 'Degrees'), phase/DEG)
        p.eq(what+': M', method(I, c, 'get_M'), M)

    def setup(I, M):
        for c in (('ge', T.const(M)), ('ge', j), ('gt', K-j), ('gt', s0)):
            I.ctx.assume(c)
        I.ctx.assume(('gt', K))
        return fdata(I, K, M)

    def mags(I, M, fac):
        k, m = TM.fresh('k'), TM.fresh('m')
        mag = lambda kk: extreme('max', m, 2*T.const(M)+1, stubs.absv(I, T.atom(("c", "d", kk, m-M))*fac(m-M)))
        return extreme('max', k, K, mag(k)), extreme_index('max', k, K, mag(k), 'first'), mag(j)

    for M in (TM.var("M", "i"), 16):
        def build(I, M=M):
            c = setup(I, M)
            check(I, c, M, lambda m: ONE, 1, 0, 'new')
        p.verify(F, build, 'construction, M = %s' % M)

        def hist(I, M=M):
            c = setup(I, M)
            f, a, a2 = TM.var('f'), TM.var('a'), TM.var('a2')
            I.ctx.assume(('ge', f))
            method(I, c, 'scale_fdata', s0)
            check(I, c, M, lambda m: s0, s0, 0, 'scaled')
            method(I, c, 'phase_shift_fdata', a0, 'radians')
            check(I, c, M, lambda m: s0*TM.E(m*a0), s0, a0, 'shifted')
            method(I, c, 'scale_fdata', f)
            check(I, c, M, lambda m: f*s0*TM.E(m*a0), f*s0, a0, 'scaled again')
            method(I, c, 'phase_shift_fdata', a, 'DEGREES')
            check(I, c, M, lambda m: f*s0*TM.E(m*(a0+a*DEG)), f*s0, a0+a*DEG, 'shifted by degrees')
            method(I, c, 'phase_shift_fdata', a2, 'radians')
            check(I, c, M, lambda m: f*s0*TM.E(m*(a0+a2+a*DEG)), f*s0, a0+a2+a*DEG, 'shifted again')
        p.verify(F, hist, 'scale, shift, scale, shift in degrees, shift; M = %s' % M)

        def norm(I, M=M):
            c = setup(I, M)
            des = TM.var('desired')
            method(I, c, 'scale_fdata', s0)
            fac = lambda m: s0
            mx, idx, pc = mags(I, M, fac)
            I.ctx.assume(('gt', mx))
            I.ctx.assume(('ge', des))
            rep = method(I, c, 'get_maxval')
            p.eq('largest magnitude', I.getitem(rep, 1), mx)
            kk = I.getitem(rep, 0)
            p.true('a combination attaining it', isinstance(kk, SStr) and kk == I.getitem(method(I, c, 'get_keys'), idx), repr(kk))
            kj = I.getitem(method(I, c, 'get_keys'), j)
            p.eq('largest magnitude of a combination', method(I, c, 'get_pc_maxval', kj), pc)
            method(I, c, 'normalize_fdata', des)
            check(I, c, M, lambda m: s0*des/mx, s0*des/mx, 0, 'normalized')
        if M != 16:
            p.verify(F, norm, 'normalize and report, M = %s' % M)

    def full(I):
        M = TM.var('M', 'i')
        c = setup(I, M)
        method(I, c, 'phase_shift_fdata', 360, 'degrees')
        check(I, c, M, lambda m: ONE, 1, 2*TM.PI, 'a full turn is the identity')
    p.verify(F, full, 'full turn')

    def bad(I):
        M = TM.var('M', 'i')
        c = setup(I, M)
        s = p.snap(c)
        x = TM.var('x')
        I.ctx.assume(('gt', -x))
        p.expect_raise(ValueError, lambda: method(I, c, 'scale_fdata', x), 'a negative scale is refused')
        p.expect_raise(ValueError, lambda: method(I, c, 'phase_shift_fdata', x, 'turns'), 'an unknown unit is refused')
        p.expect_raise(ValueError, lambda: method(I, c, 'get_phase_shift', 'turns'), 'an unknown unit is refused (report)')
        p.unchanged('container', s)
    p.verify(F, bad, 'refusals')
