"""Degrees and radians: a container built from degrees equals the one built from the same
angles in radians; every accessor gives in degrees exactly 180/pi times the radians."""
from pyvc import terms as TM
from pyvc.terms import T, ZERO, ONE
from pyvc.values import *
from .cont import *

K, j, M = TM.var('K', 'i'), TM.var('j', 'i'), TM.var('M', 'i')
s0, a, a2 = TM.var('s0'), TM.var('a'), TM.var('a2')
UNITS = ['radian', 'deg', '', 'turns', 'radians ', 'Degree', 'rad']


def prove(p):
    def start(I):
        for c in (('ge', j), ('gt', K-j), ('gt', K), ('ge', M), ('ge', s0)):
            I.ctx.assume(c)

    # one specification, reached from either unit: hence the two containers are equal
    for units, f in (('degrees', 1/DEG), ('radians', ONE)):
        for dt in ('float', 'int'):
            def build(I, units=units, f=f, dt=dt):
                start(I)
                X = lambda k, i: f*xin(k, i)
                c = datacont(I, K, X, yin, units, dtype=dt)
                check_dc(p, I, c, K, j, nf(j, xin, yin), 'built from '+units)
            p.verify(D+'DataContainer', build, 'built from %s (%s)' % (units, dt))
        for sp in (units, units.capitalize(), units.upper()):
            def shift(I, units=units, f=f, sp=sp):
                start(I)
                c = datacont(I, K, lambda k, i: f*ang(k, i), yin, units)
                method(I, c, 'phase_shift_data', f*a, sp)
                S1 = lambda k, i: ang(k, i)+a
                check_dc(p, I, c, K, j, nf(j, S1, yin), 'shifted', phase=a)
                method(I, c, 'scale_data', s0)
                method(I, c, 'phase_shift_data', a2, 'radians')
                S2 = lambda k, i: ang(k, i)+a+a2
                check_dc(p, I, c, K, j, nf(j, S2, lambda k, i: s0*yin(k, i)), 'shifted again', scale=s0, phase=a+a2)
                d = method(I, c, 'copy')
                check_dc(p, I, d, K, j, nf(j, S2, lambda k, i: s0*yin(k, i)), 'copy', scale=s0, phase=a+a2)
            p.verify(D+'DataContainer.phase_shift_data', shift, sp)

            def fshift(I, f=f, sp=sp):
                start(I)
                C = lambda k, i: T.atom(('c', 'coef', T.const(k), T.const(i)))
                c = construct(I, 'fDataContainer', keyed('pc', K, lambda k: mkarr((2*M+1,), lambda i: C(k, i[0]), 'complex')), M=M)
                method(I, c, 'phase_shift_fdata', f*a, sp)
                kj = I.getitem(method(I, c, 'get_keys'), j)
                p.arr_eq('coefficients', method(I, c, 'get_pc', kj), (2*M+1,), lambda i: C(j, i[0])*TM.E((i[0]-M)*a))
                for u, g in (('radians', ONE), ('Radians', ONE), ('degrees', 1/DEG), ('DEGREES', 1/DEG)):
                    p.eq('reported phase shift, '+u, method(I, c, 'get_phase_shift', u), g*a)
            p.verify(D+'fDataContainer.phase_shift_fdata', fshift, sp)

    for u, f in (('radians', ONE), ('degrees', 1/DEG)):
        for style in ('multi', 'none'):
            def table(I, u=u, f=f, style=style):
                start(I)
                c = datacont(I, K, ang)
                df = method(I, c, 'as_pandas', u, index=style)
                kj = I.getitem(method(I, c, 'get_keys'), j)
                check_frame(p, I, df, 'table', K, j, kj, npts(j), lambda i: f*ang(j, i), lambda i: yin(j, i),
                            ('POLARIZATION', 'ANGLE') if style == 'multi' else None, ['ANGLE', 'VALUE'])
            p.verify(D+'DataContainer.as_pandas', table, '%s, %s' % (u, style))

    def bad(I):
        start(I)
        c = datacont(I, K, ang)
        fc = construct(I, 'fDataContainer', keyed('pc', K, lambda k: mkarr((2*M+1,), lambda i: T.atom(('c', 'coef', T.const(k), T.const(i[0]))), 'complex')), M=M)
        kj = I.getitem(method(I, c, 'get_keys'), j)
        b = p.snap(c, fc)
        for u in UNITS:
            p.expect_raise(ValueError, lambda: datacont(I, K, ang, units=u), 'construction refuses %r' % u)
            p.expect_raise(ValueError, lambda: method(I, c, 'phase_shift_data', a, u), 'phase_shift_data refuses %r' % u)
            p.expect_raise(ValueError, lambda: method(I, c, 'get_pc', kj, u), 'get_pc refuses %r' % u)
            p.expect_raise(ValueError, lambda: method(I, c, 'get_values', u), 'get_values refuses %r' % u)
            p.expect_raise(ValueError, lambda: method(I, c, 'get_items', u), 'get_items refuses %r' % u)
            p.expect_raise(ValueError, lambda: method(I, c, 'get_phase_shift', u), 'get_phase_shift refuses %r' % u)
            p.expect_raise(ValueError, lambda: method(I, c, 'as_pandas', u), 'as_pandas refuses %r' % u)
            p.expect_raise(ValueError, lambda: method(I, fc, 'phase_shift_fdata', a, u), 'phase_shift_fdata refuses %r' % u)
            p.expect_raise(ValueError, lambda: method(I, fc, 'get_phase_shift', u), 'get_phase_shift of Fourier data refuses %r' % u)
        p.unchanged('container', b)
    p.verify(D+'DataContainer._check_angle_units', bad, 'unknown units')
