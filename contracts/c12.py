"""DataContainer: the normal form after construction and after every operation, for any
number of combinations, any numbers of points and any angles and values.

The normal form of points (x_i, y_i), i < n, is stated with the definitions of
pyvc/order.py: angles x_i mod 2*pi, of equal ones the first, sorted.  That this means
increasing, in [0, 2*pi) and with every value still at its angle is a lemma here."""
from pyvc import terms as TM
from pyvc.terms import T, ZERO, ONE, rmod
from pyvc.core import Unsupported
from pyvc.values import *
from pyvc import order
from .cont import *

C = D+'DataContainer'
K, j = TM.var('K', 'i'), TM.var('j', 'i')


def start(I):
    for c in (('ge', j), ('gt', K-j), ('gt', K)):
        I.ctx.assume(c)


def prove(p):
    p.assume_note('sorted(key=...) is a stable sort; set membership is equality; machine arithmetic is treated as real arithmetic (angles that differ only by rounding count as different)')
    for units, f in (('radians', ONE), ('degrees', DEG)):
        for dt in ('float', 'int'):
            def new(I, units=units, f=f, dt=dt):
                start(I)
                src = keyed('pc', K, lambda k: table(k, dtype=dt))
                b = p.snap(src)
                c = construct(I, 'DataContainer', src, units)
                form = nf(j, lambda k, i: f*xin(k, i), yin)
                check_dc(p, I, c, K, j, form, 'new')
                p.unchanged('the dictionary given', b)
                d = method(I, c, 'copy')
                check_dc(p, I, d, K, j, form, 'copy')
            p.verify(C, new, 'construction from %s, %s' % (units, dt))

    def meaning(I):
        """the definitions of nth, perm and exists, instantiated at two positions"""
        start(I)
        n, X, Y = nf(j, xin, yin)
        a, i = TM.var('a', 'i'), TM.var('i', 'i')
        for c in (('ge', a), ('ge', n-1-a)):
            I.ctx.assume(c)
        x1, y1 = X(a), Y(a)
        p.true('angle >= 0', ('ge', x1))
        p.true('angle < 2*pi', ('gt', 2*TM.PI-x1))
        # pairing: both coordinates are taken at the same input point
        q1 = TM.single_atom(y1)[3]
        p.eq('value at its angle', x1, rmod(xin(j, q1), 2*TM.PI))
        pa = TM.single_atom(q1)
        p.true('the point is one of the input', pa[1] == 'nth' and pa[2] == npts(j))
        p.true('the point is in range', I.ctx.entails(('ge', q1)) and I.ctx.entails(('ge', npts(j)-1-q1)))
        # the kept points are those with no earlier point at the same angle
        z = TM.fresh('z')
        want, = order.close(TM.single_atom(z), TM.cnorm(('not', order.exists_lt(z, rmod(xin(j, z), 2*TM.PI)))))
        p.true('first of equal angles is kept', pa[3] == want)
        # order: perm sorts by the angle, is injective; kept points have no earlier equal
        b = a+1
        I.ctx.assume(('ge', n-1-b))
        x2, q2 = X(b), TM.single_atom(Y(b))[3]
        key = TM.single_atom(pa[4])
        p.true('sorted by the angle', key[1] == 'perm' and key[2] == n)
        e = lambda q: rmod(xin(j, q), 2*TM.PI)
        I.ctx.assume(('ge', x2-x1))                              # definition of perm: key(perm(a)) <= key(perm(a+1))
        I.ctx.assume(('not', ('eq', q1-q2)))                     # nth and perm are injective
        I.ctx.assume(('or', ('not', ('gt', q2-q1)), ('not', ('eq', e(q1)-e(q2)))))   # definition of exists at q2
        I.ctx.assume(('or', ('not', ('gt', q1-q2)), ('not', ('eq', e(q1)-e(q2)))))   # and at q1
        p.true('angles strictly increase', ('gt', x2-x1))
    p.verify(C, meaning, 'meaning of the normal form', lemma=True)

    def hist(I):
        """operations on a container in normal form"""
        start(I)
        a, b, s = TM.var('a'), TM.var('b'), TM.var('s')
        I.ctx.assume(('gt', s))
        c = datacont(I, K, ang)
        check_dc(p, I, c, K, j, (npts(j), lambda i: ang(j, i), lambda i: yin(j, i)), 'normal input is kept')
        method(I, c, 'phase_shift_data', a, 'radians')
        check_dc(p, I, c, K, j, nf(j, lambda k, i: ang(k, i)+a, yin), 'shifted', phase=a)
        method(I, c, 'scale_data', s)
        sy = lambda k, i: s*yin(k, i)
        form = nf(j, lambda k, i: ang(k, i)+a, sy)
        check_dc(p, I, c, K, j, form, 'scaled', phase=a, scale=s)
        d = method(I, c, 'copy')
        method(I, c, 'phase_shift_data', b, 'DEGREES')
        check_dc(p, I, c, K, j, nf(j, lambda k, i: ang(k, i)+a+b*DEG, sy), 'shifted again', phase=a+b*DEG, scale=s)
        check_dc(p, I, d, K, j, form, 'copy', phase=a, scale=s)
        method(I, c, 'phase_shift_data', -a-b*DEG, 'radians')
        check_dc(p, I, c, K, j, (npts(j), lambda i: ang(j, i), lambda i: s*yin(j, i)), 'shifted back', phase=ZERO, scale=s)
    p.verify(C, hist, 'operations keep the normal form')

    def gen(I):
        """the same from any input"""
        start(I)
        a = TM.var('a')
        c = datacont(I, K)
        method(I, c, 'phase_shift_data', a, 'radians')
        n, X, Y = nf(j, lambda k, i: xin(k, i), yin)
        check_dc(p, I, c, K, j, nf(j, lambda k, i: X(i)+a, lambda k, i: Y(i), lambda k: n), 'shifted', phase=a)
    p.verify(C, gen, 'shift of any container')

    A = lambda shape, dt='float': mkarr(shape, lambda i: T.atom(('r', 'v')+tuple(T.const(z) for z in i)), dt)
    n = npts(0)

    def bad(name, make, units='radians'):
        def f(I):
            p.expect_raise(ValueError, lambda: construct(I, 'DataContainer', make(I), units), 'ValueError')
        p.verify(C, f, 'refused: '+name)
    bad('key not a string', lambda I: PDict({1: A((2, n))}))
    bad('value a list', lambda I: PDict({'PP': PList([1, 2])}))
    bad('value a number', lambda I: PDict({'PP': 1.5}))
    bad('one-dimensional value', lambda I: PDict({'PP': A((n,))}))
    bad('three-dimensional value', lambda I: PDict({'PP': A((2, n, 2))}))
    bad('one row', lambda I: PDict({'PP': A((1, n))}))
    bad('object array', lambda I: PDict({'PP': A((2, n), 'object')}))
    bad('not a mapping', lambda I: 3)
    bad('unknown units', lambda I: PDict({'PP': A((2, n))}), 'turns')
    bad('second combination malformed', lambda I: PDict({'PP': A((2, n)), 'SS': A((n,))}))
