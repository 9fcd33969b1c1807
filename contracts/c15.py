"""Normal-incidence data completed by a rotation by 90 degrees: for any numbers of
points, angles and values, every admissible and every kind of inadmissible set of
combinations, several spellings of the keys."""
import itertools
from pyvc import terms as TM
from pyvc.terms import T, ZERO, ONE
from pyvc.values import *
from .cont import *

C = D+'DataContainer'
ALL = ['PP', 'PS', 'SP', 'SS']


def prove(p):
    def arr(k, dtype='float'):
        return table(ALL.index(k), dtype=dtype)

    def X(k, f=ONE, add=ZERO):
        return lambda _, i: f*xin(ALL.index(k), i)+add

    def Y(k):
        return lambda _, i: yin(ALL.index(k), i)

    def form(k, f=ONE, add=ZERO):
        return normal_form(npts(ALL.index(k)), lambda i: X(k, f, add)(0, i), lambda i: Y(k)(0, i))

    def report(I, c, k, fm, what):
        check_dc(p, I, c, ZERO+4, None, fm, what, key=k)

    for par, cr in itertools.product(('PP', 'SS'), ('PS', 'SP')):
        for units, f, sp, dt in (('radians', ONE, lambda k: k, 'float'), ('degrees', DEG, lambda k: k.lower()+'_1', 'int'), ('radians', ONE, lambda k: k[0]+k[1].lower(), 'float')):
            for order in ((par, cr), (cr, par)):
                def normal(I, par=par, cr=cr, units=units, f=f, sp=sp, dt=dt, order=order):
                    src = PDict({sp(k): arr(k, dt) for k in order})
                    b = p.snap(src)
                    c = construct(I, 'DataContainer', src, units, normal_to_oblique=True)
                    keys = I.iterate(method(I, c, 'get_keys'))
                    p.true('combinations', sorted(keys) == ALL, repr(keys))
                    for k in ALL:
                        have = par if k[0] == k[1] else cr
                        fm = form(k, f) if k == have else form(have, f, TM.PI/2)
                        report(I, c, k, fm, k)
                    p.unchanged('the dictionary given', b)
                p.verify(C, normal, '%s, %s -> all four, %s' % (sp(order[0]), sp(order[1]), units))

    for units, f, sp in (('radians', ONE, lambda k: k), ('degrees', DEG, lambda k: k.lower()+'x')):
        def oblique(I, units=units, f=f, sp=sp):
            c = construct(I, 'DataContainer', PDict({sp(k): arr(k) for k in ('SP', 'PP', 'SS', 'PS')}), units, normal_to_oblique=True)
            p.true('combinations', sorted(I.iterate(method(I, c, 'get_keys'))) == ALL)
            for k in ALL:
                report(I, c, k, form(k, f), k)
        p.verify(C, oblique, 'all four given as %s, %s' % (sp('PP'), units))

    for r in range(1, 5):
        for ks in itertools.combinations(ALL+['PQ'], r):
            ks = list(ks)
            if set(ks) == set(ALL) or len(ks) == 2 and len([k for k in ks if k in ('PP', 'SS')]) == 1 and 'PQ' not in ks:
                continue

            def bad(I, ks=ks):
                src = PDict({k: table(i) for i, k in enumerate(ks)})
                p.expect_raise(ValueError, lambda: construct(I, 'DataContainer', src, 'radians', normal_to_oblique=True), 'ValueError')
            p.verify(C, bad, 'refused: %s' % ','.join(ks))
