"""fform_to_form: the Fourier series of every entry, for any M and any combinations;
and the lemma that it inverts form_to_fform (C01) on formulas of degree <= min(M, 8).

The entries are arbitrary sympy expressions, modelled by arbitrary complex values."""
from pyvc import terms as TM
from pyvc.terms import T, ZERO, ONE
from pyvc.core import Unsupported
from pyvc.values import *
from .cont import *
from . import c01

PHI = TM.var('phi')


def fform(I, K, M, name='F'):
    return construct(I, 'fFormContainer', keyed('pc', K, lambda k: mkarr((2*T.const(M)+1,), lambda i: T.atom(('c', name, k, T.const(i[0])-M)))), M=M)


def series(f, M):
    x = TM.fresh('m')
    return TM.Sum(x, -T.const(M), T.const(M)+1, f(x)*TM.E(x*PHI))


def prove(p):
    def one(M):
        def body(I):
            I.ctx.assume(('ge', T.const(M)))
            K, j = TM.var('K', 'i'), TM.var('j', 'i')
            I.ctx.assume(('ge', j))
            I.ctx.assume(('gt', K-j))
            c = fform(I, K, M)
            before = p.snap(c)
            r = p.run(D+'fform_to_form', [c])
            p.unchanged('Fourier formula container', before)
            keys, k0 = method(I, r, 'get_keys'), method(I, c, 'get_keys')
            p.eq('number of combinations', length(I, keys), K)
            kj = I.getitem(k0, j)
            p.true('combinations in the same order', I.equal(I.getitem(keys, j), kj) is True)
            e = method(I, r, 'get_pc', kj)
            p.eq('the formula is the Fourier series', e, series(lambda m: T.atom(('c', 'F', j, m)), M))
        p.verify(D+'fform_to_form', body, 'M = %s' % M)
    one(TM.var('M', 'i'))
    one(16)
    one(3)

    def lemma(I):
        for a, b in c01.CODES:
            s = ZERO
            for m in range(-(a+b), a+b+1):
                s = s+c01.exact(a, b, m)*TM.E(PHI*m)
            p.eq('cos**%d*sin**%d is the Fourier series of its coefficients up to degree %d' % (a, b, a+b), s, TM.cos(PHI)**a*TM.sin(PHI)**b)
        for a, b in c01.CODES:
            p.true('no coefficient beyond the degree %d,%d' % (a, b), all(not c01.exact(a, b, m).m for m in range(a+b+1, 20)) and all(not c01.exact(a, b, -m).m for m in range(a+b+1, 20)))
    p.verify('lemma', lemma, 'conversion there and back', lemma=True)
