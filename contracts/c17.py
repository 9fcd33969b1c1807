"""Operations on formula containers, for any number of combinations, any M and
arbitrary expressions.

Entries are arbitrary functions of phi and of two further symbols x, y (the atom
fn:...(phi, x, y); substitution acts on its arguments).  Substituting a list of
pairs, shifting, scaling, expanding and simplifying are compared with the named
change of the represented functions; free symbols with the union over all entries,
each once, ordered by name."""
from pyvc import terms as TM
from pyvc.terms import T, ZERO, ONE
from pyvc.core import Unsupported
from pyvc.values import *
from .cont import *
from . import c01

PHI = TM.var('phi')
X, Y = TM.var('x'), TM.var('y')
K, j = TM.var('K', 'i'), TM.var('j', 'i')


def F(k, m, phi=PHI, x=X, y=Y):
    return T.atom(('c', 'fn:F', T.const(k), T.const(m), T.const(phi), T.const(x), T.const(y)))


def f(k, phi=PHI, x=X, y=Y):
    return T.atom(('c', 'fn:f', T.const(k), T.const(phi), T.const(x), T.const(y)))


class FS:
    """the free symbols of one expression: arbitrarily many"""
    sym = True

    def __init__(self, *idx):
        self.idx = tuple(T.const(i) for i in idx)
        self.n = T.atom(('i', 'nfs')+self.idx)
        self.name = 'fs'

    def at(self, i):
        return T.atom(('r', 'sym:fs')+self.idx+(T.const(i),))

    def index_of(self, k):
        return None


def setup(I, M=None):
    for c in (('ge', j), ('gt', K-j), ('gt', K))+((('ge', T.const(M)),) if M is not None else ()):
        I.ctx.assume(c)
    if M is None:
        return construct(I, 'FormContainer', keyed('pc', K, lambda k: f(k)))
    return construct(I, 'fFormContainer', keyed('pc', K, lambda k: mkarr((2*T.const(M)+1,), lambda i: F(k, T.const(i[0])-M))), M=M)


def prove(p):
    def fcheck(I, c, M, want, what):
        keys = method(I, c, 'get_keys')
        p.eq(what+': number of combinations', length(I, keys), K)
        kj = I.getitem(keys, j)
        p.true(what+': combination names', isinstance(kj, SStr) and kj.seq.name == 'pc' and kj.i == j, repr(kj))
        w = lambda i: want(T.const(i[0])-M)
        n = (2*T.const(M)+1,)
        p.arr_eq(what+': entries', method(I, c, 'get_pc', kj), n, w)
        p.arr_eq(what+': entries (get_values)', I.getitem(method(I, c, 'get_values'), j), n, w)
        it = I.getitem(method(I, c, 'get_items'), j)
        p.true(what+': name (get_items)', I.equal(I.getitem(it, 0), kj) is True)
        p.arr_eq(what+': entries (get_items)', I.getitem(it, 1), n, w)
        p.eq(what+': M', method(I, c, 'get_M'), M)

    def check(I, c, want, what):
        keys = method(I, c, 'get_keys')
        p.eq(what+': number of combinations', length(I, keys), K)
        kj = I.getitem(keys, j)
        p.true(what+': combination names', isinstance(kj, SStr) and kj.seq.name == 'pc' and kj.i == j, repr(kj))
        p.eq(what+': formula', method(I, c, 'get_pc', kj), want)
        p.eq(what+': formula (get_values)', I.getitem(method(I, c, 'get_values'), j), want)
        it = I.getitem(method(I, c, 'get_items'), j)
        p.true(what+': name (get_items)', I.equal(I.getitem(it, 0), kj) is True)
        p.eq(what+': formula (get_items)', I.getitem(it, 1), want)

    s, a, q = TM.var('s'), TM.var('a'), TM.var('q', 'c')

    def pairs(*ps):
        return PList([tuple(z) for z in ps])

    def ffhist(M):
        def body(I):
            c = setup(I, M)
            fcheck(I, c, M, lambda m: F(j, m), 'new')
            sub = pairs((X, Y+1), (Y, 2*s))
            b = p.snap(sub)
            method(I, c, 'subs', sub)
            p.unchanged('list of substitutions', b)
            fcheck(I, c, M, lambda m: F(j, m, x=2*s+1, y=2*s), 'subs')
            method(I, c, 'apply_phase_shift', a)
            fcheck(I, c, M, lambda m: F(j, m, x=2*s+1, y=2*s)*TM.E(m*a), 'shift')
            method(I, c, 'apply_arbitrary_scale', s)
            fcheck(I, c, M, lambda m: s*F(j, m, x=2*s+1, y=2*s)*TM.E(m*a), 'scale')
            method(I, c, 'subs', pairs((s, q)))
            q1 = lambda m: q*F(j, m, x=2*q+1, y=2*q)*TM.E(m*a)
            fcheck(I, c, M, q1, 'subs again')
            d = method(I, c, 'copy')
            method(I, c, 'apply_phase_shift', -a)
            fcheck(I, c, M, lambda m: q*F(j, m, x=2*q+1, y=2*q), 'shift back')
            fcheck(I, d, M, q1, 'copy made before')
        p.verify(D+'fFormContainer', body, 'subs, shift, scale, subs, copy, shift; M = %s' % M)
    ffhist(TM.var('M', 'i'))
    ffhist(2)

    def hist(I):
        c = setup(I)
        check(I, c, f(j), 'new')
        method(I, c, 'subs', pairs((X, Y+1), (Y, 2*s)))
        check(I, c, f(j, PHI, 2*s+1, 2*s), 'subs')
        method(I, c, 'apply_phase_shift', a, PHI)
        check(I, c, f(j, PHI+a, 2*s+1, 2*s), 'shift')
        method(I, c, 'apply_arbitrary_scale', s)
        check(I, c, s*f(j, PHI+a, 2*s+1, 2*s), 'scale')
        method(I, c, 'expand')
        check(I, c, s*f(j, PHI+a, 2*s+1, 2*s), 'expand')
        method(I, c, 'simplify')
        check(I, c, s*f(j, PHI+a, 2*s+1, 2*s), 'simplify')
        d = method(I, c, 'copy')
        method(I, c, 'apply_phase_shift', Y, s)
        check(I, c, (s+Y)*f(j, PHI+a, 2*(s+Y)+1, 2*(s+Y)), 'shift of another variable')
        check(I, d, s*f(j, PHI+a, 2*s+1, 2*s), 'copy made before')
    p.verify(D+'FormContainer', hist, 'subs, shift, scale, expand, simplify, copy, shift')

    def fs(I, M):
        def hook(I, t):
            at = TM.single_atom(t)
            return PSet(None, FS(*at[2:4])) if at[1] == 'fn:F' else PSet(None, FS(at[2]))
        c = setup(I, M)
        I.fs_hook = hook
        before = p.snap(c)
        r = method(I, c, 'get_free_symbols')
        p.unchanged('container', before)
        k, m, t = TM.fresh('k'), TM.fresh('m'), TM.fresh('t')
        A = TM.single_atom
        if M is None:
            want = [Splice(Nested(K, A(k), [Splice(Family(FS(k).n, A(t), FS(k).at(t)))]))]
        else:
            want = [Splice(Nested(K, A(k), [Splice(Nested(2*M+1, A(m), [Splice(Family(FS(k, m-M).n, A(t), FS(k, m-M).at(t)))]))]))]
        if not isinstance(r, SymSetList):
            p.true('a list of the distinct free symbols', False, repr(r))
            return
        p.true('each free symbol of each entry, once', generators(r.raw) == generators(want), '%s | %s' % (generators(r.raw), generators(want)))
        p.true('ordered by name', r.key == 'name', repr(r.key))
    from pyvc.loops import Nested
    p.verify(D+'FormContainer.get_free_symbols', lambda I: fs(I, None))
    p.verify(D+'fFormContainer.get_free_symbols', lambda I: fs(I, TM.var('M', 'i')))

    # consistency with conversion: the m-th coefficient of f(phi+a) is exp(i m a) times that of f
    def lemma(I):
        for ca, cb in c01.CODES:
            ser = lambda ph, m: c01.exact(ca, cb, m)*TM.E(ph*m)
            tot = ZERO
            for m in range(-8, 9):
                tot = tot+c01.exact(ca, cb, m)*TM.E(a*m)*TM.E(PHI*m)
            p.eq('cos**%d*sin**%d at phi+a has the shifted coefficients' % (ca, cb), tot, TM.cos(PHI+a)**ca*TM.sin(PHI+a)**cb)
    p.verify('lemma', lemma, 'shifting before or after conversion', lemma=True)
