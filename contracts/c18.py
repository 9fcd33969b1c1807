"""Evaluation routes, for any number of combinations, any M, any number of points and
arbitrary expressions in phi and up to three parameters."""
from pyvc import terms as TM
from pyvc.terms import T, ZERO, ONE
from pyvc.core import Unsupported
from pyvc.values import *
from pyvc import stubs
from .cont import *
from . import c01

PHI = TM.var('phi')
P3 = [TM.var('x'), TM.var('y'), TM.var('z')]
V3 = [TM.var('@vx'), TM.var('@vy'), TM.var('@vz')]
EXTRA = TM.var('not_there')
K, j, Mv = TM.var('K', 'i'), TM.var('j', 'i'), TM.var('M', 'i')
Np = 1+TM.var('+N', 'i')
GET = {c: D+c+'.get_free_symbols' for c in ('FormContainer', 'fFormContainer')}


def F(k, m, *ps):
    """the m-th entry of combination k: an arbitrary function of the parameters"""
    return T.atom(('c', 'fn:F', T.const(k), T.const(m))+tuple(T.const(z) for z in ps))


def f(k, phi, *ps, kind='r'):
    return T.atom((kind, 'fn:f', T.const(k), T.const(phi))+tuple(T.const(z) for z in ps))


def val(k, m):
    """arbitrary complex data"""
    return T.atom(('c', 'v', T.const(k), T.const(m)))


def symbols(I, a, kw):
    """contract of get_free_symbols (discharged under C17): every free symbol of every
    entry, once, ordered by name.  Entries of all combinations and positions have the
    free symbols of the representative one here, which is read through the accessors."""
    vs = I.getitem(method(I, a[0], 'get_values'), j)
    es = [vs.cells.flat[i] for i in range(vs.cells.size)] if isinstance(vs, Arr) else [vs]
    s = {t for e in es for t in stubs.fs_of(num(e))}
    s = [t for t in s if TM.single_atom(t)[1] not in ('K', 'j', 'M')]
    return PList(sorted(s, key=lambda t: TM.single_atom(t)[1]))


def prove(p):
    p.assume_note('sympy lambdify(phi, e) computes e at the given number')
    CT = {q: symbols for q in GET.values()}

    def start(I, M=None):
        I.structural_keys = True
        for c in (('ge', j), ('gt', K-j), ('gt', K))+((('ge', T.const(M)),) if M is not None else ()):
            I.ctx.assume(c)

    def fform(I, M, n):
        return construct(I, 'fFormContainer', keyed('pc', K, lambda k: mkarr((2*T.const(M)+1,), lambda i: F(k, T.const(i[0])-M, *P3[:n]))), M=M)

    def values(n, order=1, extra=True):
        d = [(P3[i], V3[i]) for i in range(n)]+([(EXTRA, TM.var('@ve'))] if extra else [])
        return PDict({k: v for k, v in d[::order]})

    def names(I, c, what):
        keys = method(I, c, 'get_keys')
        p.eq(what+': number of combinations', length(I, keys), K)
        kj = I.getitem(keys, j)
        p.true(what+': combination names', isinstance(kj, SStr) and kj.seq.name == 'pc' and kj.i == j, repr(kj))
        return kj

    def cls(o, n, what):
        p.true(what+': class', isinstance(o, Inst) and o.cls.name == n, repr(o))

    # Fourier formula -> Fourier data
    def to_fdat(M, n, order):
        def body(I):
            start(I, M)
            c, sub = fform(I, M, n), values(n, order)
            b = p.snap(c, sub)
            d = p.run(D+'fform_to_fdat', [c, sub])
            p.unchanged('formula and parameters', b)
            cls(d, 'fDataContainer', 'result')
            kj = names(I, d, 'result')
            p.eq('M', method(I, d, 'get_M'), M)
            p.arr_eq('values', method(I, d, 'get_pc', kj), (2*T.const(M)+1,), lambda i: F(j, T.const(i[0])-M, *V3[:n]))
            p.eq('scale', method(I, d, 'get_scale'), 1)
            p.eq('phase shift', method(I, d, 'get_phase_shift', 'radians'), 0)
        return body
    for M in (Mv, 0, 3):
        for n in range(4):
            for order in (1, -1):
                p.verify(D+'fform_to_fdat', to_fdat(M, n, order), 'M = %s, %d parameters%s' % (M, n, '' if order == 1 else ', other order'), contracts=CT)

    # any number of parameters: the s-th parameter is the s-th symbol, P of them
    P, Q = TM.var('+P', 'i'), TM.var('+Q', 'i')
    G = lambda k, m, at=0: T.atom(('c', 'Gvalue' if at else 'G', T.const(k), T.const(m)))

    def many(qual, name, M, check, extra, args=()):
        def body(I):
            start(I, M)
            ks = KeySeq('fs', P+Q if extra else P, sym=True)
            x = TM.fresh('k')
            v = lambda s: T.atom(('r', '@v', T.const(s)))
            sub = PDict(keys=ks, fam=Family(ks.n, TM.single_atom(x), v(x)))
            if qual.endswith(':form_to_dat'):
                c = construct(I, 'FormContainer', keyed('pc', K, g))
            else:
                c = construct(I, 'fFormContainer', keyed('pc', K, lambda k: mkarr((2*T.const(M)+1,), lambda i: G(k, T.const(i[0])-M))), M=M)

            def hook(I, t, l):
                """substituting the value of every parameter, each once"""
                it = l.items if isinstance(l, PList) else []
                if len(it) != 1 or not isinstance(it[0], Splice) or it[0].cond is not True:
                    raise Unsupported('substituted list')
                fam = it[0].fam
                s = TM.fresh('s')
                a, b = vsub(fam.body, {fam.x: s})
                p.eq('every parameter is substituted', T.const(fam.n), ks.n if qual.endswith(':form_to_dat') else P)
                p.true('parameters are substituted', a == ks.at(s), repr(a))
                p.eq('a parameter is substituted by its value', b, v(s))
                return t.subst(lambda z: T.atom((z[0], 'fn:gvalue' if z[1] == 'fn:g' else 'Gvalue')+z[2:]) if z[1] in ('G', 'fn:g') else None)
            I.subs_hook = hook
            y = TM.fresh('k')
            def left(I, a, kw):
                t = num(I.getitem(method(I, a[0], 'get_values'), j))
                return PList([PHI] if TM.single_atom(t)[1] == 'fn:gvalue' else [PHI, Splice(Family(P, TM.single_atom(y), ks.at(y)))])
            I.contracts = {GET['FormContainer']: left, GET['fFormContainer']: lambda I, a, kw: PList([Splice(Family(P, TM.single_atom(y), ks.at(y)))])}
            b = p.snap(c, sub)
            d = p.run(qual, [c, sub]+list(args))
            p.unchanged('formula and parameters', b)
            check(I, d)
        p.verify(qual, body, name)

    def chk(I, d, M=Mv):
        cls(d, 'fDataContainer', 'result')
        kj = names(I, d, 'result')
        p.eq('M', method(I, d, 'get_M'), M)
        p.arr_eq('values', method(I, d, 'get_pc', kj), (2*T.const(M)+1,), lambda i: G(j, T.const(i[0])-M, 1))
    for extra in (True, False):
        many(D+'fform_to_fdat', 'any number of parameters, %s' % ('others given' if extra else 'no others given'), Mv, chk, extra)

    g = lambda k, at=0, phi=PHI: T.atom(('r', 'fn:gvalue' if at else 'fn:g', T.const(k), T.const(phi)))

    def missing(fn, make, args=()):
        def body(I):
            start(I, Mv)
            for i, n in ((0, 1), (1, 2), (0, 2), (2, 3)):
                c = make(I, n)
                sub = values(n)
                s = PDict({k: v for k, v in sub.d.items() if k != P3[i]})
                p.expect_raise(Exception, lambda: I.call(I.get(D+fn), [c, s]+list(args), {}), 'parameter %d of %d missing' % (i, n))
        return body
    p.verify(D+'fform_to_fdat', missing('fform_to_fdat', lambda I, n: fform(I, Mv, n)), 'missing parameter', contracts=CT)
    p.verify(D+'fform_to_dat', missing('fform_to_dat', lambda I, n: fform(I, Mv, n), (Np,)), 'missing parameter', contracts=CT)

    # Fourier data -> data
    def series(g, M, i):
        """the real part of the Fourier series at the i-th of Np points"""
        m = TM.fresh('m')
        s = TM.Sum(m, -T.const(M), T.const(M)+1, g(m)*TM.E(m*2*TM.PI*i/Np))
        return s.real()

    def check_grid(I, dat, what, value):
        names(I, dat, what)
        cls(dat, 'DataContainer', what)
        kj = I.getitem(method(I, dat, 'get_keys'), j)
        w = lambda i: 2*TM.PI*i[1]/Np if i[0] == 0 else value(i[1])
        p.arr_eq(what+': points', method(I, dat, 'get_pc', kj, 'radians'), (2, Np), w)
        for q in ('get_scale', 'get_offset'):
            p.eq(what+': '+q, method(I, dat, q), 1 if q == 'get_scale' else 0)
        p.eq(what+': phase shift', method(I, dat, 'get_phase_shift', 'radians'), 0)

    def to_dat(M):
        def body(I):
            start(I, M)
            c = construct(I, 'fDataContainer', keyed('pc', K, lambda k: mkarr((2*T.const(M)+1,), lambda i: val(k, T.const(i[0])-M), 'complex')), M=M)
            b = p.snap(c)
            d = p.run(D+'fdat_to_dat', [c, Np])
            p.unchanged('Fourier data', b)
            check_grid(I, d, 'result', lambda i: series(lambda m: val(j, m), M, i))
        return body
    for M in (Mv, 0, 2):
        p.verify(D+'fdat_to_dat', to_dat(M), 'M = %s' % M)

    def via(M, n):
        def body(I):
            start(I, M)
            c, sub = fform(I, M, n), values(n)
            b = p.snap(c, sub)
            d = p.run(D+'fform_to_dat', [c, sub, Np])
            p.unchanged('formula and parameters', b)
            check_grid(I, d, 'result', lambda i: series(lambda m: F(j, m, *V3[:n]), M, i))
        return body
    for M, n in ((Mv, 2), (1, 3)):
        p.verify(D+'fform_to_dat', via(M, n), 'M = %s, %d parameters' % (M, n), contracts=CT)

    many(D+'fform_to_dat', 'any number of parameters', Mv, lambda I, d: check_grid(I, d, 'result', lambda i: series(lambda m: G(j, m, 1), Mv, i)), True, (Np,))
    many(D+'form_to_dat', 'any number of parameters', Mv, lambda I, d: check_grid(I, d, 'result', lambda i: g(j, 1, 2*TM.PI*i/Np)), True, (Np,))

    # formula -> data
    def form(I, n, kind='r'):
        return construct(I, 'FormContainer', keyed('pc', K, lambda k: f(k, PHI, *P3[:n], kind=kind)))

    def form_dat(n, kind, order):
        def body(I):
            start(I)
            c, sub = form(I, n, kind), values(n, order)
            b = p.snap(c, sub)
            d = p.run(D+'form_to_dat', [c, sub, Np])
            p.unchanged('formula and parameters', b)
            check_grid(I, d, 'result', lambda i: f(j, 2*TM.PI*i/Np, *V3[:n], kind=kind).real())
        return body
    for n in range(4):
        for kind in 'rc':
            p.verify(D+'form_to_dat', form_dat(n, kind, -1 if n == 2 else 1), '%d parameters, %s formula' % (n, {'r': 'real', 'c': 'complex'}[kind]), contracts=CT)
    p.verify(D+'form_to_dat', missing('form_to_dat', form, (Np,)), 'missing parameter', contracts=CT)

    # formula -> Fourier data
    def form_fdat(M, n, default):
        def body(I):
            start(I, M)
            c, sub = form(I, n), values(n)
            b = p.snap(c, sub)
            called = []

            def convert(I, a, kw):
                """contract of form_to_fform (C01): the M Fourier coefficients of the formula"""
                called.append(1)
                a = list(a)
                fo = a[0] if a else kw['form']
                m = kw.get('M', a[1] if len(a) > 1 else 16)
                p.true('converts the given formula', fo is c)
                p.eq('converts with M', m, M)
                return fform(I, M, n)
            I.contracts = dict(CT, **{D+'form_to_fform': convert})
            d = p.run(D+'form_to_fdat', [c, sub] if default else [c, sub, M])
            p.true('one conversion', len(called) == 1)
            p.unchanged('formula and parameters', b)
            cls(d, 'fDataContainer', 'result')
            kj = names(I, d, 'result')
            p.eq('M', method(I, d, 'get_M'), M)
            p.arr_eq('values', method(I, d, 'get_pc', kj), (2*T.const(M)+1,), lambda i: F(j, T.const(i[0])-M, *V3[:n]))
        return body
    for M, n, default in ((Mv, 2, False), (Mv, 3, False), (16, 2, True)):
        p.verify(D+'form_to_fdat', form_fdat(M, n, default), 'M = %s, %d parameters%s' % (M, n, ', default M' if default else ''), contracts=CT)
    p.verify(D+'form_to_fdat', missing('form_to_fdat', form, (Mv,)), 'missing parameter', contracts=dict(CT, **{D+'form_to_fform': lambda I, a, kw: fform(I, Mv, c18n(I, a[0]))}))

    # agreement of the routes: a product of powers of cos and sin has as value the real
    # part of the series of its coefficients (with real factors; C01 gives the coefficients)
    def lemma(I):
        x, q = TM.var('x'), TM.var('q')
        for ca, cb in c01.CODES:
            tot = ZERO
            for m in range(-8, 9):
                tot = tot+q*c01.exact(ca, cb, m)*TM.E(x*m)
            p.eq('q*cos**%d*sin**%d: real part of the series' % (ca, cb), tot.real(), q*TM.cos(x)**ca*TM.sin(x)**cb)
    p.verify('lemma', lemma, 'formula -> data agrees with formula -> Fourier formula -> data', lemma=True)


def c18n(I, c):
    t = I.getitem(method(I, c, 'get_values'), j)
    return len(TM.single_atom(num(t)))-4
