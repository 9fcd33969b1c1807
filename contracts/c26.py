"""Containers own their data and conversions leave their inputs alone: for any number of
combinations, any M, any number of points.

`report` reads a container through every accessor and keeps detached values.  Writing to
the arrays and dictionaries a container was built from, to the arrays its accessor for one
combination returned, or to a copy, must leave the report as it was; the frame conditions
of conversions, merges, formula generation and fits are stated on the heap of the verifier
(`snap`/`unchanged`: every object reachable from the arguments)."""
from pyvc import terms as TM
from pyvc.terms import T, ZERO, ONE
from pyvc.core import Unsupported
from pyvc.values import *
from pyvc import native, stubs
from pyvc.stubs import Meth, Text
from . import einstein, fit, c03, c19, c23
from .cont import *

K, j, M = TM.var('K', 'i'), TM.var('j', 'i'), TM.var('M', 'i')
s0, a0, q = TM.var('s0'), TM.var('a0'), TM.var('q', 'c')
PHI, X, Y = TM.var('phi'), TM.var('x'), TM.var('y')
FG, U, FF = 'shgpy.formgen:', 'shgpy.core.utilities:', 'shgpy.fformfit:'


def C(k, m):
    return T.atom(('c', 'd', T.const(k), T.const(m)))


def Ff(k, m):
    return T.atom(('c', 'fn:F', T.const(k), T.const(m), X, Y))


def f(k):
    return T.atom(('c', 'fn:f', T.const(k), PHI, X, Y))


def freeze(I, v):
    """a detached value"""
    if isinstance(v, Arr):
        return ('arr', v.shape, v.cells.copy())
    if isinstance(v, (tuple, PList)):
        l = list(v) if isinstance(v, tuple) else v.plain()
        if l is None:
            raise Unsupported('list of symbolic length in a report')
        return ('seq', [freeze(I, z) for z in l])
    if isinstance(v, (T, int, float, complex, str, bool, type(None), SStr)) or stubs.is_text(v):
        return ('val', v)
    raise Unsupported('report %r' % (v,))


def report(I, c, key=None):
    """everything the container says about combination j (or `key`) and about itself"""
    n = c.cls.name
    keys = method(I, c, 'get_keys')
    out = {'number of combinations': length(I, keys)}
    kj = I.getitem(keys, j) if key is None else key
    out['name'] = kj
    us = [('radians',), ('degrees',)] if n == 'DataContainer' else [()]
    for u in us:
        t = ''.join(u)
        out['get_pc '+t] = method(I, c, 'get_pc', kj, *u)
        if key is None:
            out['get_values '+t] = I.getitem(method(I, c, 'get_values', *u), j)
            it = I.getitem(method(I, c, 'get_items', *u), j)
            out['get_items '+t] = (I.getitem(it, 0), I.getitem(it, 1))
    if n in ('DataContainer', 'fDataContainer'):
        out['scale'] = method(I, c, 'get_scale')
        for u in ('radians', 'degrees'):
            out['phase shift '+u] = method(I, c, 'get_phase_shift', u)
        out['largest value of a combination'] = method(I, c, 'get_pc_maxval', kj)
    if n == 'DataContainer':
        out['offset'] = method(I, c, 'get_offset')
        out['smallest value of a combination'] = method(I, c, 'get_pc_minval', kj)
    if n in ('fDataContainer', 'fFormContainer'):
        out['M'] = method(I, c, 'get_M')
    return {k: freeze(I, v) for k, v in out.items()}


def same(p, I, what, a, b):
    def eq(w, x, y):
        if x[0] != y[0]:
            p.true(w, False, '%r, was %r' % (x, y))
        elif x[0] == 'arr':
            p.arr_eq(w, Arr(x[1], x[2]), y[1], lambda i: cell_at(y[2], y[1], i))
        elif x[0] == 'seq':
            p.true(w+': length', len(x[1]) == len(y[1]))
            for z, t in zip(x[1], y[1]):
                eq(w, z, t)
        elif isinstance(x[1], (T, int, float, complex)) and not isinstance(x[1], bool):
            p.eq(w, x[1], y[1] if isinstance(y[1], (T, int, float, complex)) else T.const(TM.fresh('other')))
        else:
            p.true(w, I.equal(x[1], y[1]) is True, '%r, was %r' % (x[1], y[1]))
    p.true(what+': the same reports', a.keys() == b.keys())
    for k in a:
        eq('%s: %s' % (what, k), a[k], b[k])


def wipe(I, a, at=None):
    """overwrite an array (all of it, or one row of it)"""
    I.setitem(a, slice(None) if at is None else at, 7 if a.dtype == 'int' else TM.var('junk', 'c' if a.dtype in ('complex', 'object') else 'r'))


def start(I):
    I.structural_keys = True
    for c in (('ge', j), ('gt', K-j), ('gt', K), ('ge', M), ('ge', s0)):
        I.ctx.assume(c)


def user(name, fn):
    """a function of the caller"""
    return Meth(name, fn)


def dat_source(normal=False, dt='float', X_=xin):
    if normal:
        return PDict({'PP': table(0, X_, dtype=dt), 'SP': table(1, X_, dtype=dt)})
    return keyed('pc', K, lambda k: table(k, X_, dtype=dt))


def four(dt):
    return keyed('pc', K, lambda k: mkarr((2*M+1,), lambda i: (C if dt == 'complex' else Ff)(k, T.const(i[0])-M), dt))


def smooth(I, a, k):
    y = a[0]
    return mkarr(y.shape, lambda i: T.atom(('r', 'fn:smooth', y.get(i))), 'float')


def inplace(I, a, k):
    """a filter of the caller which works in place"""
    y = a[0]
    I.setitem(y, slice(None), TM.var('junk'))
    return y


pair = lambda *l: PList([tuple(z) for z in l])
#        source, constructor options, operations
KIND = {
    'DataContainer': (lambda: dat_source(), lambda: (['radians'], {}), {
        'scale': lambda I, c: method(I, c, 'scale_data', s0), 'shift': lambda I, c: method(I, c, 'phase_shift_data', a0, 'radians'),
        'shift by degrees': lambda I, c: method(I, c, 'phase_shift_data', a0, 'degrees'), 'subtract minimum': lambda I, c: method(I, c, 'subtract_min'),
        'filter': lambda I, c: method(I, c, 'filter', user('smooth', smooth))}),
    'fDataContainer': (lambda: four('complex'), lambda: ([], {'M': M}), {
        'scale': lambda I, c: method(I, c, 'scale_fdata', s0), 'shift': lambda I, c: method(I, c, 'phase_shift_fdata', a0, 'radians'),
        'shift by degrees': lambda I, c: method(I, c, 'phase_shift_fdata', a0, 'degrees')}),
    'fFormContainer': (lambda: four('object'), lambda: ([], {'M': M}), {
        'subs': lambda I, c: method(I, c, 'subs', pair((X, Y+1), (Y, 2*s0))), 'shift': lambda I, c: method(I, c, 'apply_phase_shift', a0),
        'scale': lambda I, c: method(I, c, 'apply_arbitrary_scale', q)}),
    'FormContainer': (lambda: keyed('pc', K, f), lambda: ([], {}), {
        'subs': lambda I, c: method(I, c, 'subs', pair((X, Y+1), (Y, 2*s0))), 'shift': lambda I, c: method(I, c, 'apply_phase_shift', a0, PHI),
        'scale': lambda I, c: method(I, c, 'apply_arbitrary_scale', q), 'expand': lambda I, c: method(I, c, 'expand'), 'simplify': lambda I, c: method(I, c, 'simplify')}),
}


def make(I, kind, src=None):
    s, o, _ = KIND[kind]
    a, k = o()
    return construct(I, kind, s() if src is None else src, *a, **k)


def prove(p):
    p.assume_note('sympy expressions are immutable; simplify and expand do not change the value of an expression')

    # -- the container does not share what it was built from, nor what it hands out --
    for kind in KIND:
        for form in ('dictionary', 'list of items'):
            def owns(I, kind=kind, form=form):
                start(I)
                src = KIND[kind][0]()
                b = p.snap(src)
                given = src if form == 'dictionary' else I.call(stubs.TAB['builtins.list'], [I.call(I.getattr(src, 'items'), [], {})], {})
                c = make(I, kind, given)
                p.unchanged('what the container is built from', b)
                r = report(I, c)
                kj = I.getitem(method(I, c, 'get_keys'), j)
                old = I.getitem(src, kj)
                if isinstance(old, Arr):
                    wipe(I, old)
                    same(p, I, 'after changing an array it was built from', report(I, c), r)
                I.setitem(src, kj, old.copy() if isinstance(old, Arr) else Y)
                same(p, I, 'after changing the dictionary it was built from', report(I, c), r)
                for u in (('radians',), ('degrees',)) if kind == 'DataContainer' else ((),):
                    v = method(I, c, 'get_pc', kj, *u)
                    if isinstance(v, Arr):
                        wipe(I, v)
                    same(p, I, 'after changing an array obtained from get_pc', report(I, c), r)
                l = method(I, c, 'get_keys')
                I.call(I.getattr(l, 'append'), ['zz'], {})
                same(p, I, 'after changing the list of combinations', report(I, c), r)
            p.verify(D+kind, owns, 'built from a %s, which then changes' % form)

    for units in ('radians', 'degrees'):
        for dt in ('float', 'int'):
            for opt in ({}, {'normal_to_oblique': True}):
                def built(I, units=units, dt=dt, opt=opt):
                    start(I)
                    src = dat_source(bool(opt), dt)
                    b = p.snap(src)
                    c = construct(I, 'DataContainer', src, units, **opt)
                    p.unchanged('what the container is built from', b)
                    ks = ['PP', 'SS', 'SP', 'PS'] if opt else [None]
                    rs = [report(I, c, k) for k in ks]
                    kj = I.getitem(method(I, c, 'get_keys'), j) if not opt else None
                    for k in (['PP', 'SP'] if opt else [kj]):
                        for row in (0, 1):
                            wipe(I, I.getitem(src, k), row)
                    for k, r in zip(ks, rs):
                        same(p, I, 'after changing the arrays it was built from', report(I, c, k), r)
                    # each combination has its own arrays
                    for k in ks:
                        wipe(I, method(I, c, 'get_pc', kj if k is None else k, 'radians'))
                    if opt:
                        wipe(I, I.getitem(method(I, c, 'get_values', 'radians'), 0))
                        k0 = I.getitem(method(I, c, 'get_keys'), 0)
                    for k, r in zip(ks, rs):
                        if not (opt and k == k0):
                            same(p, I, 'after changing arrays handed out', report(I, c, k), r)
                p.verify(D+'DataContainer', built, '%s, %s%s' % (units, dt, ', normal to oblique' if opt else ''))

    # -- copies --
    for kind, (_, _, ops) in KIND.items():
        for o in [None]+list(ops):
            def copied(I, kind=kind, o=o, ops=ops):
                start(I)
                c = make(I, kind)
                if o:
                    ops[o](I, c)
                r = report(I, c)
                d = method(I, c, 'copy')
                p.true('class of the copy', isinstance(d, Inst) and d.cls is c.cls)
                p.true('the copy is another object', d is not c)
                same(p, I, 'copy', report(I, d), r)
                for w in ops:
                    e = method(I, c, 'copy')
                    if w == 'shift by degrees':
                        continue
                    ops[w](I, e)
                    same(p, I, 'the original after %s of the copy' % w, report(I, c), r)
                v = I.getitem(method(I, d, 'get_values', *(['radians'] if kind == 'DataContainer' else [])), j)
                if isinstance(v, Arr):
                    wipe(I, v)
                    same(p, I, 'the original after changing the values of the copy', report(I, c), r)
                e = method(I, c, 'copy')
                v = I.getitem(method(I, c, 'get_values', *(['radians'] if kind == 'DataContainer' else [])), j)
                if isinstance(v, Arr):
                    wipe(I, v)
                    same(p, I, 'the copy after changing the values of the original', report(I, e), r)
            p.verify(D+kind+'.copy', copied, 'after %s' % (o or 'construction'))

            def copied2(I, kind=kind, o=o, ops=ops):
                for w in ops:
                    start(I)
                    c = make(I, kind)
                    if o:
                        ops[o](I, c)
                    e = method(I, c, 'copy')
                    r = report(I, e)
                    ops[w](I, c)
                    same(p, I, 'the copy after %s of the original' % w, report(I, e), r)
            p.verify(D+kind+'.copy', copied2, 'after %s, then the original changes' % (o or 'construction'))

    # -- conversions, merges, tables, files --
    def fform(I, n=2):
        return construct(I, 'fFormContainer', keyed('pc', K, lambda k: mkarr((2*M+1,), lambda i: Ff(k, T.const(i[0])-M))), M=M)

    def conv(qual, name, make_args, kw=None, result=True, also=None, contracts=None):
        def body(I):
            start(I)
            I.ghost = native.Ghost()
            args = make_args(I)
            conts = [a for z in args for a in (I.unpack(z, len(z.items)) if isinstance(z, PList) else [z]) if isinstance(a, Inst)]
            rs = [report(I, c) for c in conts]
            b = p.snap(*args)
            if also:
                also(I)
            r = p.run(qual, args, dict(kw or {}))
            p.unchanged('what was given', b)
            for c, z in zip(conts, rs):
                same(p, I, 'what was given', report(I, c), z)
            if result and isinstance(r, Inst):
                kj = I.getitem(method(I, r, 'get_keys'), j)
                v = I.getitem(method(I, r, 'get_values', *(['radians'] if r.cls.name == 'DataContainer' else [])), j)
                if isinstance(v, Arr):
                    wipe(I, v)
                for c, z in zip(conts, rs):
                    same(p, I, 'what was given, after changing the result', report(I, c), z)
        p.verify(qual, body, name, contracts=contracts or {})

    from . import c18
    CT = {z: c18.symbols for z in c18.GET.values()}
    N = 1+TM.var('+N', 'i')
    data = lambda I: datacont(I, K, ang, n=c19.np4)
    fdat = lambda I: make(I, 'fDataContainer')
    form = lambda I: make(I, 'FormContainer')
    val = lambda *ps: PDict({k: TM.var('@v%d' % i) for i, k in enumerate(ps)})
    conv(D+'fform_to_fdat', '', lambda I: [fform(I), val(X, Y)], contracts=CT)
    conv(D+'fform_to_dat', '', lambda I: [fform(I), val(Y, X), N], contracts=CT)
    conv(D+'fdat_to_dat', '', lambda I: [fdat(I), N])
    conv(D+'fform_to_form', '', lambda I: [fform(I)])
    conv(D+'form_to_dat', '', lambda I: [form(I), val(Y, X), N], contracts=CT)
    def ft(I, a, k):
        a = list(a)+[k[z] for z in ('n', 'M')[len(a)-1:]]
        return T.atom(('c', 'FT', num(a[0]), num(a[1])))
    FT = {'shgpy.core._fourier_transform:_fourier_transform': ft}
    conv(D+'form_to_fform', '', lambda I: [form(I), M], contracts=FT)

    def converted(I, a, k):
        """contract of form_to_fform (C01; frame condition above)"""
        return fform(I)
    conv(D+'form_to_fdat', '', lambda I: [form(I), val(X, Y), M], contracts=dict(CT, **{D+'form_to_fform': converted}))
    def interp(I):
        stubs.TAB['scipy.interpolate.interp1d'].fn = c19.interp(p, 'cubic')
    conv(D+'dat_to_fdat', '', lambda I: [data(I)], {'M': M}, also=interp)

    def over(ks, val):
        """a dictionary over the given names"""
        x = TM.fresh('k')
        return PDict(keys=ks, fam=Family(K, TM.single_atom(x), val(x)))

    def both(I):
        ks = KeySeq('pc', K)
        return [construct(I, 'DataContainer', over(ks, lambda k: table(k, ang, v, c19.np4)), 'radians') for v in (yin, lambda k, i: T.atom(('r', 'y2', T.const(k), T.const(i))))]
    for fn in ('dat_add', 'dat_subtract'):
        conv(D+fn, 'two containers', both)
        def twice(I, fn=fn):
            start(I)
            d = data(I)
            r = report(I, d)
            b = p.snap(d)
            p.run(D+fn, [d, d])
            p.unchanged('what was given', b)
            same(p, I, 'what was given', report(I, d), r)
        p.verify(D+fn, twice, 'a container and itself')
    ren = Meth('mapping', lambda I, a, k: stubs.mktext([a[0], '_', stubs.to_str(I, a[1])]) if not isinstance(a[0], str) else a[0]+str(int(num(a[1]).as_int())))
    small = {
        'DataContainer': lambda I, n: construct(I, 'DataContainer', PDict({z: table(10*n+i, ang) for i, z in enumerate(('PP', 'PS'))}), 'radians'),
        'fDataContainer': lambda I, n: construct(I, 'fDataContainer', PDict({z: mkarr((2*M+1,), lambda k, i=i: C(10*n+i, T.const(k[0])-M), 'complex') for i, z in enumerate(('PP', 'PS'))}), M=M),
        'fFormContainer': lambda I, n: construct(I, 'fFormContainer', PDict({z: mkarr((2*M+1,), lambda k, i=i: Ff(10*n+i, T.const(k[0])-M)) for i, z in enumerate(('PP', 'PS'))}), M=M),
        'FormContainer': lambda I, n: construct(I, 'FormContainer', PDict({z: f(10*n+i) for i, z in enumerate(('PP', 'PS'))})),
    }
    for kind in KIND:
        def merge(I, kind=kind):
            start(I)
            cs = [small[kind](I, n) for n in range(2)]
            l = PList(cs+[cs[0]])
            rs = [report(I, c, 'PS') for c in cs]
            b = p.snap(l)
            r = p.run(D+'merge_containers', [l, ren])
            p.unchanged('what was given', b)
            for k in I.iterate(method(I, r, 'get_keys')):
                vs = method(I, r, 'get_values', *(['radians'] if kind == 'DataContainer' else []))
                for v in I.iterate(vs):
                    if isinstance(v, Arr):
                        wipe(I, v)
            for c, z in zip(cs, rs):
                same(p, I, 'what was given, after changing the result', report(I, c, 'PS'), z)
        p.verify(D+'merge_containers', merge, kind)
        for style in ('multi', 'none'):
            def tab(I, kind=kind, style=style):
                start(I)
                c = datacont(I, K, ang) if kind == 'DataContainer' else make(I, kind)
                r = report(I, c)
                b = p.snap(c)
                method(I, c, 'as_pandas', *(['degrees'] if kind == 'DataContainer' else []), index=style)
                p.unchanged('container', b)
                same(p, I, 'container', report(I, c), r)
            p.verify(D+kind+'.as_pandas', tab, style)
    conv(D+'save_fform', '', lambda I: [fform(I), Text([('user', 'file')])])

    # -- formula generation --
    theta = TM.var('theta_in')
    def gen(fn, names, ranks, contracts):
        def body(I):
            arg = [c03.tensor(n, r) for n, r in zip(names, ranks)]
            old = [a.copy() for a in arg]
            b = p.snap(*arg)
            p.run(FG+fn, [theta]+arg if fn == 'formgen' else arg+[theta])
            p.unchanged('tensors', b)
            for n, a, o in zip(names, arg, old):
                p.arr_eq('tensor '+n, a, o.shape, lambda i: o.get(i))
        p.verify(FG+fn, body, '', contracts=contracts)
    ALLC = dict(einstein.contracts(), **dict(c03.ASSERT, **c03.FORM))
    gen('formgen_just_dipole', ['t1'], [3], ALLC)
    gen('formgen_dipole_quadrupole', ['t1', 't2'], [3, 4], ALLC)
    gen('formgen', ['t_eee', 't_mee', 't_qee'], [3, 3, 4], ALLC)

    # -- fits: the formula, the data, the guess, the bounds and the options --
    def routine(name, on, bnd, jac, variant):
        def body(I):
            P = fit.P
            start(I)
            for c in (('gt', P), ('ge', c23.Q)):
                I.ctx.assume(c)
            fs = KeySeq('fs', P, sym=True)
            ks = KeySeq('pc', K)
            fo = construct(I, 'fFormContainer', over(ks, lambda k: mkarr((2*M+1,), lambda i: fit.G(k, T.const(i[0])-M))), M=M)
            dt = construct(I, 'fDataContainer', over(ks, lambda k: mkarr((2*M+1,), lambda i: fit.d(k, T.const(i[0])-M), 'complex')), M=M)
            method(I, dt, 'scale_fdata', s0)
            I.diffs = []
            I.xreplace_hook = fit.replace_hook(p, fs)
            I.fs_hook = lambda I, t: PSet([native.MatSym('xs', P, 1)])
            fit.toolchain(I, p).call = lambda I, w, fn, arr: T.atom(('r', '@file', TM.fresh('f')))
            y = TM.fresh('y')
            I.contracts = {z: (lambda I, a, k: PList([Splice(Family(P, TM.single_atom(y), fs.at(y)))])) for z in c18.GET.values()}
            I.contracts[FF+'_fixed_autowrap'] = fit.autowrap(p)
            if variant == 'chunk':
                from . import c20
                I.contracts[FF+'_make_energy_func_chunked'] = c20.chunked_contract(p)
            gd, bd = c23.shuffled(fs, 's1', c23.guess), c23.shuffled(fs, 's2', lambda s: (c23.lo(s), c23.hi(s)))
            kw = {}
            if variant == 'options':
                o = {'least_squares': 'least_sq_kwargs', 'basinhopping': 'basinhopping_kwargs', 'dual_annealing': 'local_search_options'}[on]
                kw[o] = PDict({'T': TM.var('T'), 'minimizer_kwargs': PDict({'tol': TM.var('tol')})} if on == 'basinhopping' else {'method': 'CG'} if on == 'dual_annealing' else {'ftol': TM.var('ftol')})
            if variant == 'chunk':
                kw['chunk_cost_func'] = True

            def run(I, n, a):
                I.call(a['fun'] if 'fun' in a else a['func'], [fit.xvec()], {})
                return native.OptRes({'x': mkarr((P,), lambda i: c23.opt(i[0]), 'float'), 'success': True, 'fun': TM.var('fun')})
            I.optimizer = run
            rs = [report(I, c) for c in (fo, dt)]
            args = [fo, dt, gd]+([bd] if bnd else [])+([TM.var('niter')] if on == 'basinhopping' else [])
            b = p.snap(*args, *kw.values())
            p.run(FF+name, args, kw)
            p.unchanged('what was given', b)
            for c, r in zip((fo, dt), rs):
                same(p, I, 'formula' if c is fo else 'data', report(I, c), r)
        p.verify(FF+name, body, variant)
    for name, on, bnd, jac in c23.ROUTINES:
        for variant in ('plain', 'options')+(() if jac else ('chunk',)):
            routine(name, on, bnd, jac, variant)
