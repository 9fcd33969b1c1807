"""Tables and plots: for any number of combinations, points and frequencies, every row
carries the value stored for exactly its combination and coordinate, once."""
from pyvc import terms as TM
from pyvc.terms import T, ZERO, ONE
from pyvc.values import *
from .cont import *

K, j, M = TM.var('K', 'i'), TM.var('j', 'i'), TM.var('M', 'i')


def prove(p):
    p.assume_note('containers of data hold strictly increasing angles in [0, 2pi) (C12)')

    def start(I):
        for c in (('ge', j), ('gt', K-j), ('gt', K), ('ge', M)):
            I.ctx.assume(c)

    for u, f in (('radians', ONE), ('degrees', 1/DEG)):
        for style in ('multi', 'none'):
            def data(I, u=u, f=f, style=style):
                start(I)
                c = datacont(I, K, ang)
                s0 = TM.var('s0')
                I.ctx.assume(('ge', s0))
                method(I, c, 'scale_data', s0)
                b = p.snap(c)
                df = method(I, c, 'as_pandas', u, **({} if style == 'multi' else {'index': style}))
                kj = I.getitem(method(I, c, 'get_keys'), j)
                check_frame(p, I, df, 'table', K, j, kj, npts(j), lambda i: f*ang(j, i), lambda i: s0*yin(j, i),
                            ('POLARIZATION', 'ANGLE') if style == 'multi' else None, ['ANGLE', 'VALUE'])
                p.unchanged('container', b)
            p.verify(D+'DataContainer.as_pandas', data, '%s, %s' % (u, style))

    for cls, dt, col in (('fDataContainer', 'complex', 'VALUE'), ('fFormContainer', 'object', 'EXPRESSION')):
        for style in ('multi', 'none'):
            def four(I, cls=cls, dt=dt, col=col, style=style):
                start(I)
                C = lambda k, i: T.atom(('c', 'coef', T.const(k), T.const(i)))
                c = construct(I, cls, keyed('pc', K, lambda k: mkarr((2*M+1,), lambda i: C(k, i[0]), dt)), M=M)
                b = p.snap(c)
                df = method(I, c, 'as_pandas', **({} if style == 'multi' else {'index': style}))
                kj = I.getitem(method(I, c, 'get_keys'), j)
                check_frame(p, I, df, 'table', K, j, kj, 2*M+1, lambda i: i-M, lambda i: C(j, i),
                            ('POLARIZATION', 'N') if style == 'multi' else None, ['N', col])
                p.unchanged('container', b)
            p.verify(D+cls+'.as_pandas', four, style)

    for style in ('multi', 'none'):
        def form(I, style=style):
            start(I)
            E = lambda k: T.atom(('c', 'expr', T.const(k)))
            c = construct(I, 'FormContainer', keyed('pc', K, E))
            b = p.snap(c)
            df = method(I, c, 'as_pandas', **({} if style == 'multi' else {'index': style}))
            kj = I.getitem(method(I, c, 'get_keys'), j)
            check_frame(p, I, df, 'table', K, j, kj, None, None, lambda i: E(j), ('POLARIZATION',) if style == 'multi' else None, ['EXPRESSION'])
            p.unchanged('container', b)
        p.verify(D+'FormContainer.as_pandas', form, style)

    PL = 'shgpy.plotter:'
    p.assume_note('drawing: an axes object shows the curves handed to plot(); styling calls do not change them')
    from pyvc.frames import Axes

    def curves(I, fun, pcs, nd, **kw):
        start(I)
        I.__dict__['panels'] = []
        # containers holding the requested combinations, in another order, and one more
        I.ctx.assume(('ge', TM.var('s0')))
        dats = []
        for d in range(nd):
            ks = ([k for k in ('SS', 'SP', 'PS', 'PP', 'A', 'B') if k in pcs][::(-1)**d])+['XX']
            X = lambda k, i, d=d: ang(10*d+k, i)
            c = construct(I, 'DataContainer', PDict({k: table(10*d+q, ang) for q, k in enumerate(ks)}), 'radians')
            method(I, c, 'scale_data', TM.var('s0'))
            dats.append((c, {k: 10*d+q for q, k in enumerate(ks)}))
        ps = [PDict({'color': 'C%d' % d, 'label': 'l%d' % d}) for d in range(nd)]
        l1, l2, l3 = PList([c for c, _ in dats]), PList(ps), PList(list(pcs))
        b = p.snap(l1, l2, l3)
        p.run(PL+fun, [l1, l2, l3], dict(show_plot=False, **kw))
        p.unchanged('arguments', b)
        used = [a for a in I.panels if a.lines.items]
        p.true('panels drawn in', len(used) == len(pcs), '%d of %d' % (len(used), len(I.panels)))
        p.true('titles in order', [a.title for a in used] == list(pcs), repr([a.title for a in used]))
        for a, pc in zip(used, pcs):
            ls = a.lines.plain()
            p.true('curves in panel '+pc, ls is not None and len(ls) == nd, repr(ls))
            for (x, y, kws), (c, q), pd in zip(ls, dats, ps):
                p.arr_eq('angles in panel '+pc, x, (npts(q[pc]),), lambda i: ang(q[pc], i[0]))
                p.arr_eq('values in panel '+pc, y, (npts(q[pc]),), lambda i: TM.var('s0')*yin(q[pc], i[0]))
                p.true('style in panel '+pc, kws.d == pd.d, repr(kws.d))

    sets = [['PP'], ['SP'], ['SS', 'PP'], ['PS', 'SP'], ['SP', 'PP', 'SS'], ['PP', 'PS', 'SP', 'SS'], ['SS', 'PS', 'SP', 'PP']]
    def maxval(I, args, kw):
        # contract of get_maxval (C13): a combination and a number; no effect
        return (SStr(KeySeq('maxpc', 1), ZERO), TM.var('maxval'))
    for fun in ('easy_plot', 'easy_polar_plot'):
        for pcs in sets+([['A', 'PP', 'SS', 'B', 'PS']] if fun == 'easy_polar_plot' else []):
            for nd, kw in ((1, {}), (2, {'show_legend': True}), (3, {'filename': 'f'})):
                if fun == 'easy_plot' and nd == 2:
                    kw = dict(kw, xlabel='x', ylabel='y')
                p.verify(PL+fun, lambda I: curves(I, fun, pcs, nd, **kw), '%s, %d containers' % (','.join(pcs), nd), contracts={D+'DataContainer.get_maxval': maxval})

    def many(I):
        start(I)
        I.__dict__['panels'] = []
        c = construct(I, 'DataContainer', PDict({k: table(q, ang) for q, k in enumerate('ABCDE')}), 'radians')
        p.expect_raise(ValueError, lambda: p.run(PL+'easy_plot', [PList([c]), PList([PDict({})]), PList(list('ABCDE'))], {'show_plot': False}), 'more than four combinations are refused')
    p.verify(PL+'easy_plot', many, 'five combinations')
