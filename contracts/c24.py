"""Saved formulas and functions load back as what was saved last.

Formulas: any number of combinations, any M, arbitrary expressions; saving is verified to
store what loading reads back, from any state of the file and of what is saved afterwards.
Cost functions: from any state of the file (absent, present, loaded before), saving and
loading yields the function saved, whatever is saved or loaded afterwards."""
from pyvc import terms as TM
from pyvc.terms import T, ZERO, ONE
from pyvc.core import Unsupported
from pyvc.values import *
from pyvc.stubs import Text, mktext, NameOf
from pyvc import native
from .cont import *
from . import fit

K, j, M = TM.var('K', 'i'), TM.var('j', 'i'), TM.var('M', 'i')
M2, K2 = TM.var('M2', 'i'), TM.var('K2', 'i')
FG = 'shgpy.fformgen:'
FF = 'shgpy.fformfit:'


def prove(p):
    p.assume_note('sympify(srepr(e)) is e, including the assumptions of its symbols; unpickling yields what was pickled')

    def v(k, m):
        return T.atom(('c', 'v', T.const(k), T.const(m)))

    def w(k, m):
        return T.atom(('c', 'w', T.const(k), T.const(m)))

    def formula(I, Mv, val, name='pc', n=K):
        return construct(I, 'fFormContainer', keyed(name, n, lambda k: mkarr((2*T.const(Mv)+1,), lambda i: val(k, T.const(i[0])-Mv))), M=Mv)

    def start(I):
        I.structural_keys = True
        I.ghost = native.Ghost()
        for c in (('ge', j), ('gt', K-j), ('gt', K), ('ge', M), ('gt', K2), ('ge', M2), ('gt', K2-j)):
            I.ctx.assume(c)

    def check(I, g, Mv, val, name='pc', n=K):
        p.true('class', isinstance(g, Inst) and g.cls.name == 'fFormContainer', repr(g))
        p.eq('M', method(I, g, 'get_M'), T.const(Mv))
        keys = method(I, g, 'get_keys')
        p.eq('number of combinations', length(I, keys), n)
        kj = I.getitem(keys, j)
        p.true('combination names, in order', isinstance(kj, SStr) and kj.seq.name == name and kj.i == j, repr(kj))
        for how, a in (('get_pc', lambda: method(I, g, 'get_pc', kj)), ('get_values', lambda: I.getitem(method(I, g, 'get_values'), j))):
            p.arr_eq('expressions ('+how+')', a(), (2*T.const(Mv)+1,), lambda i: val(j, T.const(i[0])-Mv))

    NAMES = {'text': lambda: Text([('user', 'file')]), 'path': lambda: native.PathV((Text([('user', 'file')]),))}
    other = lambda: Text([('user', 'other')])
    for nm, fn in NAMES.items():
        for Mv in (M, 0, 3):
            def one(I, Mv=Mv, fn=fn):
                start(I)
                f = formula(I, Mv, v)
                before = p.snap(f)
                r = p.run(D+'save_fform', [f, fn()])
                p.true('returns nothing', r is None)
                p.unchanged('the formula saved', before)
                g = p.run(D+'load_fform', [fn()])
                check(I, g, Mv, v)
                p.unchanged('the formula saved', before)
                # loading again, after changing what was saved and what was loaded
                for c in (f, g):
                    method(I, c, 'apply_arbitrary_scale', TM.var('s'))
                h = p.run(D+'load_fform', [fn()])
                check(I, h, Mv, v)
            p.verify(D+'save_fform', one, 'then load_fform, M = %s, file given as %s' % (Mv, nm))

    def twice(I):
        start(I)
        p.run(D+'save_fform', [formula(I, M2, w, 'qc', K2), NAMES['text']()])
        p.run(D+'load_fform', [NAMES['text']()])
        p.run(D+'save_fform', [formula(I, M, v), NAMES['path']()])
        p.run(D+'save_fform', [formula(I, M2, w, 'qc', K2), other()])
        check(I, p.run(D+'load_fform', [NAMES['text']()]), M, v)
        check(I, p.run(D+'load_fform', [other()]), M2, w, 'qc', K2)
    p.verify(D+'save_fform', twice, 'overwriting a formula with other combinations and other M, and saving another one elsewhere')

    def concrete(I):
        """concrete combinations, among them entries which are numbers"""
        start(I)
        x = TM.var('x')
        E = {'PP': [x, ZERO, ONE], 'ss 1': [TM.I*x, x*x, T.const(-2)], '': [ZERO, ZERO, ZERO]}
        f = construct(I, 'fFormContainer', PDict({k: mkarr((3,), lambda i, e=e: e[i[0]]) for k, e in E.items()}), M=1)
        p.run(D+'save_fform', [f, other()])
        g = p.run(D+'load_fform', [other()])
        p.true('combinations', list(method(I, g, 'get_keys').items) == list(E))
        p.eq('M', method(I, g, 'get_M'), ONE)
        for k, e in E.items():
            p.arr_eq('expressions of %r' % k, method(I, g, 'get_pc', k), (3,), lambda i: e[i[0]])
    p.verify(D+'save_fform', concrete, 'then load_fform, given expressions and numbers')

    def plain(I):
        """the same file format in fformgen"""
        start(I)
        n = 1+TM.var('L', 'i')
        I.ctx.assume(('gt', n))
        d = keyed('pc', K, lambda k: mkarr((n,), lambda i: v(k, i[0])))
        before = p.snap(d)
        p.run(FG+'_save_fform_dict', [other(), keyed('qc', K, lambda k: mkarr((n,), lambda i: w(k, i[0])))])
        p.run(FG+'_save_fform_dict', [other(), d])
        p.unchanged('dictionary saved', before)
        r = p.run(FG+'_load_fform_dict', [other()])
        p.eq('number of combinations', length(I, r), K)
        p.arr_eq('expressions', I.getitem(r, d.keys.at(j)), (n,), lambda i: v(j, i[0]))
        p.true('names', r.keys is d.keys, repr(r.keys))
        # a dictionary saved by fformgen is read as a formula
        I.ctx.assume(('ge', M))
        p.run(FG+'_save_fform_dict', [other(), keyed('pc', K, lambda k: mkarr((2*M+1,), lambda i: v(k, i[0]-M)))])
        check(I, p.run(D+'load_fform', [other()]), M, v)
    p.verify(FG+'_save_fform_dict', plain, 'then _load_fform_dict, load_fform')

    funcs(p)


def funcs(p):
    P, n = fit.P, TM.var('n', 'i')

    def e(q, at='xs'):
        return T.atom(('c', 'E@'+at, T.const(q)))

    def el(q, i, at='xs'):
        return T.atom(('c', 'E@'+at, T.const(q), T.const(i)))

    def setup(I):
        I.ctx.assume(('gt', P))
        I.ctx.assume(('gt', n))
        return fit.toolchain(I, p)

    def chunked_list(q, N):
        y = TM.fresh('y')
        return PList([Splice(Family(n, TM.single_atom(y), el(q, y)))]) if N is n else PList([el(q, i) for i in range(N)])

    def want(q, chunk, N=n):
        if not chunk:
            return e(q, 'x').real()
        i = TM.fresh('i')
        return TM.Sum(i, ZERO, T.const(N), el(q, i, 'x').real())

    def value(I, c, dt='float'):
        return num(I.call(c, [fit.xvec(dtype=dt)], {}))
    FILE = {'text': lambda: Text([('user', 'file')]), 'path': lambda: native.PathV((Text([('user', 'file')]),))}

    def save(I, q, chunk, fn, N=n):
        if chunk:
            return p.run(FF+'_make_energy_func_chunked', [chunked_list(q, N), 'SHGPY_COST_FUNC'], dict(variable=native.MatSym('xs', P, 1), save_filename=fn))
        return p.run(FF+'_fixed_autowrap', [e(q), 'SHGPY_COST_FUNC'], dict(save_filename=fn))
    for chunk in (False, True):
        for nm in FILE:
            for load in ('load_func', '_load_func'):
                def step(I, chunk=chunk, nm=nm, load=load):
                    """from any state of the file: absent, present, loaded before"""
                    g = setup(I)
                    c = save(I, 0, chunk, FILE[nm]())
                    for dt in ('float', 'int'):
                        p.eq('function returned when saving (%s parameters)' % dt, value(I, c, dt), want(0, chunk))
                    for other in FILE:
                        h = p.run(FF+load, [FILE[other]()])
                        for dt in ('float', 'int'):
                            p.eq('function loaded (%s parameters)' % dt, value(I, h, dt), want(0, chunk))
                    left = [k for k, c in g.files.items() if c is not None and k[:1] != (Text([('user', 'file')]),)]
                    p.true('no other file is left behind', not left, repr(left))
                p.verify(FF+load, step, '%s, saved with the file given as %s, from any state of it' % ('list of expressions' if chunk else 'one expression', nm))

    for ch in ((False, False, False), (True, True, True), (True, False, True), (False, True, False)):
        def history(I, ch=ch):
            """save, load, overwrite, load, overwrite, load: every function is the one saved
            when it was loaded, also later"""
            setup(I)
            fs = []
            for q, c in enumerate(ch):
                fs.append((save(I, q, c, FILE['text']()), q, c))
                fs.append((p.run(FF+'load_func', [FILE['path' if q else 'text']()]), q, c))
                if q == 1:
                    fs.append((p.run(FF+'load_func', [FILE['text']()]), q, c))
                for f, r, d in fs:
                    p.eq('function %s, %s saves later' % ('saved or loaded', q-r), value(I, f), want(r, d))
        p.verify(FF+'load_func', history, 'overwritten and loaded several times (chunked: %s)' % ', '.join('yes' if c else 'no' for c in ch))

    def two(I):
        """files do not affect each other"""
        setup(I)
        other = Text([('user', 'other')])
        save(I, 0, False, FILE['text']())
        a = p.run(FF+'load_func', [FILE['text']()])
        save(I, 1, True, other)
        b = p.run(FF+'load_func', [other])
        c = p.run(FF+'load_func', [FILE['text']()])
        for f, q, ch in ((a, 0, False), (b, 1, True), (c, 0, False)):
            p.eq('function of its own file', value(I, f), want(q, ch))
    p.verify(FF+'load_func', two, 'two files')

    # gen_cost_func saves what it returns
    for chunk in (False, True):
        def gen(I, chunk=chunk):
            f, dt, fs = fit.setup(I, p)
            I.xreplace_hook = fit.replace_hook(p, fs)
            fit.toolchain(I, p)
            saved = []

            def aw(I, a, kw):
                a = dict(zip(fit.AW, a), **kw)
                saved.append((a.get('save_filename'), num(a['energy_expr'])))
                return fit.Fn(num(a['energy_expr']))

            def ch(I, a, kw):
                from .c20 import NAMES, total
                a = dict(zip(NAMES, a), **kw)
                saved.append((a.get('save_filename'), total(a['energy_expr_list'].items)))
                return fit.Fn(saved[-1][1])
            I.contracts = {FF+'_fixed_autowrap': aw, FF+'_make_energy_func_chunked': ch}
            fn = FILE['text']()
            c = p.run(FF+'gen_cost_func', [f, dt], dict(chunk=chunk, save_filename=fn))
            p.true('saved once, in the file given', len(saved) == 1 and saved[0][0] == fn, repr(saved))
            p.eq('what is saved is the cost', fit.to_x(saved[0][1]), fit.cost())
            p.eq('what is returned is the cost', num(I.call(c, [fit.xvec()], {})), fit.cost())
        p.verify(FF+'gen_cost_func', gen, 'saves%s' % (', chunked' if chunk else ''))

    def mp_first(I, mp):
        setup(I)
        save(I, 0, False, FILE['text']())
        h = p.run(FF+'load_func', [FILE['text']()], {'multiprocessing': mp})
        p.eq('function loaded', value(I, h), want(0, False))
    p.verify(FF+'load_func', lambda I: mp_first(I, False), 'multiprocessing=False given')
