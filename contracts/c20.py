"""The cost function is the squared distance between model and data, for any number of
combinations and free symbols, any M and arbitrary expressions."""
from pyvc import terms as TM
from pyvc.terms import T, ZERO, ONE
from pyvc.core import Unsupported
from pyvc.values import *
from pyvc.loops import Nested
from .fit import *


def total(items):
    """the sum of the real parts of the elements of a list"""
    t = ZERO
    for z in items:
        if not isinstance(z, Splice):
            t = t+num(z).real()
        elif z.cond is not True:
            raise Unsupported('filtered list')
        elif isinstance(z.fam, Nested):
            t = t+TM.Sum(T.atom(z.fam.x), ZERO, T.const(z.fam.n), total(z.fam.items))
        else:
            t = t+TM.Sum(T.atom(z.fam.x), ZERO, T.const(z.fam.n), num(z.fam.body).real())
    return t


NAMES = ('energy_expr_list', 'prefix', 'variable', 'save_filename', 'method', 'multiprocessing')


def chunked_contract(p):
    """contract of _make_energy_func_chunked"""
    def chunked(I, a, kw):
        kw = dict(zip(NAMES, a), **kw)
        xs = kw.pop('variable')
        p.true('vector of the functions', isinstance(xs, native.MatSym) and xs.name == 'xs' and T.const(xs.n) == P and xs.m == 1, repr(xs))
        p.true('options', kw.pop('multiprocessing', False) is False and kw.pop('save_filename', None) is None and kw.pop('method', 'gcc') == 'gcc')
        items = list(kw.pop('energy_expr_list').items)
        return Meth('cost', lambda I, a, k: I.ghost.at(I, total(items), a[0]))
    return chunked


def prove(p):
    def expr_of(I, e):
        """as function of the vector xs"""
        return to_x(num(e))

    def args_of(I, fs, given):
        if not given:
            return fs, []
        a = KeySeq('args', P, sym=True)
        y = TM.fresh('y')
        return a, [PList([Splice(Family(P, TM.single_atom(y), a.at(y)))])]

    # one function per expression of a list: for any n expressions the function returned
    # evaluates the sum of their real parts
    def E(i, at='xs'):
        return T.atom(('c', 'E@'+at, T.const(i)))

    n = TM.var('n', 'i')
    for N in (n, 1, 3):
        for mp in (False, True):
            def one(I, N=N, mp=mp):
                I.ctx.assume(('gt', T.const(N)))
                I.ctx.assume(('gt', P))
                toolchain(I, p)
                y = TM.fresh('y')
                l = PList([Splice(Family(N, TM.single_atom(y), E(y)))]) if N is n else PList([E(i) for i in range(N)])
                before = p.snap(l)
                c = p.run(F+'_make_energy_func_chunked', [l, 'SHGPY_COST_FUNC'], dict({'variable': native.MatSym('xs', P, 1)}, **({'method': 'clang'} if N == 3 else {})))
                p.unchanged('list', before)
                for dt in ('float', 'int'):
                    i = TM.fresh('i')
                    p.eq('value of the function (%s parameters)' % dt, num(I.call(c, [xvec(dtype=dt)], {})), TM.Sum(i, ZERO, T.const(N), E(i, 'x').real()))
            if not mp:
                p.verify(F+'_make_energy_func_chunked', one, '%s expressions' % N)
    for Mv in (M, 0, 2):
        for given in (False, True):
            def body(I, given=given, Mv=Mv):
                f, dt, fs = setup(I, p, Mv)
                a, extra = args_of(I, fs, given)
                I.xreplace_hook = replace_hook(p, a)
                e = p.run(F+'_make_energy_expr', [f, dt]+extra)
                p.eq('sum of the squared distances', expr_of(I, e), cost(Mv=Mv))
            p.verify(F+'_make_energy_expr', body, 'M = %s, %s' % (Mv, 'argument list given' if given else 'default argument list'))
            def exprs(I, given=given, Mv=Mv):
                f, dt, fs = setup(I, p, Mv)
                a, extra = args_of(I, fs, given)
                I.xreplace_hook = replace_hook(p, a)
                l, xs = p.run(F+'_make_energy_expr_list', [f, dt]+extra)
                p.eq('the sum of the list is the sum of the squared distances', to_x(total(l.items)), cost(Mv=Mv))
                p.true('vector', isinstance(xs, native.MatSym) and T.const(xs.n) == P and xs.m == 1, repr(xs))
            p.verify(F+'_make_energy_expr_list', exprs, 'M = %s, %s' % (Mv, 'argument list given' if given else 'default argument list'))
            for chunk in (False, True):
                def gen(I, given=given, Mv=Mv, chunk=chunk):
                    f, dt, fs = setup(I, p, Mv)
                    a, extra = args_of(I, fs, given)
                    I.xreplace_hook = replace_hook(p, a)
                    g = toolchain(I, p)
                    if chunk:
                        I.contracts = {F+'_make_energy_func_chunked': chunked_contract(p)}
                    kw = {'chunk': True} if chunk else {}
                    if given:
                        kw['argument_list'] = extra[0]
                    c = p.run(F+'gen_cost_func', [f, dt], kw)
                    v = I.call(c, [xvec()], {})
                    p.eq('value of the cost function', num(v), cost(Mv=Mv))
                p.verify(F+'gen_cost_func', gen, 'M = %s, %s%s' % (Mv, 'argument list given' if given else 'default argument list', ', chunked' if chunk else ''))
