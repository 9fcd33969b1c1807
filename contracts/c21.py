"""The gradient handed to the optimizer is the gradient of the cost, for any number of
combinations and free symbols, any M and arbitrary expressions."""
from pyvc import terms as TM
from pyvc.terms import T, ZERO, ONE
from pyvc.core import Unsupported
from pyvc.values import *
from pyvc.stubs import Text, NameOf, mktext
from .fit import *


def D(e, i, at='x'):
    return T.atom(('r', 'D@'+at, T.const(e), T.const(i)))


def gradient_ok(p, I, r, f, what='', Mv=M, kind=tuple):
    """r: the pair (cost, gradient) at x"""
    p.true(what+'pair of cost and gradient', isinstance(r, tuple) and len(r) == 2, repr(r))
    p.eq(what+'cost', num(r[0]), cost(Mv=Mv))
    p.true(what+'derivatives of one function', len(I.diffs) == 1, '%d' % len(I.diffs))
    p.eq(what+'the function differentiated is the cost', to_x(I.diffs[0]), cost(Mv=Mv))
    p.arr_eq(what+'gradient', r[1], (P,), lambda i: D(0, i[0]))


def prove(p):
    p.assume_note('sympy.diff(e, xs[i]) is the partial derivative of e with respect to the i-th component')

    def fsh(I):
        def hook(I, t):
            return PSet([native.MatSym('xs', P, 1)])
        I.fs_hook = hook

    PRE = Text([('user', 'prefix')])

    for given in (False, True):
        for save in (False, True):
            for Mv in (M, 1):
                def body(I, given=given, save=save, Mv=Mv):
                    f, dt, fs = setup(I, p, Mv)
                    a = fs
                    if given:
                        a = KeySeq('args', P, sym=True)
                    I.diffs = []
                    I.xreplace_hook = replace_hook(p, a)
                    fsh(I)
                    toolchain(I, p)

                    def saved(I, e, fn):
                        at = None
                        try:
                            at = TM.single_atom(num(e))
                        except (AssertionError, ValueError):
                            pass
                        if at is not None and at[1] == 'D@xs':
                            want = (mktext([PRE, NameOf(at[3]), '.so']),) if save else None
                        else:
                            want = native.canon(I, Text([('user', 'cost')])) if save else None
                        got = None if fn is None else native.canon(I, fn)
                        p.true('the i-th component is saved as number i, the cost as the cost', got == want, '%r, expected %r' % (got, want))
                    I.contracts = {F+'_fixed_autowrap': autowrap(p, saved)}
                    y = TM.fresh('y')
                    extra = [PList([Splice(Family(P, TM.single_atom(y), a.at(y)))])] if given else []
                    kw = dict(save_filename=Text([('user', 'cost')]), grad_save_filename_prefix=PRE) if save else {}
                    c = p.run(F+'_make_energy_and_denergy_func_wrapper', [f, dt]+extra, kw)
                    gradient_ok(p, I, I.call(c, [xvec()], {}), f, Mv=Mv)
                p.verify(F+'_make_energy_and_denergy_func_wrapper', body, 'M = %s%s%s' % (Mv, ', argument list given' if given else '', ', saved' if save else ''))

    for N in (P, 1, 2, 13):
        def load(I, N=N):
            I.ctx.assume(('gt', P))
            g = toolchain(I, p, N)
            if N is P:
                I.loop_count = P

            def number(key):
                if len(key) != 1 or not isinstance(key[0], Text):
                    return None
                t = key[0].parts
                if t[:1] != PRE.parts:
                    return None
                rest = t[1:]
                if len(rest) == 1 and isinstance(rest[0], str) and rest[0].endswith('.so') and rest[0][:-3].isdigit():
                    return int(rest[0][:-3])
                if len(rest) == 2 and isinstance(rest[0], NameOf) and rest[1] == '.so':
                    return rest[0].t
                return None

            def ex(I, key):
                i = number(key)
                return None if i is None else mkbool(('and', ('ge', T.const(i)), ('gt', T.const(N)-i)))
            g.exists = ex

            def call(I, w, name, arr):
                """file i holds the i-th component, the cost file the cost"""
                if w[0] != 'given' or name != 'autofunc':
                    raise Unsupported('library %r' % (w,))
                is_x(p, I, arr, N)
                if w[1] == native.canon(I, Text([('user', 'cost')])):
                    return T.atom(('r', '@cost'))
                i = number(w[1])
                if i is None:
                    raise Unsupported('library %r' % (w,))
                return D(0, i)
            g.call = call
            def fn(I, a, kw):
                if len(a) != 1 or dict(kw, multiprocessing=False) != {'multiprocessing': False}:
                    raise Unsupported('options')
                return Loaded(native.canon(I, a[0]))
            I.contracts = {F+'_load_func': fn}
            c = p.run(F+'_load_energy_and_denergy_func', [Text([('user', 'cost')]), PRE])
            r = I.call(c, [xvec(N)], {})
            p.true('pair of cost and gradient', isinstance(r, tuple) and len(r) == 2, repr(r))
            p.eq('cost', num(r[0]), T.atom(('r', '@cost')))
            p.arr_eq('gradient', r[1], (N,), lambda i: D(0, i[0]))
        p.verify(F+'_load_energy_and_denergy_func', load, '%s parameters' % N)


class Loaded:
    """contract of _load_func (verified under C24): calls the function in the file"""

    def __init__(self, key):
        self.key = key

    def vsub(self, sub):
        return Loaded(tuple(vsub(c, sub) for c in self.key))

    def vdepends(self, atoms):
        return any(vdepends(c, atoms) for c in self.key)

    def vcall(self, I, a, k):
        return I.ghost.call(I, ('given', self.key), 'autofunc', a[0])
