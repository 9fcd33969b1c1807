"""Symbolic fitting problems: a Fourier formula with nc combinations, any M and P free
symbols, and Fourier data over at least the same combinations.  Both containers are given
by the contracts of their accessors (C15-C17); every entry G(k, m) of the formula is an
arbitrary expression in the free symbols, every datum d(k, m) an arbitrary complex number."""
from pyvc import terms as TM
from pyvc.terms import T, ZERO, ONE
from pyvc.core import Unsupported, PyRaise
from pyvc.values import *
from pyvc.loops import KeyFn
from pyvc.stubs import Meth, is_text
from pyvc import native
from .cont import Opaque, length

F = 'shgpy.fformfit:'
K, M, P = TM.var('K', 'i'), TM.var('M', 'i'), TM.var('P', 'i')


def G(k, m):
    return T.atom(('c', 'G', T.const(k), T.const(m)))


def Gx(k, m):
    """the value of G(k, m) at the parameters x (the position of a symbol in the argument list)"""
    return T.atom(('c', 'G@x', T.const(k), T.const(m)))


def Gxs(k, m):
    return T.atom(('c', 'G@xs', T.const(k), T.const(m)))


def d(k, m):
    return T.atom(('c', 'd', T.const(k), T.const(m)))


def x(s):
    return T.atom(('r', '@x', T.const(s)))


class Form:
    """the Fourier formula"""
    kind = 'fFormContainer'

    def __init__(self, I, ks, fs, Mv=M):
        self.I, self.ks, self.fs, self.M = I, ks, fs, Mv
        self.sym = True

    def vtype(self, I):
        return I.get('shgpy.core.data_handler:'+self.kind)

    def entry(self, k):
        return mkarr((2*T.const(self.M)+1,), lambda i: G(k, T.const(i[0])-self.M))

    def vattr(self, I, n):
        y = TM.fresh('y')
        a = TM.single_atom(y)

        def m(I, args, kw):
            if kw or len(args) != (1 if n == 'get_pc' else 0):
                raise PyRaise(TypeError('arguments of %s' % n))
            if n == 'get_M':
                return self.M
            if n == 'get_keys':
                return PList([Splice(Family(self.ks.n, a, self.ks.at(y)))])
            if n == 'get_free_symbols':
                return PList([Splice(Family(self.fs.n, a, self.fs.at(y)))]) if self.fs is not None else PList([])
            if n == 'get_items':
                return PList([Splice(Family(self.ks.n, a, (self.ks.at(y), self.entry(y))))])
            if n == 'get_values':
                return PList([Splice(Family(self.ks.n, a, self.entry(y)))])
            if n == 'get_pc':
                k = self.index(args[0])
                return self.entry(k)
            raise Unsupported('method %s of a container' % n)
        return Meth(n, m)

    def index(self, key):
        if isinstance(key, SStr) and key.seq is self.ks:
            return key.i
        raise Unsupported('combination %r' % (key,))


class Data(Form):
    """Fourier data over the same and further combinations, in any order"""
    kind = 'fDataContainer'

    def entry(self, k):
        return mkarr((2*T.const(self.M)+1,), lambda i: d(k, T.const(i[0])-self.M), 'complex')

    def vattr(self, I, n):
        if n in ('get_pc', 'get_M'):
            return super().vattr(I, n)
        raise Unsupported('method %s of the data' % n)


def setup(I, p, Mv=M, concl=None):
    """-> formula, data, argument list symbols"""
    I.structural_keys = True
    for c in (('ge', T.const(Mv)), ('gt', K), ('gt', P)):
        I.ctx.assume(c)
    ks = KeySeq('pc', K)
    fs = KeySeq('fs', P, sym=True)
    f, dt = Form(I, ks, fs, Mv), Data(I, ks, None, Mv)
    return f, dt, fs


def replace_hook(p, args):
    """xreplace: the s-th argument must be replaced by the s-th element of the vector"""
    def hook(I, t, m, pairs):
        if m.d is not None and not m.d:
            return t
        keys, fam = m._keys, m.fam
        if keys is None or not keys.sym:
            raise Unsupported('replacement %r' % (m,))
        s = TM.fresh('s')
        old = I.ctx.assump[:]
        I.ctx.assume(('ge', s))
        I.ctx.assume(('gt', T.const(args.n)-s))
        p.eq('every parameter is replaced', T.const(keys.n), T.const(args.n))
        p.true('parameters are replaced', keys.at(s) == args.at(s), repr(keys.at(s)))
        v = num(vsub(fam.body, {fam.x: s}))
        I.ctx.assump[:] = old
        a = TM.single_atom(v)
        p.true('a parameter is replaced by the argument at its position', a[1].startswith('xs:') and a[2] == s, repr(v))
        return t.subst(lambda z: T.atom(('c', 'G@xs')+z[2:]) if z[:2] == ('c', 'G') else T.atom(('c', 'G@xs')+z[2:]).conj() if z[:2] == ('cj', 'G') else None)
    return hook


def is_x(p, I, arr, n=P, what='the vector passed on'):
    p.arr_eq(what, arr, (n,), lambda i: x(i[0]))


def to_x(t):
    def f(z):
        if len(z) > 1 and z[1] in ('G@xs', 'D@xs', 'E@xs'):
            w = (z[0] if z[0] != 'cj' else 'c', z[1][:-1])+z[2:]
            return T.atom(w).conj() if z[0] == 'cj' else T.atom(w)
    return t.subst(f)


def toolchain(I, p, n=P):
    g = native.Ghost()
    I.ghost = g

    def at(I, e, arr):
        is_x(p, I, arr, n)
        if any(z[1] == 'G' or (z[0] == 'r' and z[1].startswith('sym:')) for z in e.atoms() if len(z) > 1 and isinstance(z[1], str)):
            p.true('the parameters were replaced', False, repr(e))
        return to_x(e)
    g.at = at
    return g


def xvec(n=P, dtype='float'):
    return mkarr((n,), lambda i: x(i[0]), dtype)


def cost(k=None, m=None, Mv=M):
    """sum over all combinations and frequencies of |G - d|**2"""
    k, m = TM.fresh('k'), TM.fresh('m')
    t = Gx(k, m)-d(k, m)
    return TM.Sum(k, ZERO, K, TM.Sum(m, -T.const(Mv), T.const(Mv)+1, t*t.conj()))


class Fn:
    """contract of a generated function: the real part of an expression at its argument"""

    def __init__(self, e):
        self.e = e

    def vsub(self, sub):
        return Fn(vsub(self.e, sub))

    def vdepends(self, atoms):
        return vdepends(self.e, atoms)

    def vcall(self, I, a, k):
        if len(a) != 1 or k:
            raise PyRaise(TypeError('arguments of a generated function'))
        return native.value_at(I, self.e, a[0])

    def __repr__(self):
        return '<function %r>' % (self.e,)


AW = ('energy_expr', 'prefix', 'save_filename', 'method', 'multiprocessing')


def autowrap(p, saved=None):
    """contract of _fixed_autowrap (verified under C20/C24)"""
    def f(I, a, kw):
        kw = dict(zip(AW, a), **kw)
        if kw.get('multiprocessing', False) is not False or kw.get('method', 'gcc') != 'gcc':
            raise Unsupported('options')
        if kw.get('save_filename') is not None or saved:
            (saved or (lambda *a: None))(I, kw['energy_expr'], kw.get('save_filename'))
        return Fn(num(kw['energy_expr']))
    return f
